"""Symbolic execution of the real ocbpy source by operator overloading."""
