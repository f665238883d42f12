"""Run ocbpy with symbolic scalars: swap what its modules call.

Only names that the modules of the code under test bind to numpy, math,
datetime and aacgmv2 (or to functions of these), and the builtins float and
int, are replaced, in the module namespaces, for the duration of one run.  The
functions executed are those of the working tree.
"""
import builtins
import contextlib
import datetime
import logging
import math
import sys
import types
import warnings

import numpy as np

from . import core, npshim, text, times  # noqa: F401
from .aacgm import Aacgm

MISSING = object()


def modules():
    return [m for n, m in list(sys.modules.items())
            if (n == 'ocbpy' or n.startswith('ocbpy.'))
            and '.tests' not in n and isinstance(m, types.ModuleType)]


def np_equiv(v):
    """Replacement for an object that comes from numpy/math/datetime."""
    if v is np:
        return npshim.NP
    if v is math:
        return npshim.MATH
    if v is datetime:
        return times.DT
    if v is datetime.datetime:
        return times.SymDatetime
    if v is datetime.timedelta:
        return times.SymTimedelta
    if v is np.linalg:
        return npshim.NP.linalg
    if isinstance(v, np.ufunc):
        return getattr(npshim.NP, v.__name__, None)
    mod = getattr(v, '__module__', None) or ''
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
        nm = getattr(v, '__name__', '')
        if mod.split('.')[0] == 'numpy' and getattr(np, nm, None) is v:
            return getattr(npshim.NP, nm)
        if mod == 'math':
            return getattr(npshim.MATH, nm)
    elif callable(v) and mod.split('.')[0] == 'numpy' and not isinstance(
            v, type):
        nm = getattr(v, '__name__', '')
        if nm and getattr(np, nm, None) is v:
            return getattr(npshim.NP, nm)
    if isinstance(v, type) and v in (np.float64, np.vectorize):
        return getattr(npshim.NP, v.__name__)
    return None


class Swap(object):
    def __init__(self):
        self.undo = []

    def set(self, d, k, v):
        self.undo.append((d, k, d.get(k, MISSING)))
        d[k] = v

    def attr(self, o, k, v):
        old = o.__dict__.get(k, MISSING) if hasattr(o, '__dict__') else \
            getattr(o, k)
        self.undo.append((('attr', o), k, old))
        setattr(o, k, v)

    def restore(self):
        for d, k, v in reversed(self.undo):
            if isinstance(d, tuple):
                if v is MISSING:
                    delattr(d[1], k)
                else:
                    setattr(d[1], k, v)
            elif v is MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        self.undo = []


def aacgm_swap(sw, h):
    import aacgmv2
    stub = Aacgm(h, aacgmv2)
    h.aacgm = stub
    for m in modules():
        for k, v in list(m.__dict__.items()):
            if v is aacgmv2:
                sw.set(m.__dict__, k, stub)
            elif callable(v) and (getattr(v, '__module__', '') or ''
                                  ).startswith('aacgmv2') and hasattr(
                                      Aacgm, getattr(v, '__name__', '')):
                sw.set(m.__dict__, k, getattr(stub, v.__name__))


class Quiet(logging.Filter):
    def filter(self, record):
        return False


@contextlib.contextmanager
def quiet():
    lv = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                yield
    finally:
        logging.disable(lv)


@contextlib.contextmanager
def symbolic(h):
    import ocbpy  # noqa F401
    sw = Swap()
    try:
        with quiet():
            aacgm_swap(sw, h)
            for m in modules():
                d = m.__dict__
                for k, v in list(d.items()):
                    if k.startswith('__'):
                        continue
                    r = np_equiv(v)
                    if r is not None:
                        sw.set(d, k, r)
                for k, v in (('float', npshim.FloatShim),
                             ('int', npshim.IntShim)):
                    if k not in d or d[k] is getattr(builtins, k):
                        sw.set(d, k, v)
                # module-level constants computed from pi and the like keep
                # their float values; lift() recognises them
            for f in getattr(h, 'extra_swaps', ()):
                f(sw)
            yield
    finally:
        sw.restore()


@contextlib.contextmanager
def concrete(h):
    import ocbpy  # noqa F401
    sw = Swap()
    try:
        with quiet():
            aacgm_swap(sw, h)
            yield
    finally:
        sw.restore()


def boot(home):
    """Make ocbpy importable without touching the user's home directory."""
    import os
    os.environ['HOME'] = home
    os.makedirs(os.path.join(home, 'pysatData'), exist_ok=True)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
