"""Symbolic scalars, path exploration and the solver interface.

The real ocbpy functions are executed with `SR` objects (exact algebraic
expressions over symbolic atoms) in place of floats.  A branch on a symbolic
condition forks the run (re-execution with a recorded decision prefix); an
assertion becomes a query to an SMT solver over all values of the atoms that
follow the path.
"""
import math
import time
from fractions import Fraction as Fr

import mpmath
import numpy as _np
import z3

mpmath.mp.dps = 40

NAN = _np.float64('nan')
ZERO = Fr(0)
ONE = Fr(1)


class Unsupported(Exception):
    """The code under test did something this encoding cannot represent."""


class PathAbort(BaseException):
    """An assumption failed on this path."""


class Budget(Exception):
    """A path, depth or time bound was exceeded."""


# ----------------------------------------------------------------- atoms ----
class Atom(object):
    __slots__ = ('idx', 'name', 'kind', 'sq', 'sgn', 'defs', 'ev', 'z', 'lo',
                 'hi', 'defz')

    def __init__(self, idx, name, kind, ev):
        self.idx, self.name, self.kind, self.ev = idx, name, kind, ev
        self.sq = None          # Poly that replaces atom**2
        self.sgn = None         # static sign: '+', '0+', '-', '0-'
        self.defs = ()          # atoms used in the definition
        self.defz = []          # defining z3 constraints (thunks)
        self.lo = self.hi = None
        self.z = z3.Int(name) if kind == 'int' else z3.Real(name)


class Memo(object):
    def __init__(self, f):
        self.f, self.v = f, None

    def __call__(self):
        if self.v is None:
            self.v = self.f()
        return self.v


class World(object):
    """Atom table, solver caches and the state of the current path."""

    def __init__(self, opts=None):
        o = dict(max_paths=4000, max_depth=400, t_feas=2.0, t_goal=20.0,
                 deadline=None)
        o.update(opts or {})
        self.o = o
        self.atoms = []
        self.bykey = {}
        self.pair = {}          # (i, j) -> Poly for atom_i*atom_j
        self.roots = {}         # sqrt atom -> [(root, radicand)]
        self.units = {}         # mono -> list of [coef, c, s]
        self.halves = {}
        self.lemmas = []        # (set of atoms, z3 thunk, key)
        self.lemkeys = set()
        self.factors = []
        self.fkey = {}
        self.qcache = {}
        self.pi = self.atom(('pi',), 'PI', 'pi', lambda e: mpmath.pi)
        self.pi.sgn = '+'
        self.pi.defz.append(lambda: z3.And(
            self.pi.z > z3.Q(314159265358979, 10**14),
            self.pi.z < z3.Q(314159265358980, 10**14)))
        self.stat = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                         paths=0, decisions=0, forks=0, by={})
        self.reset_path([])

    # -- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.path = []          # list of SB
        self.known = {}
        self.pending = []
        self.fresh = 0
        self.stubs = {}

    def atom(self, key, name, kind, ev):
        a = self.bykey.get(key)
        if a is None:
            a = Atom(len(self.atoms), '%s!%d' % (name, len(self.atoms)), kind,
                     ev)
            self.atoms.append(a)
            self.bykey[key] = a
        return a

    def lemma(self, atoms, thunk, key, lin=None):
        """Register a lemma; `lin`: atoms that must occur directly for it
        to be worth sending to the solver."""
        if key in self.lemkeys:
            return
        self.lemkeys.add(key)
        self.lemmas.append((frozenset(atoms), Memo(thunk), frozenset(
            lin or ())))

    # -- cone of influence
    def closure(self, idxs):
        out = set()
        todo = list(idxs)
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            todo.extend(self.atoms[i].defs)
        return out

    def cone(self, extra, constraints):
        pi = self.pi.idx
        s = self.closure(set().union(*[e.atoms() for e in extra])
                         if extra else set())
        rest = list(constraints)
        chosen = []
        changed = True
        while changed:
            changed = False
            keep = []
            for c in rest:
                ca = c.atoms()
                if (ca - {pi}) & s or not ca:
                    chosen.append(c)
                    new = self.closure(ca)
                    if not new <= s:
                        s |= new
                        changed = True
                else:
                    keep.append(c)
            rest = keep
        return chosen, s

    def leaves(self, idxs):
        """The independent atoms that a set of atoms depends on."""
        out = set()
        for i in self.closure(idxs):
            a = self.atoms[i]
            if a.kind in ('c', 's'):
                if len(set(a.defs)) > 1:
                    continue
            elif a.defs:
                continue
            out.add(i)
        out.discard(self.pi.idx)
        return out

    def subcone(self, extra):
        """Path constraints over no other independent atoms than extra's."""
        ga = set().union(*[e.atoms() for e in extra]) if extra else set()
        g = self.leaves(ga)
        chosen = []
        s = self.closure(ga)
        for c in self.path:
            if self.leaves(c.atoms()) <= g:
                chosen.append(c)
                s |= self.closure(c.atoms())
        return chosen, s

    def query(self, extra, timeout, want_model=False, full=False, sub=False):
        """Decide satisfiability of path and extra.

        Returns ('sat'|'unsat'|'unknown', model or None).  'sat' is only
        meaningful for the constraints selected (all of them with full=True).
        """
        if sub:
            chosen, s = self.subcone(extra)
        elif full:
            chosen = list(self.path)
            s = self.closure(set().union(
                *[e.atoms() for e in chosen + list(extra)])
                if (chosen or extra) else set())
        else:
            chosen, s = self.cone(extra, self.path)
        key = (frozenset(c.key() for c in chosen),
               frozenset(c.key() for c in extra), frozenset(s))
        if not want_model and key in self.qcache:
            r, tm = self.qcache[key]
            if r != 'unknown' or tm >= timeout:
                return r, None
        cons = [c.z() for c in chosen] + [c.z() for c in extra]
        nonlin = any(c.nonlinear() for c in chosen) or any(
            c.nonlinear() for c in extra)
        hasint = any(self.atoms[i].kind == 'int' for i in s)
        for i in s:
            a = self.atoms[i]
            for j, t in enumerate(a.defz):
                if not isinstance(t, Memo):
                    t = a.defz[j] = Memo(t)
                cons.append(t())
            if a.sq is not None or a.kind in ('f', 'c', 's', 'sqrt'):
                nonlin = True
            if a.lo is not None:
                cons.append(a.z >= qz(a.lo))
            if a.hi is not None:
                cons.append(a.z <= qz(a.hi))
            if a.sgn == '+':
                cons.append(a.z > 0)
            elif a.sgn == '-':
                cons.append(a.z < 0)
            elif a.sgn == '0+':
                cons.append(a.z >= 0)
            elif a.sgn == '0-':
                cons.append(a.z <= 0)
        direct = set()
        if not full:
            todo = set().union(*[c.atoms() for c in list(chosen)
                                 + list(extra)])
            while todo:
                i = todo.pop()
                if i not in direct:
                    direct.add(i)
                    if self.atoms[i].kind == 'int':
                        todo |= set(self.atoms[i].defs)
        for al, th, lin in self.lemmas:
            if al <= s and (full or lin <= direct):
                cons.append(th())
        r, m = self.solve(cons, timeout, nonlin, hasint)
        self.qcache[key] = (r, timeout)
        return r, m

    def solve(self, cons, timeout, nonlin, hasint):
        st = self.stat
        st['queries'] += 1
        t0 = time.time()
        r, m, by = 'unknown', None, None

        def z3run(solver, tmo):
            solver.set('timeout', max(50, int(tmo * 1000)))
            solver.add(*cons)
            try:
                res = solver.check()
            except z3.Z3Exception:
                return 'unknown', None
            if res == z3.sat:
                return 'sat', solver.model()
            return ('unsat' if res == z3.unsat else 'unknown'), None

        if not nonlin or hasint:
            r, m = z3run(z3.Solver(), timeout)
            by = 'z3'
        else:
            r, m = z3run(z3.Solver(), min(1.0, timeout * 0.3))
            by = 'z3'
            if r == 'unknown':
                r, m = z3run(z3.Tactic('qfnra-nlsat').solver(), timeout * 0.5)
                by = 'z3-nlsat'
        if r == 'unknown':
            r2, m2 = cvc5_run(cons, max(0.3, timeout * 0.4), hasint)
            if r2 != 'unknown':
                r, m, by = r2, m2, 'cvc5'
        st['solver_s'] += time.time() - t0
        st[r] += 1
        if r != 'unknown':
            st['by'][by] = st['by'].get(by, 0) + 1
        return r, m

    def refute(self, extra, t):
        """Try growing sets of path constraints until one is unsat."""
        r, _ = self.query(extra, t, sub=True)
        if r == 'unsat':
            return r
        r, _ = self.query(extra, t)
        return r

    # -- decisions
    def decide(self, sb):
        """Fork on a symbolic boolean and return the branch taken."""
        if not isinstance(sb, SB):
            return bool(sb)
        k = sb.key()
        if k in self.known:
            return self.known[k]
        st = sb.static()
        if st is not None:
            self.known[k] = st
            return st
        if self.o['deadline'] is not None and time.time() > self.o['deadline']:
            raise Budget('time budget')
        i = len(self.trail)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            if i >= self.o['max_depth']:
                raise Budget('more than %d decisions on a path' %
                             self.o['max_depth'])
            self.stat['decisions'] += 1
            t = self.o['t_feas']
            rt = self.refute([sb], t)
            if rt == 'unsat':
                val, forced = False, True
            else:
                rf = self.refute([sb.neg()], t)
                if rf == 'unsat':
                    val, forced = True, True
                else:
                    val, forced = True, False
                    self.stat['forks'] += 1
                    self.pending.append(self.trail + [(False, False)])
        self.trail.append((val, forced))
        self.known[k] = val
        self.known[sb.neg().key()] = not val
        if not forced:
            self.path.append(sb if val else sb.neg())
        return val

    def fact(self, sb):
        """Record a consequence of the path."""
        if isinstance(sb, SB) and sb.key() not in self.known:
            self.known[sb.key()] = True
            self.known[sb.neg().key()] = False
            self.path.append(sb)

    def assume(self, cond):
        if isinstance(cond, SB):
            st = cond.static()
            if st is True:
                return
            if st is False:
                raise PathAbort('assumption')
            i = len(self.trail)
            if i < len(self.prefix):
                val = self.prefix[i][0]
            else:
                val = self.query([cond], self.o['t_feas'])[0] != 'unsat'
            self.trail.append((val, True))
            if not val:
                raise PathAbort('assumption')
            self.known[cond.key()] = True
            self.known[cond.neg().key()] = False
            self.path.append(cond)
        elif not cond:
            raise PathAbort('assumption')

    def proved(self, sb, timeout=None):
        """True if the solver shows that sb holds on this path."""
        if not isinstance(sb, SB):
            return bool(sb)
        k = sb.key()
        if k in self.known:
            return self.known[k]
        st = sb.static()
        if st is not None:
            return st
        return self.refute([sb.neg()], timeout or self.o['t_feas']) == 'unsat'

    def possible(self, sb, timeout=None):
        """True unless the solver shows that sb cannot hold on this path."""
        if not isinstance(sb, SB):
            return bool(sb)
        k = sb.key()
        if k in self.known:
            return self.known[k]
        st = sb.static()
        if st is not None:
            return st
        return self.refute([sb], timeout or self.o['t_feas']) != 'unsat'


W = None


def set_world(w):
    global W
    W = w


def qz(fr):
    fr = Fr(fr)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 \
        else z3.RealVal(fr.numerator)


def cvc5_run(cons, timeout, hasint):
    """Second solver, used when z3 has no answer."""
    import subprocess
    s = z3.Solver()
    s.add(*cons)
    txt = s.to_smt2()
    txt = '(set-logic %s)\n' % ('QF_NIRA' if hasint else 'QF_NRA') + '\n'.join(
        ln for ln in txt.splitlines() if not ln.startswith('(set-info')
        and not ln.startswith(';'))
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit',
                            str(int(timeout * 1000)), '-'],
                           input=txt, capture_output=True, text=True,
                           timeout=timeout + 5)
    except Exception:
        return 'unknown', None
    if '(error' in p.stdout or '(error' in p.stderr:
        return 'unknown', None
    first = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
    if first in ('sat', 'unsat'):
        return first, None
    return 'unknown', None


# ----------------------------------------------------------- polynomials ----
class Poly(object):
    __slots__ = ('t', '_k', '_a')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._a = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def atoms(self):
        if self._a is None:
            self._a = frozenset(i for m in self.t for i, _ in m)
        return self._a

    def const(self):
        """The constant value, or None if not constant."""
        if not self.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def z(self):
        terms = []
        for m, c in sorted(self.t.items()):
            fs = []
            for i, e in m:
                a = W.atoms[i]
                zz = z3.ToReal(a.z) if a.kind == 'int' else a.z
                fs.extend([zz] * e)
            if not fs:
                terms.append(qz(c))
            else:
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                terms.append(p if c == 1 else qz(c) * p)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for x in terms[1:]:
            r = r + x
        return r

    def ev(self, env):
        tot = mpmath.mpf(0)
        for m, c in self.t.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            for i, e in m:
                v *= evatom(i, env) ** e
            tot += v
        return tot

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)


def evatom(i, env):
    key = ('#', i)
    v = env.get(key)
    if v is None:
        v = W.atoms[i].ev(env)
        env[key] = v
    return v


P0 = Poly({})
P1 = Poly({(): ONE})


def pconst(c):
    c = Fr(c)
    return Poly({(): c}) if c else P0


def patom(a):
    return Poly({((a.idx, 1),): ONE})


def padd(a, b, k=ONE):
    if not a.t and k == 1:
        return b
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m, ZERO) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return Poly(r)


def pscale(a, k):
    if not k:
        return P0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def redex(m):
    at = W.atoms
    for i, e in m:
        if e >= 2 and at[i].sq is not None:
            return ('s', i)
    if W.pair and len(m) > 1:
        for x in range(len(m)):
            for y in range(x + 1, len(m)):
                if (m[x][0], m[y][0]) in W.pair:
                    return ('p', (m[x][0], m[y][0]))
    return None


def pmul(a, b):
    if len(a.t) > len(b.t):
        a, b = b, a
    if not a.t:
        return P0
    c = a.const()
    if c is not None:
        return pscale(b, c)
    acc = {}
    red = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            d = red if redex(m) else acc
            v = d.get(m, ZERO) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    r = Poly(acc)
    if red:
        r = padd(r, preduce(red))
    return r


def preduce(d):
    """Rewrite monomials with the square and pair rules until none applies."""
    out = {}
    todo = dict(d)
    while todo:
        m, c = todo.popitem()
        if not c:
            continue
        rx = redex(m)
        if rx is None:
            v = out.get(m, ZERO) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        dm = dict(m)
        if rx[0] == 's':
            dm[rx[1]] -= 2
            rule = W.atoms[rx[1]].sq
        else:
            for i in rx[1]:
                dm[i] -= 1
            rule = W.pair[rx[1]]
        rest = tuple(sorted((i, e) for i, e in dm.items() if e))
        for m2, c2 in rule.t.items():
            mm = mmul(rest, m2)
            v = todo.get(mm, ZERO) + c * c2
            if v:
                todo[mm] = v
            else:
                todo.pop(mm, None)
    return Poly(out)


def mono_key(m):
    return (sum(e for _, e in m), m)


def plead(a):
    m = max(a.t, key=lambda m: tuple((-i, e) for i, e in m) if m else ())
    return m, a.t[m]


def mdiv(m, n):
    d = dict(m)
    for i, e in n:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def lexkey(m, order):
    d = dict(m)
    return tuple(d.get(i, 0) for i in order)


def pdivex(a, b, limit=400):
    """Exact division in the plain polynomial ring, or None."""
    if not a.t:
        return P0
    if len(b.t) > len(a.t) or not (b.atoms() <= a.atoms()):
        return None
    order = sorted(a.atoms())
    mb = max(b.t, key=lambda m: lexkey(m, order))
    cb = b.t[mb]
    rem = dict(a.t)
    q = {}
    n = 0
    while rem:
        n += 1
        if n > limit:
            return None
        m = max(rem, key=lambda m: lexkey(m, order))
        mq = mdiv(m, mb)
        if mq is None:
            return None
        c = rem[m] / cb
        q[mq] = q.get(mq, ZERO) + c
        for m2, c2 in b.t.items():
            mm = mmul(mq, m2)
            v = rem.get(mm, ZERO) - c * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return Poly(q)


def psqrt(a):
    """A polynomial R with R*R == a, or None."""
    if not a.t:
        return P0
    if len(a.t) > 60:
        return None
    order = sorted(a.atoms())
    m = max(a.t, key=lambda m: lexkey(m, order))
    if any(e % 2 for _, e in m):
        return None
    rc = frsqrt(a.t[m])
    if rc is None:
        return None
    lm = tuple((i, e // 2) for i, e in m)
    r = Poly({lm: rc})
    for _ in range(12):
        rem = padd(a, pmul(r, r), -ONE)
        if not rem.t:
            return r
        m2 = max(rem.t, key=lambda m: lexkey(m, order))
        q = mdiv(m2, lm)
        if q is None or q in r.t:
            return None
        r = padd(r, Poly({q: rem.t[m2] / (2 * rc)}))
    return None


def frsqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fr(n, d)
    return None


def pcontent(a):
    """Split a into (rational, {atom: exp}, primitive Poly with lead 1)."""
    ms = list(a.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    if common:
        cm = tuple(sorted(common.items()))
        a = Poly({mdiv(m, cm): c for m, c in a.t.items()})
    order = sorted(a.atoms())
    lead = max(a.t, key=lambda m: lexkey(m, order))
    c = a.t[lead]
    if c != 1:
        a = Poly({m: v / c for m, v in a.t.items()})
    return c, common, a


def sneg(s):
    return {None: None, '+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]


def smul(a, b):
    if a is None or b is None:
        return None
    neg = (a[-1] == '-') != (b[-1] == '-')
    z = '0' if '0' in a + b else ''
    return z + ('-' if neg else '+')


def pstat(a):
    """Static sign of a polynomial from declared atom signs."""
    if not a.t:
        return 'z'
    tot = None
    for m, c in a.t.items():
        s = '+' if c > 0 else '-'
        for i, e in m:
            g = W.atoms[i].sgn
            if e % 2 == 0:
                g = '+' if g in ('+', '-') else '0+'
            s = smul(s, g)
            if s is None:
                return None
        if tot is None:
            tot = s
        elif tot[-1] != s[-1]:
            return None
        elif '0' in tot and '0' not in s:
            tot = s
    return tot


# ------------------------------------------------------- symbolic booleans ----
class SB(object):
    """Symbolic boolean."""
    __slots__ = ('op', 'args', '_k', '_a', '_z')
    __array_priority__ = 2000.0
    shape = ()
    ndim = 0
    size = 1
    _pd = 'b'

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._k = self._a = self._z = None

    def key(self):
        if self._k is None:
            if self.op in ('lt', 'le', 'eq'):
                self._k = (self.op, self.args[0].key())
            elif self.op == 'var':
                self._k = ('var', self.args[0])
            elif self.op == 'z':
                self._k = ('z', self.args[3])
            else:
                self._k = (self.op, tuple(a.key() for a in self.args))
        return self._k

    def atoms(self):
        if self._a is None:
            if self.op in ('lt', 'le', 'eq'):
                self._a = set(self.args[0].atoms())
            elif self.op == 'var':
                self._a = set()
            elif self.op == 'z':
                self._a = set(self.args[1])
            else:
                self._a = set().union(*[a.atoms() for a in self.args])
        return self._a

    def z(self):
        if self._z is None:
            o, a = self.op, self.args
            if o == 'lt':
                self._z = a[0].z() < 0
            elif o == 'le':
                self._z = a[0].z() <= 0
            elif o == 'eq':
                self._z = a[0].z() == 0
            elif o == 'var':
                self._z = z3.Bool(a[0])
            elif o == 'z':
                self._z = a[0]()
            elif o == 'not':
                self._z = z3.Not(a[0].z())
            elif o == 'and':
                self._z = z3.And(*[x.z() for x in a])
            else:
                self._z = z3.Or(*[x.z() for x in a])
        return self._z

    def nonlinear(self):
        if self.op in ('lt', 'le', 'eq'):
            return self.args[0].degree() > 1
        if self.op == 'var':
            return False
        if self.op == 'z':
            return True
        return any(a.nonlinear() for a in self.args)

    def ev(self, env, tol=0):
        o, a = self.op, self.args
        if o == 'lt':
            return a[0].ev(env) < tol
        if o == 'le':
            return a[0].ev(env) <= tol
        if o == 'eq':
            return abs(a[0].ev(env)) <= max(tol, 1e-25)
        if o == 'var':
            return bool(env.get(a[0], True))
        if o == 'z':
            return a[2](env)
        if o == 'not':
            return not a[0].ev(env, -tol)
        if o == 'and':
            return all(x.ev(env, tol) for x in a)
        return any(x.ev(env, tol) for x in a)

    def neg(self):
        if self.op == 'not':
            return self.args[0]
        if self.op == 'lt':       # not p<0  <=>  -p<=0
            return SB('le', (pscale(self.args[0], -ONE),))
        if self.op == 'le':
            return SB('lt', (pscale(self.args[0], -ONE),))
        if self.op == 'and':
            return mk_or([neg(a) for a in self.args])
        if self.op == 'or':
            return mk_and([neg(a) for a in self.args])
        return SB('not', (self,))

    def static(self):
        o, a = self.op, self.args
        if o in ('lt', 'le', 'eq'):
            s = pstat(a[0])
            if s is None:
                return None
            if s == 'z':
                return o != 'lt'
            if s == '+':
                return False
            if s == '-':
                return o != 'eq'
            if s == '0+':
                return False if o == 'lt' else None
            if s == '0-':
                return True if o == 'le' else None
        if o == 'not':
            s = a[0].static()
            return None if s is None else not s
        return None

    def __bool__(self):
        return W.decide(self)

    def __invert__(self):
        return neg(self)

    def __and__(self, o):
        return sc2('logical_and', self, o)

    def __or__(self, o):
        return sc2('logical_or', self, o)

    def __xor__(self, o):
        return sc2('logical_xor', self, o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        if isinstance(o, (SB, bool, _np.bool_)):
            return neg(sc2('logical_xor', self, o))
        return num_of(self) == o

    def __ne__(self, o):
        r = self == o
        return neg(r)
    __hash__ = None

    def __add__(self, o):
        if isinstance(o, (SB, bool, _np.bool_)):
            return sc2('logical_or', self, o)
        return num_of(self) + o

    def __radd__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return sc2('logical_or', self, o)
        return num_of(self) + o

    def __mul__(self, o):
        if isinstance(o, (SB, _np.bool_)):
            return sc2('logical_and', self, o)
        return num_of(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return num_of(self) - o

    def __rsub__(self, o):
        return o - num_of(self)

    def __int__(self):
        return int(W.decide(self))

    def __index__(self):
        return int(W.decide(self))

    def __float__(self):
        return float(W.decide(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, types, args, kwargs)

    def all(self, *a, **k):
        return self

    any = all

    @property
    def dtype(self):
        return _np.dtype(bool)

    def astype(self, t, **k):
        return num_of(self) if _np.dtype(t).kind != 'b' else self

    def item(self):
        return self

    def __getitem__(self, k):
        from . import npshim
        return npshim.scalar_getitem(self, k)

    def __repr__(self):
        return 'SB(%s)' % self.op


def num_of(sb):
    return SR(P1, (), 'i') if W.decide(sb) else SR(P0, (), 'i')


def neg(x):
    if isinstance(x, SB):
        return x.neg()
    return _np.bool_(not x)


def mk_and(xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            if x.op == 'and':
                out.extend(x.args)
            else:
                out.append(x)
        elif not x:
            return _np.False_
    if not out:
        return _np.True_
    return out[0] if len(out) == 1 else SB('and', tuple(out))


def mk_or(xs):
    out = []
    for x in xs:
        if isinstance(x, SB):
            if x.op == 'or':
                out.extend(x.args)
            else:
                out.append(x)
        elif x:
            return _np.True_
    if not out:
        return _np.False_
    return out[0] if len(out) == 1 else SB('or', tuple(out))


def bvar(name):
    return SB('var', (name,))


# -------------------------------------------------------- symbolic numbers ----
def factor_id(p):
    k = p.key()
    i = W.fkey.get(k)
    if i is None:
        i = len(W.factors)
        W.factors.append(p)
        W.fkey[k] = i
    return i


def den_add(den, p, e):
    """Multiply a denominator by p**e; returns (rational, den)."""
    c, mono, prim = pcontent(p)
    d = dict(den)
    rat = c ** e
    for i, k in mono.items():
        a = W.atoms[i]
        f = factor_id(patom(a))
        d[f] = d.get(f, 0) + k * e
    if prim.const() is None:
        f = factor_id(prim)
        d[f] = d.get(f, 0) + e
    return rat, tuple(sorted((f, k) for f, k in d.items() if k))


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0]
    return None


def mkfrac(num, den, ty='f'):
    """Normalise num/den and return an SR."""
    if not num.t:
        return SR(P0, (), ty)
    if not den:
        return SR(num, (), ty)
    d = dict(den)
    changed = True
    while changed:
        changed = False
        for f in list(d):
            e = d[f]
            if e <= 0:
                if e < 0:
                    num = pmul(num, ppow(W.factors[f], -e))
                del d[f]
                changed = True
                continue
            p = W.factors[f]
            ai = single_atom(p)
            if ai is not None:
                me = min((dict(m).get(ai, 0) for m in num.t), default=0)
                k = min(me, e)
                if k:
                    cm = ((ai, k),)
                    num = Poly({mdiv(m, cm): c for m, c in num.t.items()})
                    d[f] = e = e - k
                    changed = True
                    if not e:
                        del d[f]
                        continue
                if e >= 2 and W.atoms[ai].sq is not None:
                    d[f] = e - 2
                    if not d[f]:
                        del d[f]
                    rat, nd = den_add(tuple(sorted(d.items())),
                                      W.atoms[ai].sq, 1)
                    num = pscale(num, 1 / rat)
                    d = dict(nd)
                    changed = True
                    break
            else:
                q = pdivex(num, p)
                if q is not None:
                    num = q
                    d[f] = e - 1
                    if not d[f]:
                        del d[f]
                    changed = True
        if not num.t:
            return SR(P0, (), ty)
    return SR(num, tuple(sorted(d.items())), ty)


def ppow(p, n):
    r = P1
    for _ in range(n):
        r = pmul(r, p)
    return r


class SR(object):
    """Symbolic real (or integer) number: a fraction of polynomials."""
    __slots__ = ('num', 'den', 'ty', 'sos', '_a')
    __array_priority__ = 2000.0
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, num, den=(), ty='f', sos=None):
        self.num, self.den, self.ty, self.sos = num, den, ty, sos
        self._a = None

    # -- inspection
    def const(self):
        return self.num.const() if not self.den else None

    def key(self):
        return (self.num.key(), self.den)

    def atoms(self):
        if self._a is None:
            s = set(self.num.atoms())
            for f, _ in self.den:
                s |= W.factors[f].atoms()
            self._a = s
        return self._a

    def denpoly(self):
        r = P1
        for f, e in self.den:
            r = pmul(r, ppow(W.factors[f], e))
        return r

    def ev(self, env):
        v = self.num.ev(env)
        for f, e in self.den:
            v = v / W.factors[f].ev(env) ** e
        return v

    def z(self):
        r = self.num.z()
        for f, e in self.den:
            for _ in range(e):
                r = r / W.factors[f].z()
        return r

    @property
    def dtype(self):
        return _np.dtype('int64' if self.ty == 'i' else 'float64')

    @property
    def _pd(self):
        return self.ty

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    # -- arithmetic
    def __add__(self, o):
        return sc2('add', self, o)

    def __radd__(self, o):
        return sc2('add', o, self)

    def __sub__(self, o):
        return sc2('subtract', self, o)

    def __rsub__(self, o):
        return sc2('subtract', o, self)

    def __mul__(self, o):
        return sc2('multiply', self, o)

    def __rmul__(self, o):
        return sc2('multiply', o, self)

    def __truediv__(self, o):
        return sc2('divide', self, o)

    def __rtruediv__(self, o):
        return sc2('divide', o, self)

    def __floordiv__(self, o):
        return sc2('floor_divide', self, o)

    def __rfloordiv__(self, o):
        return sc2('floor_divide', o, self)

    def __mod__(self, o):
        return sc2('remainder', self, o)

    def __rmod__(self, o):
        return sc2('remainder', o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        return sc2('power', self, o)

    def __rpow__(self, o):
        return sc2('power', o, self)

    def __neg__(self):
        return SR(pscale(self.num, -ONE), self.den, self.ty)

    def __pos__(self):
        return self

    def __abs__(self):
        return f_abs(self)

    # -- comparison
    def __lt__(self, o):
        return sc2('less', self, o)

    def __le__(self, o):
        return sc2('less_equal', self, o)

    def __gt__(self, o):
        return sc2('greater', self, o)

    def __ge__(self, o):
        return sc2('greater_equal', self, o)

    def __eq__(self, o):
        return sc2('equal', self, o)

    def __ne__(self, o):
        return sc2('not_equal', self, o)

    def __hash__(self):
        c = self.const()
        if c is None:
            raise Unsupported('hash of a symbolic number')
        return hash(c)

    # -- conversion
    def __bool__(self):
        return W.decide(sc2('not_equal', self, 0))

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported('float() of a symbolic value')
        return c.numerator / c.denominator

    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported('int() of a symbolic value')
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None:
            return concretise_int(self)
        if self.ty != 'i' or c.denominator != 1:
            raise TypeError("only integers can be used as index")
        return int(c)

    def __round__(self, n=None):
        r = f_round(self, 0 if n is None else int(n))
        return SR(r.num, r.den, 'i') if n is None else r

    def __floor__(self):
        return as_int(f_floor(self))

    def __ceil__(self):
        return as_int(-f_floor(-self))

    def __trunc__(self):
        return as_int(f_trunc(self))

    def __format__(self, spec):
        c = self.const()
        if c is not None:
            v = int(c) if self.ty == 'i' else float(self)
            return format(v, spec)
        return token_for(self, spec)

    def __str__(self):
        return self.__format__('')

    def __repr__(self):
        c = self.const()
        if c is not None:
            return 'SR(%s)' % c
        return 'SR<%d/%d>' % (len(self.num.t), len(self.den))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.array_function(func, types, args, kwargs)

    # -- numpy scalar look-alikes
    def astype(self, t, **k):
        return cast_scalar(self, _np.dtype(t).kind)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return isint(self)

    def max(self, *a, **k):
        return self

    min = sum = mean = squeeze = conjugate = transpose = max

    def all(self, *a, **k):
        return sc2('not_equal', self, 0)

    any = all

    def round(self, n=0, **k):
        return f_round(self, n)

    def tolist(self):
        return self

    def reshape(self, *shape, **k):
        from . import npshim
        return npshim.asarr(self).reshape(*shape)

    def ravel(self, *a, **k):
        return self.reshape((1,))

    flatten = ravel

    def __getitem__(self, k):
        from . import npshim
        return npshim.scalar_getitem(self, k)

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")


TOKENS = {}
DIGITS = {}


def digit_for(x):
    """A character that stands for a symbolic decimal digit."""
    c = chr(0xE000 + len(DIGITS))
    DIGITS[c] = x
    return c


def digits_value(s):
    """Value of a text of decimal digits, some of them symbolic, or None."""
    if not s or not any(c in DIGITS for c in s):
        return None
    v = lift(0)
    for c in s:
        if c in DIGITS:
            d = DIGITS[c]
        elif c in '0123456789':
            d = int(c)
        else:
            return None
        v = v * 10 + d
    return SR(v.num, v.den, 'i')


def number_text(s):
    """Number written in a text with symbolic digits or tokens, or None."""
    s = s.strip()
    sg = 1
    if s[:1] in ('+', '-') and len(s) > 1:
        sg = -1 if s[0] == '-' else 1
        s = s[1:]
    t = TOKENS.get(s)
    if t is not None:
        x = t[1]
        if not isinstance(x, SR):
            return None
        if x.ty == 'i' and 'f' in t[2]:
            x = SR(x.num, x.den, 'f')
    else:
        x = digits_value(s)
        if x is None and s.count('.') == 1:
            a, b = s.split('.')
            va = digits_value(a) if a else lift(0)
            if va is None and a.isdigit():
                va = lift(int(a))
            vb = digits_value(b) if b else lift(0)
            if vb is None and b.isdigit():
                vb = lift(int(b))
            if va is not None and vb is not None and any(
                    c in DIGITS for c in s):
                x = va + vb * lift(Fr(1, 10 ** len(b)))
                x = SR(x.num, x.den, 'f')
    if x is None:
        return None
    return -x if sg < 0 else x


def token_for(x, spec):
    """Render a symbolic number as an opaque, recognisable token."""
    key = (x.key(), x.ty, spec)
    for k, v in TOKENS.items():
        if v[0] == key:
            return k
    t = '\u27e8%d\u27e9' % len(TOKENS)
    TOKENS[t] = (key, x, spec)
    return t


_ratcache = {}


def rational(x):
    """Exact rational (or PI multiple) that a float constant stands for."""
    r = _ratcache.get(x)
    if r is None:
        r = _rational(x)
        _ratcache[x] = r
    return r


def _rational(x):
    s = repr(x)
    f = Fr(s)
    digits = s.replace('-', '').replace('.', '').split('e')[0].strip('0')
    if len(digits) <= 12:
        return (f, 0)
    ulp = math.ulp(x)
    q = Fr(x).limit_denominator(20000)
    if q and abs(float(q) - x) <= 2 * ulp:
        return (q, 0)
    q = Fr(x / math.pi).limit_denominator(2000)
    if q and abs(float(q) * math.pi - x) <= 4 * ulp:
        return (q, 1)
    q = Fr(x * math.pi).limit_denominator(2000)
    if q and abs(float(q) / math.pi - x) <= 4 * ulp:
        return (q, -1)
    return (f, 0)


def lift(x):
    """Convert a scalar to SR, or to a numpy float for NaN and infinity."""
    if isinstance(x, SR):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SR(P1 if x else P0, (), 'i')
    if isinstance(x, SB):
        return num_of(x)
    if isinstance(x, (int, _np.integer)):
        return SR(pconst(int(x)), (), 'i')
    if isinstance(x, Fr):
        return SR(pconst(x), (), 'f')
    if isinstance(x, (float, _np.floating)):
        xf = float(x)
        if xf != xf or xf in (math.inf, -math.inf):
            return _np.float64(xf)
        q, p = rational(xf)
        if p == 0:
            return SR(pconst(q), (), 'f')
        if p == 1:
            return SR(Poly({((W.pi.idx, 1),): q}), (), 'f')
        return mkfrac(pconst(q), ((factor_id(patom(W.pi)), 1),))
    if isinstance(x, _np.ndarray) and x.shape == ():
        return lift(x[()])
    raise Unsupported('cannot treat %s as a number' % type(x).__name__)


def isspecial(x):
    return isinstance(x, (float, _np.floating))


def _ty(a, b):
    return 'i' if a.ty == 'i' and b.ty == 'i' else 'f'


def add(a, b, k=ONE):
    if a.den == b.den:
        r = mkfrac(padd(a.num, b.num, k), a.den, _ty(a, b))
    else:
        da, db = dict(a.den), dict(b.den)
        lcm = {f: max(da.get(f, 0), db.get(f, 0)) for f in set(da) | set(db)}
        na, nb = a.num, b.num
        for f, e in lcm.items():
            ea, eb = e - da.get(f, 0), e - db.get(f, 0)
            if ea:
                na = pmul(na, ppow(W.factors[f], ea))
            if eb:
                nb = pmul(nb, ppow(W.factors[f], eb))
        r = mkfrac(padd(na, nb, k), tuple(sorted(lcm.items())), _ty(a, b))
    if k == 1 and a.sos and b.sos:
        r.sos = a.sos + b.sos
    return r


def mul(a, b):
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    r = mkfrac(pmul(a.num, b.num), tuple(sorted(d.items())), _ty(a, b))
    if a is b or (a.den == b.den and a.num.key() == b.num.key()):
        r.sos = [a]
    return r


def inv(b):
    """Reciprocal of a value known to be non-zero on this path."""
    rat, den = den_add((), b.num, 1)
    num = pconst(1 / rat)
    for f, e in b.den:
        num = pmul(num, ppow(W.factors[f], e))
    return mkfrac(num, den)


def sign_of(x):
    """Fork on the sign of x: -1, 0 or 1."""
    if W.decide(cmp0('lt', x)):
        return -1
    if W.decide(cmp0('eq', x)):
        return 0
    return 1


def div(a, b):
    c = b.const()
    if c is not None and c != 0:
        return SR(pscale(a.num, 1 / c), a.den, 'f')
    if W.decide(cmp0('eq', b)):
        s = sign_of(a)
        return NAN if s == 0 else _np.float64(s * math.inf)
    r = mul(a, inv(b))
    r.ty = 'f'
    return r


def unroot(x):
    """Sign-equivalent of a root plus a constant, free of the root."""
    for i in x.num.atoms():
        for res, rad in W.roots.get(i, ()):
            for s in (1, -1):
                c = add(x, res, -ONE * s).const()
                if c is None:
                    continue
                if c * s >= 0:
                    # s*(res + |c|), never negative for s = 1
                    if c == 0:
                        return rad if s > 0 else -rad
                    return SR(pconst(ONE * s))
                # s*(res - |c|)
                d = add(rad, SR(pconst(-c * c)))
                return d if s > 0 else -d
    return None


def cmp0(op, x):
    """Symbolic truth of x op 0 (op: lt, le, eq)."""
    c = x.const()
    if c is not None:
        return _np.bool_({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op])
    n = x.num
    if not n.t:
        return _np.bool_(op != 'lt')
    if W.roots:
        y = unroot(x)
        if y is not None:
            return cmp0(op, y)
    cc, mono, prim = pcontent(n)
    sgn = 1 if cc > 0 else -1
    rest = prim
    for i, e in mono.items():
        g = W.atoms[i].sgn
        if op == 'eq':
            if g not in ('+', '-'):
                rest = pmul(rest, patom(W.atoms[i]))
        elif g in ('+', '-'):
            if g == '-' and e % 2:
                sgn = -sgn
        else:
            k = e if op == 'lt' and e <= 2 else (2 if e % 2 == 0 else 1)
            rest = pmul(rest, ppow(patom(W.atoms[i]), k))
    if op != 'eq':
        for f, e in x.den:
            if e % 2:
                p = W.factors[f]
                g = pstat(p)
                if g == '+':
                    continue
                if g == '-':
                    sgn = -sgn
                    continue
                kp = SB('lt', (pscale(p, -ONE),))
                if W.known.get(kp.key()) is True:
                    continue
                if not W.possible(SB('lt', (p,))):
                    W.known[kp.key()] = True
                    continue
                if not W.possible(kp):
                    W.known[SB('lt', (p,)).key()] = True
                    sgn = -sgn
                    continue
                rest = pmul(rest, p)
    if sgn < 0:
        rest = pscale(rest, -ONE)
    c = rest.const()
    if c is not None:
        return _np.bool_({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op])
    if op == 'eq':
        _, _, rest = pcontent(rest) if False else (0, 0, rest)
        lead = rest.t[max(rest.t)]
        rest = pscale(rest, 1 / lead)
    else:
        lead = abs(rest.t[max(rest.t)])
        rest = pscale(rest, 1 / lead)
    note_linear(rest)
    sb = SB(op, (rest,))
    st = sb.static()
    if st is not None:
        return _np.bool_(st)
    return sb


def compare(op, a, b):
    if op == 'less':
        return cmp0('lt', add(a, b, -ONE))
    if op == 'less_equal':
        return cmp0('le', add(a, b, -ONE))
    if op == 'greater':
        return cmp0('lt', add(b, a, -ONE))
    if op == 'greater_equal':
        return cmp0('le', add(b, a, -ONE))
    if op == 'equal':
        return cmp0('eq', add(a, b, -ONE))
    return neg(cmp0('eq', add(a, b, -ONE)))


COMPARE = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
           'not_equal'}
_pyop = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
         'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
         'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
         'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
         'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
         'floor_divide': lambda a, b: a // b, 'power': lambda a, b: a ** b,
         'remainder': lambda a, b: a % b}


def numlike(x):
    return isinstance(x, (SR, SB, int, float, bool, Fr, _np.number, _np.bool_))


def special2(op, a, b):
    """Binary operation in which an operand is NaN or infinite."""
    def toinf(x):
        return x if isspecial(x) else None
    fa, fb = toinf(a), toinf(b)
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return _np.bool_(op == 'not_equal') if op in COMPARE else NAN
    if op in COMPARE:
        va = 0.0 if fa is None else float(fa)
        vb = 0.0 if fb is None else float(fb)
        return _np.bool_(_pyop[op](va, vb))
    if op in ('add', 'subtract'):
        va = 0.0 if fa is None else fa
        vb = 0.0 if fb is None else fb
        return _np.float64(_pyop[op](_np.float64(va), _np.float64(vb)))
    if op in ('multiply', 'divide'):
        va = float(sign_of(a)) if fa is None else fa
        vb = float(sign_of(b)) if fb is None else fb
        with _np.errstate(all='ignore'):
            r = _np.float64(_pyop[op](_np.float64(va), _np.float64(vb)))
        if op == 'divide' and fb is not None and fa is None:
            return lift(0.0)
        return r
    if op in ('maximum', 'minimum'):
        pos = fa if fa is not None else fb
        other = b if fa is not None else a
        up = pos > 0
        return pos if up == (op == 'maximum') else other
    raise Unsupported('%s with infinity' % op)


def sc2(op, a, b):
    """Scalar binary operation by ufunc name."""
    if isinstance(b, _np.ndarray) or isinstance(a, _np.ndarray):
        from . import npshim
        return npshim.array_ufunc(getattr(_np, op), '__call__', (a, b), {})
    if op in ('logical_and', 'bitwise_and'):
        return mk_and([truth(a), truth(b)])
    if op in ('logical_or', 'bitwise_or'):
        return mk_or([truth(a), truth(b)])
    if op in ('logical_xor', 'bitwise_xor'):
        a, b = truth(a), truth(b)
        return mk_or([mk_and([a, neg(b)]), mk_and([neg(a), b])])
    if hasattr(a, '_sc2') or hasattr(b, '_sc2'):
        f = a._sc2 if hasattr(a, '_sc2') else b._sc2
        return f(op, a, b)
    if not numlike(a) or not numlike(b):
        if op == 'equal':
            return a == b if not isinstance(a, (SR, SB)) and not isinstance(
                b, (SR, SB)) else _np.False_
        if op == 'not_equal':
            return a != b if not isinstance(a, (SR, SB)) and not isinstance(
                b, (SR, SB)) else _np.True_
        if op in _pyop and not isinstance(a, (SR, SB)) and not isinstance(
                b, (SR, SB)):
            return _pyop[op](a, b)
        return NotImplemented
    if op in COMPARE and isinstance(a, SB) and isinstance(b, SB):
        if op == 'equal':
            return neg(sc2('logical_xor', a, b))
        if op == 'not_equal':
            return sc2('logical_xor', a, b)
    if op == 'add' and isinstance(a, (SB, _np.bool_)) and isinstance(
            b, (SB, _np.bool_)):
        return mk_or([a, b])
    if op == 'multiply' and isinstance(a, (SB, _np.bool_)) and isinstance(
            b, (SB, _np.bool_)):
        return mk_and([a, b])
    a, b = lift(a), lift(b)
    if isspecial(a) or isspecial(b):
        return special2(op, a, b)
    if op == 'add':
        return add(a, b)
    if op == 'subtract':
        return add(a, b, -ONE)
    if op == 'multiply':
        return mul(a, b)
    if op in ('divide', 'true_divide'):
        return div(a, b)
    if op in COMPARE:
        return compare(op, a, b)
    if op in ('power', 'float_power'):
        return f_pow(a, b)
    if op in ('remainder', 'mod'):
        return f_mod(a, b)
    if op == 'fmod':
        q = f_trunc(div(a, b))
        return add(a, mul(b, q), -ONE)
    if op == 'floor_divide':
        r = f_floor(div(a, b))
        return SR(r.num, r.den, _ty(a, b))
    if op in ('maximum', 'fmax'):
        return a if W.decide(compare('greater_equal', a, b)) else b
    if op in ('minimum', 'fmin'):
        return a if W.decide(compare('less_equal', a, b)) else b
    if op == 'arctan2':
        return f_atan2(a, b)
    if op == 'hypot':
        return f_sqrt(add(mul(a, a), mul(b, b)))
    if op == 'copysign':
        m = f_abs(a)
        return -m if W.decide(cmp0('lt', b)) else m
    if op == 'heaviside':
        s = sign_of(a)
        return b if s == 0 else lift(float(s > 0))
    raise Unsupported('ufunc %s' % op)


def truth(x):
    if isinstance(x, (SB, bool, _np.bool_)):
        return x
    if isinstance(x, SR):
        return sc2('not_equal', x, 0)
    return _np.bool_(bool(x))


def f_abs(x):
    if x.const() is not None:
        return SR(pconst(abs(x.const())), (), x.ty)
    if W.decide(cmp0('lt', x)):
        return -x
    return x


def isint(x):
    """Symbolic truth of 'x is a whole number'."""
    c = x.const()
    if c is not None:
        return _np.bool_(c.denominator == 1)
    if x.ty == 'i':
        return _np.True_
    if not x.den and all(
            (c.denominator == 1 and all(W.atoms[i].kind == 'int'
                                        for i, _ in m))
            for m, c in x.num.t.items()):
        return _np.True_
    fl = f_floor(x)
    return compare('equal', x, fl)


def f_floor(x):
    c = x.const()
    if c is not None:
        return SR(pconst(math.floor(c)), (), 'f')
    if x.ty == 'i':
        return x
    # split off the integer-valued part
    if not x.den:
        ip, fp = {}, {}
        for m, c in x.num.t.items():
            if c.denominator == 1 and m and all(
                    W.atoms[i].kind == 'int' for i, _ in m):
                ip[m] = c
            else:
                fp[m] = c
        if not fp:
            return x
        if ip:
            return add(SR(Poly(ip)), f_floor(SR(Poly(fp))))
    a = W.atom(('floor', x.key()), 'fl', 'int',
               lambda e, x=x: mpmath.floor(x.ev(e) + mpmath.mpf(10) ** -25))
    if not a.defz:
        a.defs = tuple(x.atoms())
        a.defz.append(lambda: z3.And(z3.ToReal(a.z) <= x.z(),
                                     x.z() < z3.ToReal(a.z) + 1))
    return SR(patom(a), (), 'f')


def f_trunc(x):
    if x.const() is None and x.ty != 'i' and W.decide(cmp0('lt', x)):
        return -f_floor(-x)
    c = x.const()
    if c is not None:
        return SR(pconst(int(c)), (), 'f')
    return f_floor(x)


def f_round(x, n=0):
    """Round half to even."""
    s = Fr(10) ** int(n)
    y = mul(x, SR(pconst(s)))
    fl = f_floor(y)
    fr = add(y, fl, -ONE)
    half = SR(pconst(Fr(1, 2)))
    if W.decide(compare('less', fr, half)):
        r = fl
    elif W.decide(compare('greater', fr, half)):
        r = add(fl, SR(P1))
    else:
        h = f_floor(mul(fl, SR(pconst(Fr(1, 2)))))
        even = compare('equal', mul(h, SR(pconst(2))), fl)
        r = fl if W.decide(even) else add(fl, SR(P1))
    r = mul(r, SR(pconst(1 / s)))
    r.ty = x.ty
    return r


def f_mod(a, b):
    q = div(a, b)
    if isspecial(q):
        return NAN
    r = add(a, mul(b, f_floor(q)), -ONE)
    r.ty = _ty(a, b)
    return r


def as_int(x):
    return SR(x.num, x.den, 'i')


def cast_scalar(x, kind):
    """numpy astype for one element."""
    if isinstance(x, SB):
        return x if kind == 'b' else (
            num_of(x) if kind in 'iu' else SR(num_of(x).num))
    if isinstance(x, SR):
        if kind in 'iu':
            return x if x.ty == 'i' else as_int(f_trunc(x))
        if kind == 'f':
            return SR(x.num, x.den, 'f', x.sos)
        if kind == 'b':
            return sc2('not_equal', x, 0)
        if kind in 'US':
            return str(x)
        return x
    if isspecial(x) and kind in 'iu':
        raise ValueError('cannot convert float NaN to integer')
    return x


def truth_sb(x):
    return x if isinstance(x, SB) else bool(x)


def concretise_int(x):
    """Turn a symbolic integer into one concrete value by forking."""
    if x.ty != 'i':
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')
    los = [W.atoms[i] for i in x.atoms()]
    if len(los) == 1 and los[0].lo is not None and los[0].hi is not None:
        a = los[0]
        for v in range(int(a.lo), int(a.hi) + 1):
            if W.decide(sc2('equal', SR(patom(a), (), 'i'), v)):
                c = x.num
                tot = ZERO
                for m, k in c.t.items():
                    e = sum(q for _, q in m)
                    tot += k * Fr(v) ** e
                return int(tot)
    sgn = 1
    if not W.decide(truth_sb(sc2('greater_equal', x, 0))):
        sgn, x = -1, -x
    hi = 1
    while not W.proved(sc2('less', x, hi)):
        hi *= 2
        if hi > 1 << 21:
            raise Unsupported('index by an unbounded symbolic integer')
    lo = 0
    while hi - lo > 1:
        m = (lo + hi) // 2
        if W.decide(truth_sb(sc2('greater_equal', x, m))):
            lo = m
        else:
            hi = m
    return sgn * lo


def f_pow(a, b):
    c = b.const()
    if c is None:
        raise Unsupported('symbolic exponent')
    if c.denominator == 1:
        n = int(c)
        if n == 2:
            return mul(a, a)
        r = SR(P1, (), 'i')
        for _ in range(abs(n)):
            r = mul(r, a)
        if n < 0:
            r = div(SR(P1), r)
        return r
    if c.denominator == 2:
        r = f_sqrt(a)
        if isspecial(r):
            return r
        n = c.numerator
        q = SR(P1)
        for _ in range(abs(n)):
            q = mul(q, r)
        return q if n > 0 else div(SR(P1), q)
    raise Unsupported('fractional power')


def f_square(x):
    return mul(x, x)


def sqfree(n):
    """n = a*a*b with b square-free (small primes only)."""
    a, b, p = 1, n, 2
    while p * p <= b and p < 1000:
        while b % (p * p) == 0:
            b //= p * p
            a *= p
        p += 1 if p == 2 else 2
    r = math.isqrt(b)
    if r * r == b:
        return a * r, 1
    return a, b


def sqrt_rat(c):
    """Square root of a non-negative rational as an SR."""
    n = c.numerator * c.denominator
    a, b = sqfree(n)
    k = Fr(a, c.denominator)
    if b == 1:
        return SR(pconst(k))
    r = sqrt_atom(pconst(b))
    return SR(Poly({((r.idx, 1),): k}))


def sqrt_atom(q):
    at = W.atom(('sqrt', q.key()), 'rt', 'sqrt',
                lambda e, q=q: mpmath.sqrt(max(q.ev(e), mpmath.mpf(0))))
    if at.sq is None:
        at.sq = q
        at.defs = tuple(q.atoms())
        at.sgn = '+' if (q.const() or 0) > 0 else '0+'
        at.defz.append(lambda: z3.And(at.z >= 0, at.z * at.z == q.z()))
        if q.const() is not None:
            f = math.sqrt(float(q.const()))
            at.lo, at.hi = Fr(f - 1e-9 * f), Fr(f + 1e-9 * f)
    return at


def f_sqrt(x):
    if isspecial(x):
        with _np.errstate(all='ignore'):
            return _np.sqrt(x)
    c = x.const()
    if c is not None:
        return NAN if c < 0 else sqrt_rat(c)
    if x.sos is None or len(x.sos) < 1:
        if W.decide(cmp0('lt', x)):
            return NAN
    num, out = x.num, SR(P1)
    if not num.t:
        return SR(P0)
    cc, mono, prim = pcontent(num)
    inner = pconst(cc)
    for i, e in mono.items():
        a = SR(patom(W.atoms[i]))
        for _ in range(e // 2):
            out = mul(out, f_abs(a))
        if e % 2:
            inner = pmul(inner, a.num)
    if prim.const() is None:
        r = psqrt(prim)
        if r is not None:
            out = mul(out, f_abs(SR(r)))
        else:
            inner = pmul(inner, prim)
    for f, e in x.den:
        p = SR(W.factors[f])
        pa = f_abs(p)
        for _ in range((e + 1) // 2):
            out = mul(out, inv(pa))
        if e % 2:
            inner = pmul(inner, p.num)
    ci = inner.const()
    if ci is not None:
        if ci < 0:
            return SR(P0)   # only zero is possible here
        res = mul(out, sqrt_rat(ci))
    else:
        # make the radicand primitive up to square factors
        g = abs(inner.t[max(inner.t)])
        a, b = sqfree(g.numerator * g.denominator)
        k = Fr(a, g.denominator)      # g = k*k*b
        inner = pscale(inner, 1 / (k * k))
        r2 = psqrt(inner)
        if r2 is not None:
            res = mul(out, mul(SR(pconst(k)), f_abs(SR(r2))))
        else:
            at = sqrt_atom(inner)
            res = mul(out, SR(Poly({((at.idx, 1),): k})))
            W.roots.setdefault(at.idx, []).append((res, x))
    if x.sos and len(x.sos) > 1:
        for t in x.sos:
            for s in (t, -t):
                lem = cmp_nosign(s, res)
                if lem is not None:
                    W.lemma(lem.atoms(), lem.z, ('sos', lem.key()))
    return res


def cmp_nosign(a, b):
    """a <= b as an SB if denominators are statically positive."""
    d = add(a, b, -ONE)
    if d.const() is not None:
        return None
    for f, e in d.den:
        if e % 2 and pstat(W.factors[f]) != '+':
            return None
    return SB('le', (d.num,))


# -------------------------------------------------------------- angles ----
def pi_sr():
    return SR(patom(W.pi))


def term(mono, coef):
    return SR(Poly({mono: coef}))


def halfturns(x):
    """x / PI."""
    return mul(x, inv(pi_sr()))


def const_cs(q):
    """cos, sin of q half-turns for rational q."""
    q = q % 2
    t = q * 12
    if t.denominator == 1:
        t = int(t)
        s2, s3 = sqrt_rat(Fr(2)), sqrt_rat(Fr(3))
        s6 = mul(s2, s3)
        quarter = Fr(1, 4)
        first = {0: (SR(P1), SR(P0)),
                 1: (mul(add(s6, s2), SR(pconst(quarter))),
                     mul(add(s6, s2, -ONE), SR(pconst(quarter)))),
                 2: (mul(s3, SR(pconst(Fr(1, 2)))), SR(pconst(Fr(1, 2)))),
                 3: (mul(s2, SR(pconst(Fr(1, 2)))),) * 2,
                 4: (SR(pconst(Fr(1, 2))), mul(s3, SR(pconst(Fr(1, 2))))),
                 5: (mul(add(s6, s2, -ONE), SR(pconst(quarter))),
                     mul(add(s6, s2), SR(pconst(quarter))))}
        k, r = divmod(t, 6)
        c, s = first[r]
        for _ in range(k):
            c, s = -s, c
        return c, s
    c, s = new_pair(('ctrig', q), lambda e: mpmath.mpf(q.numerator)
                    / q.denominator, ())
    for a, v in ((c, math.cos(math.pi * float(q))),
                 (s, math.sin(math.pi * float(q)))):
        at = W.atoms[single_atom(a.num)]
        at.lo, at.hi = Fr(v - 1e-12), Fr(v + 1e-12)
    return c, s


def new_pair(key, hev, defs, name='a'):
    """Atoms for (cos, sin) of hev half-turns."""
    c = W.atom(key + ('c',), 'cos_' + name, 'c',
               lambda e: mpmath.cospi(hev(e)))
    s = W.atom(key + ('s',), 'sin_' + name, 's',
               lambda e: mpmath.sinpi(hev(e)))
    if s.sq is None:
        s.sq = padd(P1, Poly({((c.idx, 2),): ONE}), -ONE)
        c.defs = tuple(defs) + (s.idx,)
        s.defs = tuple(defs) + (c.idx,)
        s.defz.append(lambda: s.z * s.z + c.z * c.z == 1)
        for a in (c, s):
            a.lo, a.hi = Fr(-1), Fr(1)
    return SR(patom(c)), SR(patom(s))


def window_lemma(L, C, S, lo=-3, hi=3):
    """Link the range of L half-turns to the signs of its cos and sin."""
    ats = L.atoms() | C.atoms() | S.atoms()
    key = ('win', L.key())
    if key in W.lemkeys:
        return

    def th():
        zl, zc, zs = L.z(), C.z(), S.z()
        out = []
        for k in range(lo, hi + 1):
            e = 1 if k % 2 == 0 else -1
            out.append(z3.Implies(zl == k, z3.And(zs == 0, zc == e)))
            out.append(z3.Implies(zl == qz(Fr(2 * k + 1, 2)),
                                  z3.And(zc == 0, zs == e)))
            if k < hi:
                out.append(z3.Implies(z3.And(zl > k, zl < k + 1),
                                      (zs > 0) if e > 0 else (zs < 0)))
                out.append(z3.Implies(
                    z3.And(zl > qz(Fr(2 * k - 1, 2)),
                           zl < qz(Fr(2 * k + 1, 2))),
                    (zc > 0) if e > 0 else (zc < 0)))
        return z3.And(*out)
    W.lemma(ats, th, key, L.atoms())


def unit_for(mono, coef):
    us = W.units.setdefault(mono, [])
    for u in us:
        r = coef / u[0]
        if (2 * r).denominator == 1:
            return u, r
    k = abs(coef)
    x = term(mono, k)
    c, s = new_pair(('u', mono, k), lambda e: x.num.ev(e),
                    [i for i, _ in mono])
    u = [k, c, s]
    us.append(u)
    if len(mono) == 1 and mono[0][1] == 1:
        L = term(mono, k)
        window_lemma(L, c, s)
        f = W.atoms[mono[0][0]]
        if k == 1:
            f.defs = tuple(set(f.defs) | c.atoms() | s.atoms())
    return u, coef / k


def half_pair(u, mono):
    """(cos, sin) of half the unit angle."""
    key = ('half', mono, u[0])
    if key in W.halves:
        return W.halves[key]
    c, s = u[1], u[2]
    if c.den or s.den:
        # name the pair so that the rewrite rules stay polynomial
        x = term(mono, u[0])
        c0, s0 = new_pair(('hu', mono, u[0]), lambda e: x.num.ev(e),
                          c.atoms() | s.atoms())
        for a, b in ((c0, c), (s0, s)):
            d = add(a, b, -ONE)
            at = W.atoms[single_atom(a.num)]
            at.defz.append(lambda d=d: d.num.z() == 0)
        c, s = c0, s0
        u[1], u[2] = c0, s0
    x = term(mono, u[0] / 2)
    ch = W.atom(key + ('c',), 'ch', 'c', lambda e: mpmath.cospi(x.num.ev(e)))
    sh = W.atom(key + ('s',), 'sh', 's', lambda e: mpmath.sinpi(x.num.ev(e)))
    hf = Fr(1, 2)
    ch.sq = pscale(padd(P1, c.num), hf)
    sh.sq = pscale(padd(P1, c.num, -ONE), hf)
    W.pair[tuple(sorted((ch.idx, sh.idx)))] = pscale(s.num, hf)
    dep = tuple(c.atoms() | s.atoms())
    ch.defs = dep + (sh.idx,)
    sh.defs = dep + (ch.idx,)
    ch.defz.append(lambda: z3.And(ch.z * ch.z == ch.sq.z(),
                                  ch.z * sh.z * 2 == s.num.z()))
    sh.defz.append(lambda: sh.z * sh.z == sh.sq.z())
    for a in (ch, sh):
        a.lo, a.hi = Fr(-1), Fr(1)
    pr = (SR(patom(ch)), SR(patom(sh)))
    W.halves[key] = pr
    window_lemma(x, pr[0], pr[1])
    return pr


def rot(a, b):
    """Complex product of (cos, sin) pairs."""
    c1, s1 = a
    c2, s2 = b
    return (add(mul(c1, c2), mul(s1, s2), -ONE), add(mul(s1, c2), mul(c1, s2)))


def cos_sin(x):
    """cos and sin of x radians."""
    L = halfturns(x)
    return cos_sin_ht(L)


def cos_sin_ht(L):
    for f, e in L.den:
        if single_atom(W.factors[f]) != W.pi.idx:
            # angle is a quotient: give it its own pair
            c, s = new_pair(('q', L.key()), lambda e: L.ev(e), L.atoms())
            return c, s
    if L.den:
        key = L.den
        out = (SR(P1), SR(P0))
        for m, k in sorted(L.num.t.items()):
            t = SR(Poly({m: k}), L.den)
            t = mkfrac(t.num, t.den)
            if not t.den:
                p = cos_sin_ht(t)
            else:
                c, s = new_pair(('q', t.key()), lambda e, t=t: t.ev(e),
                                t.atoms())
                cst = not (t.atoms() - {W.pi.idx})
                if cst:
                    v = t.ev({})
                    for a, b in ((c, mpmath.cospi(v)), (s, mpmath.sinpi(v))):
                        at = W.atoms[single_atom(a.num)]
                        at.lo = Fr(float(b) - 1e-12)
                        at.hi = Fr(float(b) + 1e-12)
                p = (c, s)
            out = rot(out, p)
        return out
    out = (SR(P1), SR(P0))
    n = 0
    for m, k in sorted(L.num.t.items()):
        n += 1
        if m == ():
            p = const_cs(k)
        elif all(W.atoms[i].kind == 'int' for i, _ in m):
            if (k / 2).denominator == 1:
                continue
            if k.denominator == 1:
                a = W.atom(('par', m), 'par', 'c', lambda e, m=m: mpmath.mpf(
                    (-1) ** int(Poly({m: ONE}).ev(e))))
                a.sq = P1
                if not a.defz:
                    a.defs = tuple(i for i, _ in m)
                    a.defz.append(lambda a=a: z3.Or(a.z == 1, a.z == -1))
                p = (SR(patom(a)), SR(P0))
            else:
                raise Unsupported('fractional multiple of an integer angle')
        else:
            u, r = unit_for(m, k)
            neg_ = r < 0
            r = abs(r)
            if r.denominator == 1:
                base, cnt = (u[1], u[2]), int(r)
            else:
                base, cnt = half_pair(u, m), int(2 * r)
            p = (SR(P1), SR(P0))
            for _ in range(cnt):
                p = rot(p, base)
            if neg_:
                p = (p[0], -p[1])
        out = rot(out, p)
    return out


def f_cos(x):
    if isspecial(x):
        return NAN
    return cos_sin(x)[0]


def f_sin(x):
    if isspecial(x):
        return NAN
    return cos_sin(x)[1]


def f_tan(x):
    if isspecial(x):
        return NAN
    c, s = cos_sin(x)
    return div(s, c)


def fatom(key, name, ev, lo, hi):
    a = W.atom(key, name, 'f', ev)
    a.lo, a.hi = lo, hi
    return a


def f_atan2(y, x):
    if isspecial(y) or isspecial(x):
        if (isspecial(y) and y != y) or (isspecial(x) and x != x):
            return NAN
        raise Unsupported('arctan2 of infinity')
    if not y.num.t:
        if W.decide(cmp0('lt', x)):
            return pi_sr()
        return SR(P0)
    if not x.num.t:
        if W.decide(cmp0('eq', y)):
            return SR(P0)
        hf = SR(Poly({((W.pi.idx, 1),): Fr(1, 2)}))
        return -hf if W.decide(cmp0('lt', y)) else hf
    h2 = add(mul(x, x), mul(y, y))
    h2.sos = [x, y]
    h = f_sqrt(h2)
    if W.decide(cmp0('eq', h)):
        W.fact(cmp0('eq', x))
        W.fact(cmp0('eq', y))
        return SR(P0)
    # scale-free key: divide both by h
    c, s = div(x, h), div(y, h)
    return angle_from_cs(c, s, full=True)


def angle_from_cs(c, s, full):
    """Angle in radians whose cos and sin are the given expressions."""
    key = ('ang', c.key(), s.key())
    lo = Fr(-1) if full else Fr(0)

    def ev(e):
        return mpmath.atan2(s.ev(e), c.ev(e)) / mpmath.pi
    f = fatom(key, 'f', ev, lo, Fr(1))
    mono = ((f.idx, 1),)
    if mono not in W.units:
        f.defs = tuple(c.atoms() | s.atoms())
        W.units[mono] = [[ONE, c, s]]
        window_lemma(term(mono, ONE), c, s, -1, 1)
        zc, zs = c, s

        def th():
            a, b, z = zc.z(), zs.z(), f.z
            half = qz(Fr(1, 2))
            return z3.And(
                z > -1, z3.Implies(b > 0, z3.And(z > 0, z < 1)),
                z3.Implies(b < 0, z < 0),
                z3.Implies(z3.And(b == 0, a > 0), z == 0),
                z3.Implies(z3.And(b == 0, a < 0), z == 1),
                z3.Implies(a > 0, z3.And(z < half, z > -half)),
                z3.Implies(a < 0, z3.Or(z > half, z < -half)),
                z3.Implies(z3.And(a == 0, b > 0), z == half),
                z3.Implies(z3.And(a == 0, b < 0), z == -half))
        f.defz.append(th)
    return SR(Poly({tuple(sorted(((f.idx, 1), (W.pi.idx, 1)))): ONE}))


def f_arccos(x):
    if isspecial(x):
        return NAN
    if W.decide(compare('greater', x, SR(P1))) or W.decide(
            compare('less', x, SR(pconst(-1)))):
        return NAN
    c = x.const()
    if c is not None and c in (1, 0, -1):
        return SR(Poly({((W.pi.idx, 1),): {1: ZERO, 0: Fr(1, 2),
                                          -1: ONE}[c]})) if c != 1 \
            else SR(P0)
    q = add(SR(P1), mul(x, x), -ONE)
    q.sos = [x]     # already known to be non-negative
    s = f_sqrt(q)
    return angle_from_cs(x, s, full=False)


def f_arcsin(x):
    r = f_arccos(x)
    if isspecial(r):
        return r
    return add(SR(Poly({((W.pi.idx, 1),): Fr(1, 2)})), r, -ONE)


def f_arctan(x):
    if isspecial(x):
        if x != x:
            return NAN
        return SR(Poly({((W.pi.idx, 1),): Fr(1 if x > 0 else -1, 2)}))
    return f_atan2(x, SR(P1))


def note_linear(p):
    """Add sign lemmas for an angle combination that is being compared."""
    fs = []
    pii = W.pi.idx
    for m, c in p.t.items():
        mm = tuple((i, e) for i, e in m if i != pii)
        pe = dict(m).get(pii, 0)
        if mm == ():
            if pe not in (0, 1):
                return
            continue
        if len(mm) != 1 or mm[0][1] != 1:
            return
        if mm not in W.units:
            return
        fs.append((mm, c, pe))
    if not fs:
        return
    if len({pe for _, _, pe in fs}) != 1:
        return
    pe = fs[0][2]
    k = min(abs(c) for _, c, _ in fs)
    q = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(pii, 0)
        if e != pe:
            return
        q[tuple(sorted(d.items()))] = c / k
    L = SR(Poly(q))
    if ('win', L.key()) in W.lemkeys:
        return
    # only unit multiples (or halves) of known angles
    for m, c in q.items():
        if m == ():
            if (c * 12).denominator != 1:
                return
            continue
        if not any((2 * c / u[0]).denominator == 1 for u in W.units[m]):
            return
    if len(fs) == 1 and abs(fs[0][1] / k) == 1 and len(q) == 1:
        return
    c, s = cos_sin_ht(L)
    window_lemma(L, c, s)


def f_hyp(x, y):
    return sc2('hypot', x, y)


UN = {'sqrt': f_sqrt, 'cos': f_cos, 'sin': f_sin, 'tan': f_tan,
      'arccos': f_arccos, 'arcsin': f_arcsin, 'arctan': f_arctan,
      'floor': f_floor, 'trunc': f_trunc, 'rint': f_round,
      'square': f_square}


def sc1(op, x):
    """Scalar unary operation by ufunc name."""
    if hasattr(x, '_sc1'):
        return x._sc1(op)
    if op == 'logical_not':
        return neg(truth(x))
    if op == 'invert':
        if isinstance(x, (SB, bool, _np.bool_)):
            return neg(x)
        return -lift(x) - 1
    if not numlike(x):
        if op in ('isnan', 'isfinite', 'isinf'):
            raise TypeError("ufunc '%s' not supported for the input types" % op)
        raise Unsupported('%s of %s' % (op, type(x).__name__))
    x = lift(x)
    sp = isspecial(x)
    if op == 'isnan':
        return _np.bool_(sp and x != x)
    if op == 'isfinite':
        return _np.bool_(not sp)
    if op == 'isinf':
        return _np.bool_(sp and x == x)
    if op in ('absolute', 'fabs'):
        return abs(x) if sp else f_abs(x)
    if op == 'negative':
        return -x
    if op == 'positive' or op == 'conjugate':
        return x
    if op == 'sign':
        if sp:
            return _np.sign(x)
        s = sign_of(x)
        return SR(pconst(s), (), x.ty)
    if op == 'signbit':
        return _np.bool_(x < 0) if sp else cmp0('lt', x)
    if op in ('deg2rad', 'radians'):
        return NAN if sp else mul(x, SR(Poly({((W.pi.idx, 1),): Fr(1, 180)})))
    if op in ('rad2deg', 'degrees'):
        return NAN if sp else mul(mul(x, SR(pconst(180))), inv(pi_sr()))
    if op == 'ceil':
        return x if sp else -f_floor(-x)
    if op == 'reciprocal':
        return div(SR(P1), x)
    if op in UN:
        if sp and op in ('floor', 'trunc', 'rint'):
            return x
        if sp and op == 'square':
            return x * x
        return UN[op](x)
    raise Unsupported('ufunc %s' % op)


# ------------------------------------------------------------ input atoms ----
def in_real(name, lo=None, hi=None, pos=False, nonneg=False, ty='f'):
    a = W.atom(('in', name), name, 'int' if ty == 'i' else 'in',
               lambda e: mpmath.mpf(e[name]))
    if lo is not None:
        a.lo = Fr(lo)
    if hi is not None:
        a.hi = Fr(hi)
    if pos or (lo is not None and lo > 0):
        a.sgn = '+'
    elif nonneg or (lo is not None and lo >= 0):
        a.sgn = '0+'
    elif hi is not None and hi < 0:
        a.sgn = '-'
    elif hi is not None and hi <= 0:
        a.sgn = '0-'
    return SR(patom(a), (), ty)


def in_angle(name, lo=-1, hi=1, open_lo=False, open_hi=False):
    """A free angle, in half-turns, with its own cos/sin atoms."""
    x = in_real(name, lo, hi)
    a = W.atoms[single_atom(x.num)]
    a.kind = 'f'
    u, _ = unit_for(((a.idx, 1),), ONE)
    return x
