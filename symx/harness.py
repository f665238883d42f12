"""Run one harness body symbolically (all paths) and concretely (replay).

A harness is a function body(h, **cfg).  In symbolic mode `h` hands out
symbolic inputs and turns checks into solver queries; in concrete mode it hands
out floats and evaluates the checks on the real, unpatched code.
"""
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction as Fr

import mpmath
import numpy as np
import z3

from . import core, npshim, patch
from .core import SB, SR, Budget, PathAbort, Unsupported, lift, mk_and, mk_or

REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(BaseException):
    """The concrete inputs do not satisfy an assumption."""


class Fail(object):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


def flat(x):
    """Elements of a scalar, list or array."""
    if isinstance(x, npshim.SArr):
        return list(x.raw.reshape(-1))
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out.extend(flat(e))
        return out
    return [x]


class Base(object):
    sym = None

    def __init__(self, cfg):
        self.cfg = cfg
        self.obs = []
        self.stubvals = {}
        self.counters = {}

    def name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s_%d' % (base, n)

    def observe(self, name, val):
        """Record output for comparison between encoding and real code."""
        for i, e in enumerate(flat(val)):
            self.obs.append(('%s[%d]' % (name, i), e))

    def shape_is(self, x, shape, label):
        self.check(tuple(np.shape(x) if not isinstance(x, npshim.SArr)
                         else x.shape) == tuple(shape), label + ' shape')

    def eqs(self, xs, ys, label):
        xs, ys = flat(xs), flat(ys)
        self.check(len(xs) == len(ys), label + ' length')
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(x, y, '%s[%d]' % (label, i))

    def all_nan(self, x, label):
        for i, e in enumerate(flat(x)):
            self.check(self.is_nan(e), '%s[%d] is NaN' % (label, i))

    def lemma(self, cond, label):
        """Discharge a fact and use it from here on."""
        self.check(cond, 'lemma: ' + label)
        self.assume(cond)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label + ' raises')

    def np_(self):
        return npshim.NP if self.sym else np

    def digits(self, x, n, digs):
        """Text of n digits; `digs` are the digit values of x."""
        if self.sym:
            return ''.join(core.digit_for(core.lift(d)) for d in digs)
        return '%0*d' % (n, x)

    def text(self, x, spec='d'):
        """Text of a number as format() would print it."""
        return format(x, spec) if not self.sym or not isinstance(
            x, (int, float)) else format(x, spec)

    def cosd(self, x):
        return self.cos(x * self.pi / 180)

    def sind(self, x):
        return self.sin(x * self.pi / 180)


# ------------------------------------------------------------- symbolic ----
class SymH(Base):
    sym = True

    def __init__(self, cfg, engine):
        Base.__init__(self, cfg)
        self.e = engine
        self.inputs = engine.inputs
        self.pi = core.pi_sr()
        self.nchecks = 0

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, ex=False):
        x = core.in_real(name, lo, hi, pos, nonneg)
        self.inputs[name] = ('real', lo, hi, pos, nonneg)
        if ex:
            if lo is not None:
                core.W.assume(x > lo)
            if hi is not None:
                core.W.assume(x < hi)
        return x

    def integer(self, name, lo, hi):
        x = core.in_real(name, lo, hi, ty='i')
        self.inputs[name] = ('int', lo, hi, False, False)
        return x

    def angle(self, name, lo=-1, hi=1, ex_lo=False, ex_hi=False):
        """A free angle in half-turns."""
        x = core.in_angle(name, lo, hi)
        self.inputs[name] = ('angle', lo, hi, False, False)
        if ex_lo:
            core.W.assume(x > lo)
        if ex_hi:
            core.W.assume(x < hi)
        return x

    def flag(self, name):
        """A free boolean (forks)."""
        self.inputs[name] = ('bool', 0, 1, False, False)
        return core.W.decide(core.bvar(name))

    def stub(self, base, *a, **k):
        """A fresh unconstrained stub result."""
        return self.real(self.name(base), *a, **k)

    def frac(self, p, q=1):
        return SR(core.pconst(Fr(p, q)))

    def arr(self, x, ty='f'):
        if isinstance(x, (list, tuple)):
            return npshim.asarr(list(x), ty).copy()
        return npshim.asarr(x, ty).copy()

    def const(self, x):
        return lift(float(x))

    def decide(self, c):
        return bool(core.truth(c))

    def nan(self):
        return core.NAN

    # functions for the oracle
    def cos(self, x):
        return core.f_cos(lift(x))

    def sin(self, x):
        return core.f_sin(lift(x))

    def cs(self, ht):
        """cos and sin of an angle given in half-turns."""
        return core.cos_sin_ht(lift(ht))

    def sqrt(self, x):
        return core.f_sqrt(lift(x))

    def is_nan(self, x):
        x = elem(x)
        if isinstance(x, (SR, SB)):
            return False
        return bool(np.isnan(x))

    def floor(self, x):
        return core.f_floor(lift(x))

    # assertions
    def assume(self, c):
        core.W.assume(c)

    def check(self, cond, label):
        self.nchecks += 1
        self.e.obligation(cond, label)

    def eq(self, a, b, label):
        a, b = elem(a), elem(b)
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            self.check(na and nb, label)
            return
        self.check(core.sc2('equal', a, b), label)

    def le(self, a, b, label):
        self.check(core.sc2('less_equal', elem(a), elem(b)), label)

    def lt(self, a, b, label):
        self.check(core.sc2('less', elem(a), elem(b)), label)

    def eq_mod(self, a, b, period, label):
        """a == b modulo period; angles are compared by cos and sin."""
        a, b = elem(a), elem(b)
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            self.check(na and nb, label)
            return
        d = core.sc2('subtract', a, b)
        if isinstance(d, SR) and d.const() is not None:
            q = d.const() / Fr(period)
            self.check(q.denominator == 1, label)
            return
        ht = core.sc2('multiply', d, Fr(2) / Fr(period))
        c, s = core.cos_sin_ht(ht)
        # same direction: cos == 1 (then sin == 0); compare linearly if the
        # difference of two angles is cleaner
        ca, sa = core.cos_sin_ht(core.sc2('multiply', lift(a),
                                          Fr(2) / Fr(period)))
        cb, sb = core.cos_sin_ht(core.sc2('multiply', lift(b),
                                          Fr(2) / Fr(period)))
        self.check(core.sc2('equal', ca, cb), label + ' (cos)')
        self.check(core.sc2('equal', sa, sb), label + ' (sin)')

    def mult_of(self, d, period, label):
        """d is a whole multiple of period (integer reasoning)."""
        q = core.sc2('divide', lift(d), Fr(period))
        self.check(core.isint(q), label)

    def eq_vec(self, pairs, label):
        for i, (a, b) in enumerate(pairs):
            self.eq(a, b, '%s.%d' % (label, i))

    def same(self, a, b, label):
        """Identical value (used for untouched state)."""
        self.eq(a, b, label)


def elem(x):
    if isinstance(x, npshim.SArr):
        return x.raw.reshape(-1)[0] if x.size == 1 else x
    if isinstance(x, np.ndarray) and x.size == 1:
        return x.reshape(-1)[0]
    return x


# ------------------------------------------------------------- concrete ----
TOL = 2e-6


class ConH(Base):
    sym = False

    def __init__(self, cfg, env, defaults=None):
        Base.__init__(self, cfg)
        self.env = env
        self.fails = []
        self.pi = math.pi
        self.defaults = defaults or {}
        self.used = {}

    def val(self, name, lo, hi, dflt=None):
        v = self.env.get(name)
        if v is None:
            if lo is not None and hi is not None:
                v = (lo + hi) / 2.0
            else:
                v = 1.0 if lo is None else lo + 1.0
        v = float(v)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, ex=False):
        v = self.val(name, lo, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (
                pos and v <= 0) or (nonneg and v < 0):
            raise Skip(name)
        if ex and ((lo is not None and v <= lo)
                   or (hi is not None and v >= hi)):
            raise Skip(name)
        return v

    def integer(self, name, lo, hi):
        v = int(round(self.val(name, lo, hi)))
        self.used[name] = v
        if v < lo or v > hi:
            raise Skip(name)
        return v

    def angle(self, name, lo=-1, hi=1, ex_lo=False, ex_hi=False):
        v = self.val(name, lo, hi)
        if v < lo or v > hi or (ex_lo and v <= lo) or (ex_hi and v >= hi):
            raise Skip(name)
        return v

    def flag(self, name):
        v = bool(self.env.get(name, True))
        self.used[name] = float(v)
        return v

    def stub(self, base, *a, **k):
        return self.real(self.name(base), *a, **k)

    def frac(self, p, q=1):
        return p / q

    def arr(self, x, ty='f'):
        return np.array(x, dtype={'f': float, 'i': int, 'b': bool,
                                  'O': object}[ty])

    def const(self, x):
        return float(x)

    def decide(self, c):
        return bool(c)

    def nan(self):
        return np.nan

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def cs(self, ht):
        return math.cos(ht * math.pi), math.sin(ht * math.pi)

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def floor(self, x):
        return math.floor(x)

    def is_nan(self, x):
        try:
            return bool(np.isnan(elem(x)))
        except TypeError:
            return False

    def assume(self, c):
        if not bool(c):
            raise Skip('assume')

    def fail(self, label, detail=''):
        self.fails.append((label, str(detail)[-700:]))

    def check(self, cond, label):
        if not bool(cond):
            self.fail(label)

    def close(self, a, b):
        if a == b:
            return True
        try:
            return abs(a - b) <= TOL * (1.0 + abs(a) + abs(b))
        except TypeError:
            return False

    def eq(self, a, b, label):
        a, b = elem(a), elem(b)
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            if not (na and nb):
                self.fail(label, '%r != %r' % (a, b))
            return
        if np.size(a) != 1 or not self.close(a, b):
            self.fail(label, '%r != %r' % (a, b))

    def le(self, a, b, label):
        a, b = elem(a), elem(b)
        if not a <= b + TOL * (1.0 + abs(a) + abs(b)):
            self.fail(label, '%r > %r' % (a, b))

    def lt(self, a, b, label):
        a, b = elem(a), elem(b)
        if not a < b:
            self.fail(label, '%r >= %r' % (a, b))

    def eq_mod(self, a, b, period, label):
        a, b = elem(a), elem(b)
        na, nb = self.is_nan(a), self.is_nan(b)
        if na or nb:
            if not (na and nb):
                self.fail(label, '%r != %r' % (a, b))
            return
        q = (a - b) / float(period)
        if abs(q - round(q)) > TOL:
            self.fail(label, '%r != %r (mod %r)' % (a, b, period))

    def mult_of(self, d, period, label):
        q = float(d) / float(period)
        if abs(q - round(q)) > TOL:
            self.fail(label, '%r is not a multiple of %r' % (d, period))

    def eq_vec(self, pairs, label):
        for i, (a, b) in enumerate(pairs):
            self.eq(a, b, '%s.%d' % (label, i))

    def same(self, a, b, label):
        a, b = elem(a), elem(b)
        if not (a is b or a == b or (self.is_nan(a) and self.is_nan(b))):
            self.fail(label, '%r != %r' % (a, b))


# --------------------------------------------------------------- engine ----
class Engine(object):
    """Explore every path of a harness and discharge its obligations."""

    def __init__(self, body, cfg, opts):
        self.body, self.cfg = body, cfg
        self.o = dict(t_feas=2.0, t_goal=20.0, max_paths=3000, max_depth=300,
                      budget=240.0, witness=True, validate=True)
        self.o.update(opts)
        self.inputs = {}
        self.w = core.World(dict(
            t_feas=self.o['t_feas'], t_goal=self.o['t_goal'],
            max_depth=self.o['max_depth']))
        self.res = dict(paths=0, infeasible=0, obligations=0, discharged=0,
                        by_rewriting=0, witnesses=0, validated=0, boundary=0,
                        nowitness=0, mismatches=[], unknown=[], violations=[],
                        errors=[], functions=set(), labels=set(),
                        maxdepth=0, aborted=0, outside=[])
        self.cands = []
        self.rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))

    # ---- obligations
    def obligation(self, cond, label):
        r = self.res
        r['obligations'] += 1
        r['labels'].add(label)
        if not isinstance(cond, SB):
            if bool(cond):
                r['discharged'] += 1
                r['by_rewriting'] += 1
            else:
                self.cands.append((label, None, list(self.w.path)))
            return
        st = cond.static()
        k = cond.key()
        if st is True or self.w.known.get(k) is True:
            r['discharged'] += 1
            r['by_rewriting'] += 1
            return
        parts = cond.args if cond.op == 'and' else [cond]
        bad = None
        for p in parts:
            q, m = self.w.query([p.neg()], self.o['t_goal'], sub=True)
            if q != 'unsat':
                q, m = self.w.query([p.neg()], self.o['t_goal'])
            if q != 'unsat':
                q, m = self.w.query([p.neg()], self.o['t_goal'], full=True)
            if q != 'unsat':
                bad = (q, p)
                break
        if bad is None:
            r['discharged'] += 1
            return
        self.cands.append((label, bad[1].neg(), list(self.w.path)))

    # ---- models
    def env_from(self, model):
        env = {}
        w = self.w
        for name, info in self.inputs.items():
            if info[0] == 'bool':
                v = model.eval(z3.Bool(name), model_completion=True) \
                    if model is not None else None
                env[name] = bool(v) if model is not None and z3.is_true(
                    v) else False
                continue
            a = w.bykey.get(('in', name))
            if a is None:
                continue
            v = None
            if model is not None:
                if info[0] == 'angle':
                    u = w.units.get(((a.idx, 1),))
                    if u:
                        ca = w.atoms[core.single_atom(u[0][1].num)]
                        sa = w.atoms[core.single_atom(u[0][2].num)]
                        vc, vs = zval(model, ca.z), zval(model, sa.z)
                        if vc is not None and vs is not None and (vc or vs):
                            v = mpmath.atan2(vs, vc) / mpmath.pi
                            k = snap12(v)
                            v = k if k is not None else v
                            lo, hi = mpq(a.lo), mpq(a.hi)
                            while v < lo:
                                v += 2
                            while v > hi:
                                v -= 2
                            if v < lo:
                                v = None
                if v is None:
                    v = zval(model, a.z)
                    lo, hi = info[1], info[2]
                    if v is not None and (
                            (lo is not None and v < lo)
                            or (hi is not None and v > hi)
                            or (info[3] and v <= 0) or (info[4] and v < 0)):
                        # the query did not constrain this input
                        v = None
            if v is None:
                v = self.sample1(info)
            env[name] = mpmath.mpf(v)
        return env

    def sample1(self, info):
        kind, lo, hi, pos, nonneg = info
        rng = self.rng
        if kind == 'bool':
            return rng.random() < 0.5
        l = float(lo) if lo is not None else (0.0 if pos or nonneg else -30.0)
        h = float(hi) if hi is not None else max(l + 60.0, 60.0)
        if kind == 'int':
            return mpmath.mpf(rng.randint(int(l), int(h)))
        u = rng.random()
        if u < 0.15 and kind == 'angle':
            g = [k / 12.0 for k in range(-36, 37) if l <= k / 12.0 <= h]
            return mpmath.mpf(rng.choice(g))
        return mpmath.mpf(round(l + (h - l) * rng.random(), 6))

    def sat_env(self, env, cons):
        """Margin with which env satisfies the constraints (<0 if not)."""
        e = dict(env)
        try:
            # declared ranges
            for name, info in self.inputs.items():
                if info[0] in ('bool',):
                    continue
                v = env.get(name)
                if v is None:
                    return -1
                if info[1] is not None and v < info[1]:
                    return -1
                if info[2] is not None and v > info[2]:
                    return -1
                if info[3] and v <= 0 or info[4] and v < 0:
                    return -1
            m = mpmath.inf
            for c in cons:
                m = min(m, margin(c, e))
                if m < 0:
                    return -1
            return m
        except (ZeroDivisionError, ValueError, KeyError, TypeError):
            return -1

    def find_env(self, cons, tries, model_first=True, t=None):
        """Concrete inputs that satisfy all constraints, or None."""
        best = None
        base = None
        if model_first:
            have = set(c.key() for c in self.w.path)
            q, m = self.w.query([c for c in cons if c.key() not in have],
                                t or self.o['t_goal'], want_model=True,
                                full=True)
            if q == 'unsat':
                return 'unsat'
            if m is not None:
                base = self.env_from(m)
                mg = self.sat_env(base, cons)
                if mg >= 0:
                    if mg > 1e-6:
                        return base, mg
                    best = (base, mg)
                # stay clear of the limits of every condition
                q, m = self.w.query(
                    [SB('le', (core.padd(c.args[0],
                                          core.pconst(Fr(1, 1000))),))
                     for c in cons if c.op in ('lt', 'le')]
                    + [c for c in cons if c.key() not in have],
                    t or self.o['t_goal'], want_model=True, full=True)
                if m is not None:
                    b2 = self.env_from(m)
                    mg = self.sat_env(b2, cons)
                    if mg > 1e-6:
                        return b2, mg
                    if mg >= 0 and best is None:
                        best = (b2, mg)
        for k in range(tries):
            env = {}
            for name, info in self.inputs.items():
                if info[0] == 'bool':
                    env[name] = (base or {}).get(name,
                                                 self.rng.random() < 0.5)
                    if not base and self.rng.random() < 0.5:
                        env[name] = self.rng.random() < 0.5
                    continue
                if base is not None and info[0] != 'int' and k % 2 == 0:
                    s = 10.0 ** self.rng.uniform(-5, 0)
                    if self.rng.random() < 0.3:
                        env[name] = base[name]
                    else:
                        env[name] = base[name] + mpmath.mpf(
                            self.rng.gauss(0, s))
                elif base is not None and self.rng.random() < 0.5:
                    env[name] = base[name]
                else:
                    env[name] = self.sample1(info)
            mg = self.sat_env(env, cons)
            if mg >= 0 and (best is None or mg > best[1]):
                best = (env, mg)
                if mg > 1e-6:
                    return best
        return best

    # ---- concrete runs
    def run_concrete(self, env):
        """Run the harness on the real code; returns ConH or None."""
        h = ConH(self.cfg, env)
        try:
            with patch.concrete(h):
                self.body(h, **self.cfg)
        except Skip:
            return None
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            if not from_repo(e):
                # the harness itself choked on what the code returned
                h.fail('harness failed on the result', tb)
                h.crashed = True
            else:
                h.fail('no exception', tb)
                h.crashed = True
        return h

    def handle_cands(self):
        """Replay candidate violations found on the path just finished."""
        path0 = self.w.path
        done = set()
        for label, goal, path in self.cands:
            key = (label, goal.key() if goal is not None else None)
            if key in done or self.seen_label(label):
                continue
            done.add(key)
            self.w.path = path
            cons = list(path) + ([goal] if goal is not None else [])
            self.replay(label, cons, goal)
        self.w.path = path0
        self.cands = []

    def seen_label(self, label):
        return any(v['label'] == label for v in self.res['violations'])

    def replay(self, label, cons, goal):
        tried = 0
        t0 = time.time()
        if goal is not None:
            q = self.find_env(cons, 0)
            if q == 'unsat':
                self.res['discharged'] += 1
                return
        for rnd in range(4):
            r = self.find_env(cons, [0, 60, 200, 400][rnd],
                              model_first=(rnd < 2))
            if r == 'unsat':
                self.res['discharged'] += 1
                return
            if r is None:
                continue
            for env in variants(r[0]):
                tried += 1
                h = self.run_concrete(env)
                if h is not None and h.fails:
                    f = [x for x in h.fails if x[0] == label] or h.fails
                    self.violation(label, f[0], h.used, 'solver model')
                    return
            if time.time() - t0 > 60:
                break
        # last resort: free sampling of the real code near the path
        for k in range(self.o.get('free_tries', 150)):
            env = {n: self.sample1(i) for n, i in self.inputs.items()}
            h = self.run_concrete(env)
            if h is not None and any(x[0] == label for x in h.fails):
                f = [x for x in h.fails if x[0] == label]
                self.violation(label, f[0], h.used, 'sampling')
                return
        self.res['unknown'].append(dict(
            label=label, tried=tried, cfg=str(self.cfg),
            env=None if not r or r == 'unsat' else
            {k: float(v) for k, v in r[0].items()}))

    def violation(self, label, fail, used, how):
        self.res['violations'].append(dict(
            label=label, fail=fail, inputs={k: v for k, v in used.items()},
            cfg=self.cfg, how=how))

    # ---- one path
    def run_path(self, prefix):
        w = self.w
        w.reset_path(prefix)
        core.TOKENS.clear()
        core.DIGITS.clear()
        self.cands = []
        h = SymH(self.cfg, self)
        status = 'ok'
        prof = self.res['paths'] < 3
        try:
            with patch.symbolic(h):
                if prof:
                    sys.setprofile(self.profiler)
                try:
                    self.body(h, **self.cfg)
                finally:
                    if prof:
                        sys.setprofile(None)
        except PathAbort:
            status = 'abort'
        except (Unsupported, Budget) as e:
            status = 'unsup'
            self.err = '%s: %s at %s' % (type(e).__name__, e, where(e))
        except RecursionError as e:
            status = 'unsup'
            self.err = 'RecursionError ' + where(e)
        except Exception as e:
            if from_repo(e):
                status = 'exc'
                self.err = '%s: %s at %s' % (type(e).__name__, e, where(e))
                self.tb = traceback.format_exc(limit=-6)
            else:
                status = 'unsup'
                self.err = traceback.format_exc(limit=-6)
        return h, status

    def profiler(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(REPO):
                self.res['functions'].add(
                    os.path.relpath(f, REPO) + ':' + frame.f_code.co_qualname)

    def explore(self):
        core.set_world(self.w)
        r = self.res
        t0 = time.time()
        self.w.o['deadline'] = t0 + self.o['budget'] * 1.5
        work = [[]]
        while work:
            if time.time() - t0 > self.o['budget']:
                r['errors'].append('time budget of %d s exceeded with %d paths '
                                   'pending' % (self.o['budget'], len(work)))
                break
            if r['paths'] >= self.o['max_paths']:
                r['errors'].append('path bound exceeded')
                break
            prefix = work.pop()
            self.err = None
            h, status = self.run_path(prefix)
            work.extend(self.w.pending)
            r['maxdepth'] = max(r['maxdepth'], len(self.w.trail))
            if status == 'abort':
                r['aborted'] += 1
                continue
            r['paths'] += 1
            if status == 'exc':
                self.exc_path()
                continue
            if status == 'unsup':
                # is the path feasible at all?
                q, _ = self.w.query([], self.o['t_goal'], want_model=True,
                                    full=True)
                if q == 'unsat':
                    r['infeasible'] += 1
                    continue
                self.unsup_path()
                continue
            if self.cands:
                self.handle_cands()
            if len(r['violations']) >= 3:
                break
            if self.o['witness']:
                self.witness(h)
        r['stat'] = self.w.stat
        r['atoms'] = len(self.w.atoms)
        r['seconds'] = time.time() - t0
        return r

    def unsup_path(self):
        """The encoding gave up: a real failure there is still reported."""
        fe = self.find_env(list(self.w.path), 40)
        if fe == 'unsat':
            self.res['infeasible'] += 1
            return
        if fe is not None:
            for env in variants(fe[0]):
                h = self.run_concrete(env)
                if h is not None and h.fails:
                    self.violation(h.fails[0][0], h.fails[0], h.used,
                                   'replay of a path outside the encoding')
                    return
        self.res['errors'].append(self.err)

    def exc_path(self):
        """The code under test raised on this path."""
        label = 'no exception'
        self.res['obligations'] += 1
        self.res['labels'].add(label)
        if self.seen_label(label):
            return
        fe = self.find_env(list(self.w.path), 100)
        if fe == 'unsat':
            self.res['infeasible'] += 1
            self.res['discharged'] += 1
            return
        if fe is not None:
            for env in variants(fe[0]):
                h = self.run_concrete(env)
                if h is not None and h.fails:
                    f = [x for x in h.fails if x[0] == label] or h.fails
                    self.violation(label, f[0], h.used, 'solver model')
                    return
        self.res['unknown'].append(dict(label='exception ' + self.err,
                                        cfg=str(self.cfg)))

    def witness(self, h):
        """Reachability witness of the path and validation of the encoding."""
        r = self.res
        nw = self.o.get('max_witness', 400)
        if r['witnesses'] + r['nowitness'] >= nw:
            return
        fe = self.find_env(list(self.w.path), 40, t=self.o['t_feas'])
        if fe == 'unsat':
            r['infeasible'] += 1
            return
        if fe is None:
            r['nowitness'] += 1
            return
        env, mg = fe
        r['witnesses'] += 1
        if not self.o['validate']:
            return
        c = self.run_concrete(env)
        if c is None:
            r['boundary'] += 1
            return
        interior = mg > 1e-7
        if c.fails:
            if interior:
                f = c.fails[0]
                if not self.seen_label(f[0]):
                    self.violation(f[0], f, c.used,
                                   'path witness on the real code')
            else:
                r['boundary'] += 1
            return
        e = dict(env)
        bad = None
        if c.counters != h.counters:
            # two stub calls coincide in this witness and share one value
            r['boundary'] += 1
            return
        if len(c.obs) != len(h.obs):
            bad = 'number of observations %d/%d' % (len(c.obs), len(h.obs))
        else:
            for (n1, v1), (n2, v2) in zip(h.obs, c.obs):
                if n1 != n2 or not obs_equal(v1, v2, e):
                    bad = '%s: encoding %s, code %r' % (
                        n1, show(v1, e), v2)
                    break
        if bad is None:
            r['validated'] += 1
        elif interior:
            r['mismatches'].append(dict(what=bad, inputs={
                k: float(v) for k, v in env.items()}, cfg=str(self.cfg)))
        else:
            r['boundary'] += 1


def show(v, e):
    try:
        return float(v.ev(e)) if isinstance(v, SR) else repr(v)
    except Exception as x:
        return repr(x)


def obs_equal(v, c, e):
    if isinstance(v, SB):
        return bool(v.ev(e)) == bool(c)
    if isinstance(v, SR):
        try:
            a = v.ev(e)
            b = float(c)
        except Exception:
            return False
        if math.isnan(b):
            return False
        return abs(a - b) <= 1e-5 * (1 + abs(b))
    if hasattr(v, 'obs_equal'):
        return v.obs_equal(c, e)
    if isinstance(v, (float, np.floating)) and v != v:
        try:
            return bool(np.isnan(c))
        except TypeError:
            return False
    try:
        return bool(v == c)
    except Exception:
        return False


def margin(c, env):
    """How robustly env satisfies the boolean c (negative: it does not)."""
    if c.op in ('lt', 'le'):
        v = -c.args[0].ev(env)
        if v > 0:
            return v
        if c.op == 'le' and v > -mpmath.mpf(10) ** -18:
            return mpmath.mpf(0)
        return mpmath.mpf(-1)
    if c.op == 'eq':
        v = abs(c.args[0].ev(env))
        return mpmath.mpf(0) if v < mpmath.mpf(10) ** -15 else mpmath.mpf(-1)
    if c.op == 'not':
        i = c.args[0]
        if i.op == 'eq':
            v = abs(i.args[0].ev(env))
            return v if v > mpmath.mpf(10) ** -15 else mpmath.mpf(-1)
        return mpmath.inf if c.ev(env) else mpmath.mpf(-1)
    if c.op == 'and':
        return min(margin(x, env) for x in c.args)
    if c.op == 'or':
        return max(margin(x, env) for x in c.args)
    return mpmath.inf if c.ev(env) else mpmath.mpf(-1)


def variants(env):
    """The model, and the model rounded to short decimals."""
    yield env
    e2 = {}
    for k, v in env.items():
        e2[k] = v if isinstance(v, bool) else mpmath.mpf(round(float(v), 6))
    yield e2


def zval(model, z):
    v = model.eval(z, model_completion=True)
    try:
        if z3.is_int_value(v):
            return mpmath.mpf(v.as_long())
        if z3.is_rational_value(v):
            return mpmath.mpf(v.numerator_as_long()) / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            v = v.approx(40)
            return mpmath.mpf(v.numerator_as_long()) / v.denominator_as_long()
    except Exception:
        pass
    return None


def mpq(x):
    return mpmath.mpf(x.numerator) / x.denominator


def snap12(v):
    k = mpmath.nint(v * 12)
    if abs(v * 12 - k) < 1e-12:
        return k / 12
    return None


def where(e):
    tb = e.__traceback__
    out = ''
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO):
            out = '%s:%d' % (os.path.relpath(f, REPO), tb.tb_lineno)
        tb = tb.tb_next
    if not out:
        tb = e.__traceback__
        while tb is not None:
            out = '%s:%d' % (os.path.basename(tb.tb_frame.f_code.co_filename),
                             tb.tb_lineno)
            tb = tb.tb_next
    return out


def from_repo(e):
    """True if the exception left the code under test."""
    tb = e.__traceback__
    last = None
    inside = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO):
            inside = True
        last = f
        tb = tb.tb_next
    del last
    return inside


def engine(body, cfg, opts):
    if opts.get('fp'):
        from . import fpx
        return fpx.Explorer(body, cfg, opts)
    return Engine(body, cfg, opts)


def run_task(task):
    """Entry point of a worker process."""
    body, cfg, opts, name = task
    t0 = time.time()
    try:
        e = engine(body, cfg, opts)
        r = e.explore()
        r['inputs'] = {k: list(map(str, v)) for k, v in e.inputs.items()}
    except Exception:
        r = dict(errors=[traceback.format_exc()], violations=[], unknown=[],
                 mismatches=[], paths=0, obligations=0, discharged=0,
                 by_rewriting=0, witnesses=0, validated=0, boundary=0,
                 nowitness=0, infeasible=0, functions=set(), labels=set(),
                 maxdepth=0, aborted=0, stat={}, inputs={})
    r['name'] = name
    r['seconds'] = time.time() - t0
    return r


def jdump(o):
    return json.dumps(o, default=str, indent=1, sort_keys=True)
