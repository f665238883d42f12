"""A small explorer in IEEE double semantics (z3 floating-point theory).

The functions under test run on object arrays whose elements are z3 Float64
terms.  Comparisons are decided when they are evaluated: both sides are
explored if feasible.  Only what the cyclic helpers need is supported.
"""
import math
import os
import sys
import time
import traceback

import numpy as np
import z3

from .core import Unsupported

F64 = z3.Float64()
RNE = z3.RNE()
EX = None       # the running explorer


def fpv(x):
    return z3.FPVal(float(x), F64)


def term(x):
    if isinstance(x, FV):
        return x.t
    if isinstance(x, np.ndarray) and x.shape == ():
        return term(x[()])
    if isinstance(x, (int, float, np.integer, np.floating)):
        return fpv(x)
    raise Unsupported('fp operand %r' % type(x))


class FV(object):
    """A double: a z3 term."""
    shape, ndim, size = (), 0, 1

    def __init__(self, t, iv=None):
        self.t, self.iv = t, iv

    def scaled(self, o, op):
        """x*c or x/c as a free double between the images of the bounds.

        Rounded scaling by a positive constant is monotone, so this covers
        every value it can take.
        """
        if self.iv is None or not isinstance(o, (int, float, np.floating)) \
                or not o > 0:
            return None
        f = (lambda x: x * float(o)) if op is z3.fpMul else \
            (lambda x: x / float(o))
        y = EX.fresh(f(self.iv[0]), f(self.iv[1]))
        EX.defs.append((y.t, self.t, f, float(o), op))
        return y

    def _b(op, swap=False):
        def f(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            if op in (z3.fpMul, z3.fpDiv) and not (swap and op is z3.fpDiv):
                y = self.scaled(o, op)
                if y is not None:
                    return y
            a, b = self.t, term(o)
            if swap:
                a, b = b, a
            return FV(z3.simplify(op(RNE, a, b)))
        return f

    __add__, __radd__ = _b(z3.fpAdd), _b(z3.fpAdd, True)
    __sub__, __rsub__ = _b(z3.fpSub), _b(z3.fpSub, True)
    __mul__, __rmul__ = _b(z3.fpMul), _b(z3.fpMul, True)
    __truediv__, __rtruediv__ = _b(z3.fpDiv), _b(z3.fpDiv, True)

    def __neg__(self):
        return FV(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return FV(z3.fpAbs(self.t))

    def _c(op):
        def f(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            return EX.decide(op(self.t, term(o)))
        return f
    __lt__, __le__ = _c(z3.fpLT), _c(z3.fpLEQ)
    __gt__, __ge__ = _c(z3.fpGT), _c(z3.fpGEQ)
    __eq__, __ne__ = _c(z3.fpEQ), _c(lambda a, b: z3.Not(z3.fpEQ(a, b)))
    __hash__ = None

    def isnan(self):
        return EX.decide(z3.fpIsNaN(self.t))

    def __bool__(self):
        return self != 0.0

    def _round(self, mode):
        return FV(z3.fpRoundToIntegral(mode, self.t))

    def __floor__(self):
        return self._round(z3.RTN())

    def __float__(self):
        raise Unsupported('float() of a symbolic double')
    __int__ = __index__ = __float__

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self


def floor(x):
    return x._round(z3.RTN()) if isinstance(x, FV) else math.floor(x)


def ceil(x):
    return x._round(z3.RTP()) if isinstance(x, FV) else math.ceil(x)


ELEM = {
    'isnan': lambda x: x.isnan() if isinstance(x, FV) else math.isnan(x),
    'isfinite': lambda x: True if isinstance(x, FV) else math.isfinite(x),
    'isinf': lambda x: False if isinstance(x, FV) else math.isinf(x),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'true_divide': lambda a, b: a / b,
    'divide': lambda a, b: a / b, 'negative': lambda a: -a,
    'positive': lambda a: a, 'absolute': abs, 'fabs': abs,
    'floor': floor, 'ceil': ceil,
    'square': lambda a: a * a,
    'degrees': lambda a: a * (180.0 / math.pi),
    'rad2deg': lambda a: a * (180.0 / math.pi),
    'radians': lambda a: a * (math.pi / 180.0),
    'deg2rad': lambda a: a * (math.pi / 180.0),
    'maximum': lambda a, b: a if a >= b else b,
    'minimum': lambda a, b: a if a <= b else b,
}
BOOL = {'isnan', 'isfinite', 'isinf', 'less', 'less_equal', 'greater',
        'greater_equal', 'equal', 'not_equal'}


class FArr(np.ndarray):
    """Object array of FV (and plain numbers)."""

    def __array_ufunc__(self, uf, method, *inp, **kw):
        n = uf.__name__
        if method != '__call__' or n not in ELEM:
            if all(not (isinstance(x, np.ndarray) and x.dtype == object)
                   for x in inp):
                return getattr(uf, method)(*[np.asarray(x) for x in inp],
                                           **kw)
            raise Unsupported('fp ufunc %s.%s' % (n, method))
        where = kw.pop('where', None)
        out = kw.pop('out', None)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        if kw:
            raise Unsupported('fp ufunc options')
        args = [np.asarray(x, dtype=object) if not isinstance(
            x, np.ndarray) else x.view(np.ndarray) for x in inp]
        if where is not None:
            args.append(np.asarray(where))
        bc = np.broadcast_arrays(*args)
        shp = bc[0].shape
        res = np.empty(shp, dtype=bool if n in BOOL else object)
        f = ELEM[n]
        for i in np.ndindex(shp):
            if where is not None and not bc[-1][i]:
                # uninitialised in numpy: both values are possible
                res[i] = EX.free() if n in BOOL else float('nan')
                continue
            res[i] = f(*[x[i] for x in bc[:len(inp)]])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = res
            return o
        if res.dtype == object:
            return res.view(FArr)
        return res if shp else np.bool_(res[()])

    def astype(self, ty, *a, **k):
        if np.dtype(ty).kind in 'fO':
            return self.copy()
        raise Unsupported('fp astype %s' % ty)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def any(self, *a, **k):
        raise Unsupported('any of doubles')


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(FArr)
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x)
    return x


def unw(x):
    if isinstance(x, FV):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(FArr)
    return x


class NpF(object):
    """numpy, with arrays of doubles made as object arrays."""

    def __getattr__(self, k):
        v = getattr(np, k)
        if k in ('asarray', 'array', 'atleast_1d', 'ascontiguousarray'):
            def f(x, *a, **kw):
                if isinstance(x, FV):
                    r = unw(x)
                    return r.reshape(1) if k == 'atleast_1d' else r
                if isinstance(x, np.ndarray) and x.dtype == object:
                    r = x.view(FArr)
                    return r.copy() if k == 'array' else r
                if isinstance(x, (list, tuple)) and any(
                        isinstance(y, (FV, FArr)) for y in x):
                    r = np.empty(len(x), dtype=object)
                    for i, y in enumerate(x):
                        r[i] = y
                    return r.view(FArr)
                return v(x, *a, **kw)
            return f
        if k in ('full', 'zeros', 'ones', 'empty', 'full_like', 'zeros_like',
                 'empty_like', 'ones_like'):
            def f(*a, **kw):
                kw = {x: y for x, y in kw.items() if x != 'dtype'}
                if k.endswith('_like'):
                    r = np.empty(np.shape(a[0]), dtype=object)
                    r[...] = kw.get('fill_value', a[1] if len(a) > 1 else
                                    {'zeros_like': 0., 'ones_like': 1.}.get(
                                        k, float('nan')))
                    return r.view(FArr)
                fv = kw.get('fill_value', a[1] if len(a) > 1 else
                            {'zeros': 0., 'ones': 1.}.get(k, float('nan')))
                if isinstance(fv, (bool, np.bool_)):
                    return v(*a, **kw)
                r = np.empty(kw.get('shape', a[0] if a else ()), dtype=object)
                r[...] = fv if not isinstance(fv, np.ndarray) else fv[()]
                return r.view(FArr)
            return f
        if k == 'where':
            def f(c, *a):
                if not a:
                    return np.where(c)
                a = [unw(x) for x in a]
                return wrap(np.where(np.asarray(c), *[
                    x.view(np.ndarray) if isinstance(x, np.ndarray)
                    else np.asarray(x, dtype=object) for x in a]))
            return f
        if callable(v) and not isinstance(v, type):
            def f(*a, **kw):
                return wrap(v(*[unw(x) for x in a], **kw))
            return f
        return v


class Dead(Exception):
    pass


class Explorer(object):
    def __init__(self, body, cfg, opts):
        self.body, self.cfg, self.o = body, cfg, dict(
            t=60.0, budget=240.0, max_paths=400)
        self.o.update(opts)
        self.inputs = {}
        self.stat = dict(queries=0, sat=0, unsat=0, unknown=0, seconds=0.0,
                         decisions=0)
        self.res = dict(paths=0, infeasible=0, obligations=0, discharged=0,
                        by_rewriting=0, witnesses=0, validated=0, boundary=0,
                        nowitness=0, mismatches=[], unknown=[], violations=[],
                        errors=[], functions=set(), labels=set(),
                        maxdepth=0, aborted=0, outside=[])

    # ---- solver
    def ask(self, cons, model=False):
        """Is pre & path & cons satisfiable?"""
        self.stat['queries'] += 1
        s = z3.Solver()
        s.set('timeout', int(self.o['t'] * 1000))
        s.add(*self.pre, *self.path, *cons)
        t = time.time()
        r = str(s.check())
        self.stat['seconds'] += time.time() - t
        self.stat[r] = self.stat.get(r, 0) + 1
        if r == 'sat' and model:
            m = s.model()
            env = {}
            for n, v in self.vars.items():
                y = m.eval(v, model_completion=True)
                env[n] = fpfloat(y)
            self.invert(m, env)
            return r, env
        return r, None

    def invert(self, m, env):
        """Inputs for which the scaled values of the model are attained."""
        inp = {str(v): n for n, v in self.vars.items()}
        val = {}
        for y, x, f, c, op in reversed(self.defs):
            want = val.get(str(y))
            if want is None:
                want = fpfloat(m.eval(y, model_completion=True))
            g = want / c if op is z3.fpMul else want * c
            best = g
            lo = hi = g
            for _ in range(40):
                if f(lo) == want:
                    best = lo
                    break
                if f(hi) == want:
                    best = hi
                    break
                lo = math.nextafter(lo, -math.inf)
                hi = math.nextafter(hi, math.inf)
            val[str(x)] = best
            if str(x) in inp:
                n = inp[str(x)]
                a, b = self.inputs[n]
                env[n] = min(max(best, a), b)

    def fresh(self, lo, hi):
        self.nfresh += 1
        x = z3.FP('scaled%d' % self.nfresh, F64)
        self.path += [z3.fpGEQ(x, fpv(lo)), z3.fpLEQ(x, fpv(hi))]
        return FV(x, (lo, hi))

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.trail)
        self.stat['decisions'] += 1
        if k < len(self.prefix):
            b = self.prefix[k]
        else:
            t, _ = self.ask([c])
            f, _ = self.ask([z3.Not(c)])
            if t == 'unsat' and f == 'unsat':
                raise Dead()
            if t == 'unsat':
                b = False
            elif f == 'unsat':
                b = True
            else:
                if 'unknown' in (t, f):
                    self.res['unknown'].append(dict(label='branch'))
                b = True
                self.pending.append(self.trail + [False])
        self.trail.append(b)
        self.path.append(c if b else z3.Not(c))
        return b

    def free(self):
        """An arbitrary boolean (uninitialised memory)."""
        self.nfree += 1
        return self.decide(z3.Bool('free%d' % self.nfree))

    # ---- harness interface
    sym = True

    def real(self, name, lo, hi):
        if name not in self.vars:
            x = z3.FP(name, F64)
            self.vars[name] = x
            self.pre += [z3.fpGEQ(x, fpv(lo)), z3.fpLEQ(x, fpv(hi)),
                         z3.Or(z3.fpIsNormal(x), z3.fpIsZero(x),
                               z3.fpIsSubnormal(x))]
            self.inputs[name] = [lo, hi]
        return FV(self.vars[name], (lo, hi))

    def nan(self):
        return float('nan')

    def arr(self, v):
        r = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            r[i] = x
        return r.view(FArr)

    def elems(self, x):
        x = unw(x)
        if isinstance(x, np.ndarray):
            return x.shape, list(x.reshape(-1).view(np.ndarray))
        return (), [x]

    def check(self, c, label):
        r = self.res
        r['obligations'] += 1
        r['labels'].add(label)
        if isinstance(c, (bool, np.bool_)):
            if c:
                r['discharged'] += 1
                return
            c = z3.BoolVal(False)
        q, env = self.ask([z3.Not(c)], model=True)
        if q == 'unsat':
            r['discharged'] += 1
        elif q == 'sat':
            h = self.run_concrete(env)
            if h.fails:
                r['violations'].append(dict(
                    label=label, fail=h.fails[0], inputs=h.used,
                    cfg=self.cfg, how='FP solver model'))
                raise Dead()
            r['unknown' if self.defs else 'mismatches'].append(
                dict(label=label, inputs=env))
        else:
            r['unknown'].append(dict(label=label, cfg=str(self.cfg)))

    @staticmethod
    def lt(a, b):
        return z3.fpLT(term(a), term(b))

    @staticmethod
    def le(a, b):
        return z3.fpLEQ(term(a), term(b))

    @staticmethod
    def same(a, b):
        return z3.fpEQ(term(a), term(b))

    @staticmethod
    def no(c):
        return z3.Not(c)

    @staticmethod
    def either(*c):
        return z3.Or(*c)

    def isnan(self, x):
        if isinstance(x, FV):
            return z3.fpIsNaN(x.t)
        return z3.BoolVal(math.isnan(x))

    # ---- runs
    def explore(self):
        global EX
        import ocbpy  # noqa F401
        from . import patch
        from .harness import REPO, from_repo, where
        work, t0, r = [[]], time.time(), self.res

        def prof(frame, event, arg):
            if event == 'call':
                f = frame.f_code.co_filename
                if f.startswith(REPO):
                    r['functions'].add(os.path.relpath(f, REPO) + ':'
                                       + frame.f_code.co_qualname)
        while work and not r['violations']:
            if time.time() - t0 > self.o['budget'] or \
                    r['paths'] >= self.o['max_paths']:
                r['errors'].append('FP exploration stopped with %d paths '
                                   'pending' % len(work))
                break
            self.prefix, self.trail = work.pop(), []
            self.path, self.pre, self.vars = [], [], {}
            self.pending, self.nfree, self.nfresh, self.defs = [], 0, 0, []
            EX = self
            sw = patch.Swap()
            try:
                with patch.quiet():
                    for m in patch.modules():
                        for k, v in list(m.__dict__.items()):
                            if v is np:
                                sw.set(m.__dict__, k, NpF())
                    try:
                        if r['paths'] < 2:
                            sys.setprofile(prof)
                        self.body(self, **self.cfg)
                    finally:
                        sys.setprofile(None)
                        sw.restore()
                r['paths'] += 1
                q, env = self.ask([], model=True)
                if q == 'sat':
                    r['witnesses'] += 1
                    h = self.run_concrete(env)
                    if h.fails:
                        r['violations'].append(dict(
                            label=h.fails[0][0], fail=h.fails[0],
                            inputs=h.used, cfg=self.cfg, how='FP witness'))
                    else:
                        r['validated'] += 1
            except Dead:
                r['infeasible'] += 1
            except Exception as e:
                q, env = self.ask([], model=True)
                h = self.run_concrete(env) if q == 'sat' else None
                if h is not None and h.fails:
                    r['violations'].append(dict(
                        label=h.fails[0][0], fail=h.fails[0], inputs=h.used,
                        cfg=self.cfg, how='replay of a failing path'))
                elif q != 'unsat':
                    r['errors'].append('%s at %s %s' % (
                        e, where(e), '' if from_repo(e) else
                        traceback.format_exc(limit=-4)))
            work.extend(self.pending)
            r['maxdepth'] = max(r['maxdepth'], len(self.trail))
        r['stat'] = self.stat
        r['seconds'] = time.time() - t0
        return r

    def run_concrete(self, env):
        from . import patch
        h = Con(self.cfg, env)
        with patch.quiet():
            try:
                self.body(h, **self.cfg)
            except Exception as e:
                h.fails.append(('no exception', repr(e)))
        return h


class Con(object):
    """The same harness on plain doubles, compared exactly."""
    sym = False

    def __init__(self, cfg, env):
        self.env, self.fails, self.used = env, [], {}

    def real(self, name, lo, hi):
        v = float(self.env.get(name, lo))
        self.used[name] = v
        return v

    def nan(self):
        return float('nan')

    def arr(self, v):
        return np.array(v, dtype=float)

    def elems(self, x):
        x = np.asarray(x)
        return x.shape, [float(y) for y in x.reshape(-1)]

    def check(self, c, label):
        if not c:
            self.fails.append((label, ''))

    @staticmethod
    def lt(a, b):
        return a < b

    @staticmethod
    def le(a, b):
        return a <= b

    @staticmethod
    def same(a, b):
        return a == b

    @staticmethod
    def no(c):
        return not c

    @staticmethod
    def either(*c):
        return any(c)

    def isnan(self, x):
        return math.isnan(x)


def fpfloat(y):
    if z3.fpIsNaN(y) is None:
        pass
    s = z3.simplify(z3.fpToIEEEBV(y)).as_long()
    import struct
    return struct.unpack('<d', struct.pack('<Q', s))[0]


# ------------------------------------------------------------------ C11 ----
RANGES = {'hour': (0.0, 24.0, None, 24.0), 'deg': (-180.0, 180.0, None, 360.0),
          'wide': (-180.0, 360.0, 360.0, 360.0),
          'rad': (0.0, 2.0 * math.pi, None, 2.0 * math.pi),
          'half': (-math.pi, math.pi, None, 2.0 * math.pi)}


def verdict(h, xs, out, lo, hi, shp, inside=None):
    s, o = h.elems(out)
    h.check(s == shp, 'FP shape')
    for x, y in zip(xs, o):
        if isinstance(x, float) and math.isnan(x):
            h.check(h.isnan(y), 'FP NaN stays NaN')
            continue
        h.check(h.le(lo, y), 'FP at or above the minimum')
        h.check(h.lt(y, hi), 'FP below the maximum')
        if inside is not None:
            h.check(h.either(h.lt(x, lo), h.le(hi, x), h.same(x, y)),
                    'FP unchanged inside the range')


def fp_fold(h, rng='hour', shape='s', cyc=1):
    from ocbpy import ocb_time
    lo, hi, per, span = RANGES[rng]
    x = h.real('x', lo - cyc * span, hi + cyc * span)
    if shape == 's':
        v, arg, shp = [x], x, ()
    else:
        v = [h.nan(), x]
        arg, shp = h.arr(v), (2,)
    out = ocb_time.fix_range(arg, lo, hi) if per is None else \
        ocb_time.fix_range(arg, lo, hi, per)
    verdict(h, v, out, lo, hi, shp, True)


def fp_unit(h, fn='deg2hr', shape='s', cyc=1):
    from ocbpy import ocb_time
    f = getattr(ocb_time, fn)
    lo, hi, span = {'deg2hr': (0.0, 24.0, 360.0),
                    'rad2hr': (0.0, 24.0, 2 * math.pi),
                    'hr2rad': (0.0, 2 * math.pi, 24.0),
                    'hr2deg': (-180.0, 360.0, 24.0)}[fn]
    x = h.real('x', -cyc * span, cyc * span)
    if shape == 's':
        v, arg, shp = [x], x, ()
    else:
        v = [h.nan(), x]
        arg, shp = h.arr(v), (2,)
    verdict(h, v, f(arg), lo, hi, shp)


def c11_tasks(tier):
    out = []
    cyc = 1 if tier == 'quick' else 2
    for rng in RANGES:
        for s in ('s', 'a'):
            if tier == 'quick' and s == 'a' and rng not in ('hour', 'wide'):
                continue
            out.append((fp_fold, dict(rng=rng, shape=s, cyc=cyc),
                        dict(fp=True, weight=9 if s == 'a' else 5),
                        'FP fix_range %s %s' % (rng, s)))
    for fn in ('deg2hr', 'rad2hr', 'hr2rad', 'hr2deg'):
        for s in ('s', 'a'):
            if tier == 'quick' and s == 'a':
                continue
            out.append((fp_unit, dict(fn=fn, shape=s, cyc=cyc),
                        dict(fp=True, weight=9), 'FP %s %s' % (fn, s)))
    return out


# ------------------------------------------------------------------ C12 ----
class Hour(object):
    """A time of day given by its (fractional) hour."""

    def __init__(self, hour):
        self.hour = hour
        self.minute = self.second = self.microsecond = 0


def fp_lt(h, fn='slt2glon', cyc=1):
    from ocbpy import ocb_time
    f = getattr(ocb_time, fn)
    ut = Hour(h.real('ut', 0.0, 24.0))
    if fn == 'slt2glon':
        x = h.real('x', -24.0 * cyc, 24.0 * (1 + cyc))
        verdict(h, [x], f(x, ut), -180.0, 360.0, ())
    else:
        x = h.real('x', -360.0 * cyc, 360.0 * (1 + cyc))
        verdict(h, [x], f(x, ut), 0.0, 24.0, ())


def c12_tasks(tier):
    cyc = 0 if tier == 'quick' else 1
    return [(fp_lt, dict(fn=fn, cyc=cyc), dict(fp=True, weight=9), 'FP ' + fn)
            for fn in ('slt2glon', 'glon2slt')]
