"""numpy look-alikes that carry symbolic scalars.

`SArr` is an ndarray subclass that stores symbolic scalars and pretends to have
an ordinary float, int or bool dtype.  `NP` stands in for the numpy module in
the namespaces of the code under test: array creation yields `SArr`, everything
else is dispatched element by element or falls through to numpy.
"""
import math
import types

import numpy as np

from . import core
from .core import (SB, SR, NAN, Unsupported, cast_scalar, isspecial, lift,
                   mk_and, mk_or, neg, sc1, sc2, truth)

_nd = np.ndarray
PD = {'f': np.dtype('float64'), 'i': np.dtype('int64'), 'b': np.dtype(bool),
      'O': np.dtype(object), 'm': np.dtype(object)}


def issym(x):
    return isinstance(x, (SR, SB)) or hasattr(x, '_sc2')


def kind_of(x):
    """Pretend dtype kind of a scalar or array."""
    if isinstance(x, SArr):
        return x._pd
    if isinstance(x, SB):
        return 'b'
    if isinstance(x, SR):
        return x.ty
    if hasattr(x, '_sc2'):
        return getattr(x, '_pd', 'O')
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    if isinstance(x, _nd):
        k = x.dtype.kind
        return {'u': 'i'}.get(k, k if k in 'fib' else 'O')
    return 'O'


def dtype_kind(dt):
    if dt is None:
        return None
    dt = real_dtype(dt)
    k = np.dtype(dt).kind
    return {'u': 'i'}.get(k, k)


def real_dtype(dt):
    if isinstance(dt, type) and '_real' in dt.__dict__:
        return dt._real
    if dt is core.SR:
        return None
    if isinstance(dt, type) and dt.__name__ == 'Text':
        return str
    if isinstance(dt, list):
        return [tuple(real_dtype(y) if i == 1 else y for i, y in enumerate(t))
                for t in dt]
    return dt


def promote(kinds):
    ks = set(kinds)
    if 'O' in ks or 'm' in ks or (ks - set('fib')):
        return 'O'
    for k in 'fib':
        if k in ks:
            return k
    return 'f'


class SArr(_nd):
    """Array of symbolic scalars."""
    __array_priority__ = 3000.0

    def __array_finalize__(self, obj):
        self._pd = getattr(obj, '_pd', 'f')

    @property
    def dtype(self):
        return PD.get(self._pd, PD['O'])

    @property
    def raw(self):
        return self.view(_nd)

    def view(self, *a, **k):
        return _nd.view(self, *a, **k)

    # -- indexing
    def __getitem__(self, k):
        r = _nd.__getitem__(self, fix_index(k))
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        if isinstance(v, _nd):
            if v.ndim == 0:
                v = cast_to(v.view(_nd)[()] if isinstance(v, SArr)
                            else v[()], self._pd)
                put(self, k, v)
                return
            o = np.empty(v.shape, dtype=object)
            src = v.view(_nd).ravel()
            o.ravel()[:] = src if src.dtype == object else list(src)
            of = o.reshape(-1)
            for i in range(of.size):
                of[i] = cast_to(of[i], self._pd)
            _nd.__setitem__(self, k, o)
        elif isinstance(v, (list, tuple)):
            self[k] = asarr(v)
        else:
            put(self, k, cast_to(v, self._pd))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(truth(self.raw.reshape(-1)[0]))

    def __float__(self):
        return float(self.raw.reshape(-1)[0])

    def __int__(self):
        return int(self.raw.reshape(-1)[0])

    def __index__(self):
        if self.size != 1 or self.ndim:
            raise TypeError('only integer scalar arrays can be converted to a '
                            'scalar index')
        return self.raw[()].__index__()

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.raw[()], spec)
        if spec:
            raise TypeError('unsupported format string passed to '
                            'numpy.ndarray.__format__')
        return str(self)

    def __str__(self):
        return '[' + ' '.join(str(x) for x in self.raw.reshape(-1)) + ']'

    def __repr__(self):
        return 'array(%s)' % str(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, types_, args, kwargs)

    def __contains__(self, x):
        return bool(mk_or([sc2('equal', e, x) for e in self.raw.reshape(-1)]))

    # -- methods
    def astype(self, dt, copy=True, **k):
        kd = dtype_kind(dt)
        out = empty(self.shape, kd if kd in 'fib' else 'O')
        f, g = out.raw.reshape(-1), self.raw.reshape(-1)
        for i in range(g.size):
            f[i] = cast_scalar(g[i], kd)
        if kd == 'i' or kd == 'b':
            return simplify(out)
        return out

    def copy(self, *a, **k):
        r = _nd.copy(self)
        r._pd = self._pd
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return _nd.item(self, *a)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_and', self, axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_or', self, axis)

    def sum(self, axis=None, **k):
        return reduce_('add', self, axis)

    def prod(self, axis=None, **k):
        return reduce_('multiply', self, axis)

    def max(self, axis=None, **k):
        return reduce_('maximum', self, axis)

    def min(self, axis=None, **k):
        return reduce_('minimum', self, axis)

    def mean(self, axis=None, **k):
        s = reduce_('add', self, axis)
        n = self.size if axis is None else self.shape[axis]
        return s / float(n)

    def round(self, n=0, **k):
        return map1(lambda x: core.f_round(lift(x), n), self, 'f')

    def nonzero(self):
        return conc_bool(self).nonzero()

    def argmin(self, axis=None, **k):
        return argbest(self, 'less')

    def argmax(self, axis=None, **k):
        return argbest(self, 'greater')

    def argsort(self, *a, **k):
        return argsort(self)

    def sort(self, *a, **k):
        self[:] = self[argsort(self)]

    def tolist(self):
        return _nd.tolist(self.raw)

    def clip(self, lo=None, hi=None, **k):
        return h_clip(self, lo, hi)

    def dot(self, o):
        return matmul(self, o)

    def cumsum(self, *a, **k):
        return h_cumsum(self)

    def fill(self, v):
        self[...] = v

    def take(self, i, axis=None, **k):
        return self[i]

    @property
    def real(self):
        return self


def put(arr, k, v):
    """Assign one scalar object to arr[k] without unpacking it."""
    if not isinstance(v, (_nd, list, tuple)):
        _nd.__setitem__(arr, k, v)
        return
    box = np.empty((), dtype=object)
    box[()] = v
    _nd.__setitem__(arr, k, box)


def cast_to(x, pd):
    if isinstance(x, SArr) or (isinstance(x, _nd) and x.ndim == 0):
        x = x[()]
    if pd == 'f':
        if isinstance(x, SR):
            return x if x.ty == 'f' else SR(x.num, x.den, 'f')
        if isinstance(x, SB):
            return cast_scalar(x, 'f')
        if hasattr(x, '_sc2'):
            return x
        if x is None:
            return NAN
        if isinstance(x, str):
            return float_shim(x)
        y = lift(x)
        return y if isspecial(y) else SR(y.num, y.den, 'f')
    if pd == 'i':
        if issym(x):
            return cast_scalar(x, 'i')
        y = lift(x)
        if isspecial(y):
            raise ValueError('cannot convert float NaN to integer')
        return cast_scalar(y, 'i')
    if pd == 'b':
        return truth(x)
    return x


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k)
    if isinstance(k, SArr):
        if k._pd == 'b' or (k.size and all(
                isinstance(e, (SB, bool, np.bool_)) for e in k.raw.flat)):
            return conc_bool(k)
        o = np.array([e.__index__() for e in k.raw.reshape(-1)], dtype=int)
        return o.reshape(k.shape)
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, SR):
        return k.__index__()
    if isinstance(k, list) and any(issym(x) or isinstance(x, SArr)
                                   for x in k):
        return fix_index(asarr(k))
    return k


def conc_bool(a):
    """Concretise an array of symbolic booleans by forking."""
    f = a.raw.reshape(-1)
    o = np.array([bool(truth(x)) for x in f], dtype=bool)
    return o.reshape(a.shape)


def empty(shape, pd):
    o = np.empty(shape, dtype=object).view(SArr)
    o._pd = pd
    return o


def simplify(a):
    """A real bool or int array if nothing in it is symbolic."""
    if a._pd == 'b':
        f = a.raw.reshape(-1)
        if all(isinstance(x, (bool, np.bool_)) for x in f):
            return np.array([bool(x) for x in f], dtype=bool).reshape(a.shape)
    elif a._pd == 'i':
        f = a.raw.reshape(-1)
        cs = [x.const() if isinstance(x, SR) else (
            x if isinstance(x, (int, np.integer)) else None) for x in f]
        if all(c is not None for c in cs):
            return np.array([int(c) for c in cs],
                            dtype='int64').reshape(a.shape)
    return a


def flat_shape(x):
    """Shape and flat element list of nested sequences."""
    if isinstance(x, _nd):
        return x.shape, list(x.view(_nd).reshape(-1)) if not isinstance(
            x, SArr) else list(x.raw.reshape(-1))
    if isinstance(x, (list, tuple, range)) or (
            hasattr(x, '__iter__') and hasattr(x, '__len__')
            and not isinstance(x, (str, bytes, dict, SR, SB, set))
            and not hasattr(x, '_sc2')):
        parts = [flat_shape(e) for e in x]
        if not parts:
            return (0,), []
        s0 = parts[0][0]
        if any(p[0] != s0 for p in parts):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        out = []
        for p in parts:
            out.extend(p[1])
        return (len(parts),) + s0, out
    return (), [x]


def asarr(x, pd=None):
    """Make an SArr (always a new one unless x already is one)."""
    if isinstance(x, SArr) and pd is None:
        return x
    shape, flat = flat_shape(x)
    if pd is None:
        pd = x._pd if isinstance(x, SArr) else promote(
            kind_of(e) for e in flat)
        if isinstance(x, _nd) and not flat:
            pd = kind_of(x)
    o = empty((len(flat),), pd)
    raw = o.raw
    for i, e in enumerate(flat):
        raw[i] = cast_to(e, pd) if pd in 'fib' else e
    r = o.reshape(shape)
    r._pd = pd
    return r


def map1(f, a, pd):
    o = empty(a.shape, pd)
    src, dst = a.raw.reshape(-1), o.raw.reshape(-1)
    for i in range(src.size):
        dst[i] = f(src[i])
    return o if a.ndim else o.raw[()]


BOOLOPS = core.COMPARE | {'isnan', 'isfinite', 'isinf', 'logical_and',
                          'logical_or', 'logical_xor', 'logical_not',
                          'signbit'}
FLOATOPS = {'divide', 'true_divide', 'sqrt', 'sin', 'cos', 'tan', 'arcsin',
            'arccos', 'arctan', 'arctan2', 'deg2rad', 'rad2deg', 'radians',
            'degrees', 'hypot', 'exp', 'log', 'float_power', 'copysign',
            'floor', 'ceil', 'trunc', 'rint'}


def toobj(x):
    """Plain object ndarray (possibly 0-d) of a ufunc operand."""
    if isinstance(x, SArr):
        return x.raw
    if isinstance(x, _nd):
        if x.dtype == object:
            return x
        o = np.empty(x.size, dtype=object)
        o[:] = list(x.reshape(-1))
        return o.reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return asarr(x).raw
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def out_kind(name, inputs):
    if name in BOOLOPS:
        return 'b'
    ks = [kind_of(asarr(x)) if isinstance(x, (list, tuple)) else kind_of(x)
          for x in inputs]
    p = promote(ks)
    if name in FLOATOPS and p in 'fib':
        return 'f'
    if p == 'b' and name not in ('bitwise_and', 'bitwise_or', 'bitwise_xor',
                                 'invert', 'add', 'multiply', 'maximum',
                                 'minimum', 'absolute'):
        return 'i'
    return p


def garbage(pd):
    w = core.W
    w.fresh += 1
    if pd == 'b':
        return core.bvar('uninit!%d' % w.fresh)
    return core.in_real('uninit%d' % w.fresh)


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    outs = kw.pop('out', None)
    where = kw.pop('where', True)
    dt = kw.pop('dtype', None)
    if method == 'reduce':
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        return reduce_(name, asarr(inputs[0]), axis,
                       where if where is not True else None)
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return array_ufunc(ufunc, '__call__', (
            a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == 'accumulate':
        a = asarr(inputs[0])
        if a.ndim != 1:
            raise Unsupported('accumulate')
        o = empty(a.shape, a._pd)
        acc = None
        for i, e in enumerate(a.raw):
            acc = e if acc is None else sc2(name, acc, e)
            o.raw[i] = acc
        return o
    if method == 'at':
        a, k, v = inputs
        a[k] = sc2(name, a[k], v)
        return None
    if method != '__call__':
        raise Unsupported('ufunc method ' + method)
    if name == 'matmul':
        return matmul(*inputs)
    if name in ('modf', 'divmod', 'frexp'):
        return multi(name, inputs)
    objs = [toobj(x) for x in inputs]
    isarr = [x for x in list(inputs) + (
        [where] if isinstance(where, _nd) else [])]
    bw = None
    if where is not True:
        bw = toobj(where)
        allb = np.broadcast_arrays(*(objs + [bw]))
        objs, bw = allb[:-1], allb[-1]
    elif len(objs) > 1:
        objs = np.broadcast_arrays(*objs)
    shape = objs[0].shape
    pd = out_kind(name, inputs)
    dest = None
    if outs is not None:
        dest = outs[0] if isinstance(outs, tuple) else outs
        if dest is not None:
            dk = kind_of(dest)
            if (dk == 'i' and pd == 'f') or (dk == 'b' and pd in 'if'):
                raise np._core._exceptions._UFuncOutputCastingError(
                    ufunc, 'same_kind', PD[pd], PD[dk], 0)
            if dest.shape != shape:
                try:
                    objs = np.broadcast_arrays(*(list(objs) + [
                        np.empty(dest.shape, dtype=object)]))[:-1]
                    shape = objs[0].shape
                except ValueError:
                    pass
                if dest.shape != shape:
                    raise ValueError('non-broadcastable output operand with '
                                     'shape %s' % (dest.shape,))
                if bw is not None:
                    bw = np.broadcast_to(bw, shape)
    n = int(np.prod(shape)) if shape else 1
    fl = [o.reshape(-1) for o in objs]
    bwf = bw.reshape(-1) if bw is not None else None
    res = empty((n,), pd)
    raw = res.raw
    keep = []
    un = len(fl) == 1
    for i in range(n):
        if bwf is not None and not bool(truth(bwf[i])):
            keep.append(i)
            raw[i] = garbage(pd) if dest is None else None
            continue
        r = sc1(name, fl[0][i]) if un else sc2(name, fl[0][i], fl[1][i])
        if r is NotImplemented:
            raise TypeError("unsupported operand type(s) for %s" % name)
        raw[i] = r
    if pd == 'O' and n and all(isinstance(x, (SR, float)) for x in raw):
        res._pd = pd = 'f'
    if dt is not None and dtype_kind(dt) in 'fib':
        pd = dtype_kind(dt)
        for i in range(n):
            raw[i] = cast_to(raw[i], pd)
        res._pd = pd
    if dest is not None:
        df = dest.view(_nd) if isinstance(dest, SArr) else dest
        idx = list(np.ndindex(*shape)) if shape else [()]
        for i in range(n):
            if i in keep:
                continue
            v = raw[i]
            if isinstance(dest, SArr):
                put(df, idx[i], cast_to(v, dest._pd))
            elif df.dtype == bool:
                df[idx[i]] = bool(truth(v))
            elif isinstance(v, SR) and v.const() is not None:
                df[idx[i]] = float(v)
            else:
                df[idx[i]] = v
        return dest
    anyarr = any(isinstance(x, (_nd, list, tuple)) for x in isarr)
    if not shape:
        return raw[0]
    del anyarr
    res = res.reshape(shape)
    res._pd = pd
    return simplify(res) if pd == 'b' else res


def multi(name, inputs):
    objs = np.broadcast_arrays(*[toobj(x) for x in inputs])
    sh = objs[0].shape
    a, b = empty((objs[0].size,), 'f'), empty((objs[0].size,), 'f')
    for i in range(objs[0].size):
        x = lift(objs[0].reshape(-1)[i])
        if name == 'modf':
            if isspecial(x):
                p, q = x, x
            else:
                q = core.f_trunc(x)
                p = sc2('subtract', x, q)
        else:
            y = objs[1].reshape(-1)[i]
            p, q = sc2('floor_divide', x, y), sc2('remainder', x, y)
        a.raw[i], b.raw[i] = p, q
    if not sh:
        return a.raw[0], b.raw[0]
    return a.reshape(sh), b.reshape(sh)


REDINIT = {'logical_and': True, 'logical_or': False, 'add': 0.0,
           'multiply': 1.0, 'bitwise_and': True, 'bitwise_or': False}


def reduce_(name, a, axis=None, where=None):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        ax = axis % a.ndim if isinstance(axis, int) else None
        if ax is None:
            raise Unsupported('reduce over several axes')
        m = np.moveaxis(a.raw, ax, 0)
        o = empty(m.shape[1:], a._pd)
        for ix in np.ndindex(*m.shape[1:]):
            put(o.raw, ix, reduce_flat(name, [m[(j,) + ix]
                                              for j in range(m.shape[0])]))
        if name in ('logical_and', 'logical_or'):
            o._pd = 'b'
        return simplify(o)
    els = list(a.raw.reshape(-1))
    if where is not None:
        w = list(np.broadcast_to(toobj(where), a.shape).reshape(-1))
        els = [e for e, k in zip(els, w) if bool(truth(k))]
    return reduce_flat(name, els)


def reduce_flat(name, els):
    if name == 'logical_and':
        return mk_and([truth(e) for e in els])
    if name == 'logical_or':
        return mk_or([truth(e) for e in els])
    if not els:
        if name in REDINIT:
            return lift(REDINIT[name])
        raise ValueError('zero-size array to reduction operation %s which has '
                         'no identity' % name)
    if name == 'add' and all(kind_of(e) == 'b' for e in els):
        els = [cast_scalar(e, 'i') if issym(e) else int(e) for e in els]
    acc = els[0]
    for e in els[1:]:
        acc = sc2(name, acc, e)
    return acc


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    A = a.raw.reshape((1, -1)) if a.ndim == 1 else a.raw
    B = b.raw.reshape((-1, 1)) if b.ndim == 1 else b.raw
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported('matmul')
    o = empty((A.shape[0], B.shape[1]), 'f')
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            o.raw[i, j] = reduce_flat('add', [
                sc2('multiply', A[i, k], B[k, j]) for k in range(A.shape[1])])
    if a.ndim == 1:
        o = o[0]
    if b.ndim == 1:
        o = o[..., 0]
    return o


def argbest(a, op):
    f = asarr(a).raw.reshape(-1)
    b = 0
    for i in range(1, f.size):
        if bool(truth(sc2(op, f[i], f[b]))):
            b = i
    return b


def argsort(a):
    import functools
    f = list(asarr(a).raw.reshape(-1))

    def cmp(i, j):
        if bool(truth(sc2('less', f[i], f[j]))):
            return -1
        if bool(truth(sc2('less', f[j], f[i]))):
            return 1
        return 0
    return np.array(sorted(range(len(f)), key=functools.cmp_to_key(cmp)),
                    dtype=int)


# ------------------------------------------------ __array_function__ cases ----
def isnan1(x):
    if isinstance(x, (SR, SB)):
        return False
    r = sc1('isnan', x)
    return bool(r)


def h_where(cond, x=None, y=None):
    c = asarr(cond)
    if x is None:
        cb = conc_bool(c)
        return np.nonzero(np.atleast_1d(cb)) if cb.ndim == 0 else np.nonzero(
            cb)
    bx, by, bc = np.broadcast_arrays(toobj(x), toobj(y), c.raw)
    pd = promote([kind_of(asarr(x)), kind_of(asarr(y))])
    o = empty((bx.size,), pd)
    for i in range(bx.size):
        v = bx.reshape(-1)[i] if bool(truth(bc.reshape(-1)[i])) \
            else by.reshape(-1)[i]
        o.raw[i] = cast_to(v, pd) if pd in 'fib' else v
    o = o.reshape(bx.shape)
    o._pd = pd
    return simplify(o) if pd != 'f' else o


def h_isin(el, test, assume_unique=False, invert=False, **k):
    e = asarr(el)
    ts = flat_shape(test)[1]
    o = empty(e.shape, 'b')
    src, dst = e.raw.reshape(-1), o.raw.reshape(-1)
    for i in range(src.size):
        r = mk_or([sc2('equal', src[i], t) for t in ts])
        dst[i] = neg(r) if invert else r
    return simplify(o) if e.ndim else o.raw[()]


def h_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = array_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = array_ufunc(np.minimum, '__call__', (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


def h_unique(a, return_index=False, return_inverse=False,
             return_counts=False, **k):
    f = list(asarr(a).raw.reshape(-1))
    order = list(argsort(asarr(f))) if f else []
    vals, idx, inv = [], [], [0] * len(f)
    cnt = []
    for i in order:
        if vals and bool(truth(sc2('equal', f[i], vals[-1]))):
            idx[-1] = min(idx[-1], int(i))
            cnt[-1] += 1
        else:
            vals.append(f[i])
            idx.append(int(i))
            cnt.append(1)
        inv[i] = len(vals) - 1
    v = asarr(vals)
    if kind_of(v) in 'ib':
        v = simplify(v)
    out = [v]
    if return_index:
        out.append(np.array(idx, dtype=int))
    if return_inverse:
        out.append(np.array(inv, dtype=int))
    if return_counts:
        out.append(np.array(cnt, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def h_concat(arrs, axis=0, **k):
    arrs = [asarr(a) for a in arrs]
    pd = promote(a._pd for a in arrs if a.size) if any(
        a.size for a in arrs) else arrs[0]._pd
    r = np.concatenate([a.raw for a in arrs], axis=axis).view(SArr)
    r._pd = pd
    return r


def h_stack(f):
    def g(arrs, *a, **k):
        arrs = [asarr(x) for x in arrs]
        r = f([x.raw for x in arrs], *a, **k).view(SArr)
        r._pd = promote(x._pd for x in arrs)
        return r
    return g


def h_nanred(name):
    def g(a, axis=None, **k):
        a = asarr(a)
        if axis is not None and a.ndim > 1:
            raise Unsupported('nan reduction over an axis')
        els = [e for e in a.raw.reshape(-1) if not isnan1(e)]
        if not els:
            return NAN if name != 'add' else lift(0.0)
        return reduce_flat(name, els)
    return g


def h_nanmean(a, axis=None, **k):
    els = [e for e in asarr(a).raw.reshape(-1) if not isnan1(e)]
    return reduce_flat('add', els) / float(len(els)) if els else NAN


def h_like(maker):
    def g(a, dtype=None, shape=None, **k):
        pd = dtype_kind(dtype) or kind_of(a)
        sh = np.shape(a) if shape is None else shape
        return filled(sh, maker, pd)
    return g


def filled(shape, val, pd):
    if isinstance(shape, _nd) and shape.ndim:
        shape = tuple(int(x) for x in shape.reshape(-1))
    if isinstance(shape, (SR, SArr)):
        shape = int(shape.__index__())
    o = empty(shape, pd)
    f = o.raw.reshape(-1) if o.ndim else None
    v = cast_to(val, pd) if pd in 'fib' else val
    if f is None:
        put(o.raw, (), v)
    else:
        for i in range(f.size):
            f[i] = v
    return o


def h_full_like(a, fill_value, dtype=None, shape=None, **k):
    pd = dtype_kind(dtype) or kind_of(a)
    return filled(np.shape(a) if shape is None else shape, fill_value, pd)


def h_copy(a, *r, **k):
    return asarr(a).copy()


def h_array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(reduce_flat('logical_and', [
        sc2('equal', x, y) for x, y in zip(a.raw.reshape(-1),
                                           b.raw.reshape(-1))]))


def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = abs(asarr(a) - asarr(b))
    return d <= (atol + rtol * abs(asarr(b)))


def h_nonzero(a):
    return conc_bool(asarr(a)).nonzero()


def h_cumsum(a, *r, **k):
    f = asarr(a).raw.reshape(-1)
    o = empty((f.size,), kind_of(a))
    acc = lift(0)
    for i, e in enumerate(f):
        acc = sc2('add', acc, e)
        o.raw[i] = acc
    return o


def h_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    return a[1:] - a[:-1]


def h_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    return map1(lambda e: lift(nan) if isnan1(e) else e, a, a._pd)


def h_append(a, v, axis=None):
    return h_concat([asarr(a).reshape(-1), asarr(v).reshape(-1)])


def h_select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))):
        r = h_where(c, v, r)
    return r


def h_argwhere(a):
    return np.argwhere(conc_bool(asarr(a)))


def h_norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2):
        raise Unsupported('norm')
    a = asarr(x)
    s = reduce_('add', a * a, axis)
    return array_ufunc(np.sqrt, '__call__', (s,), {})


def h_searchsorted(a, v, side='left', **k):
    a = list(asarr(a).raw.reshape(-1))
    va = asarr(v)
    op = 'less' if side == 'left' else 'less_equal'

    def one(x):
        n = 0
        while n < len(a) and bool(truth(sc2(op, a[n], x))):
            n += 1
        return n
    if va.ndim == 0:
        return one(va.raw[()])
    return np.array([one(x) for x in va.raw.reshape(-1)], dtype=int)


def h_delete(a, k, axis=None):
    a = asarr(a)
    r = np.delete(a.raw, fix_index(k), axis).view(SArr)
    r._pd = a._pd
    return r


def h_insert(a, k, v, axis=None):
    a = asarr(a)
    r = np.insert(a.raw, k, toobj(v), axis).view(SArr)
    r._pd = a._pd
    return r


def h_raw(f):
    """Shape-only numpy functions."""
    def g(a, *r, **k):
        a = asarr(a)
        o = f(a.raw, *r, **k)
        if isinstance(o, _nd):
            o = o.view(SArr)
            o._pd = a._pd
        return o
    return g


def h_broadcast_arrays(*arrs, **k):
    arrs = [asarr(a) for a in arrs]
    out = []
    for a, r in zip(arrs, np.broadcast_arrays(*[a.raw for a in arrs])):
        r = np.array(r, dtype=object).view(SArr)
        r._pd = a._pd
        out.append(r)
    return out


def h_meshgrid(*arrs, **k):
    arrs = [asarr(a) for a in arrs]
    out = []
    for a, r in zip(arrs, np.meshgrid(*[a.raw for a in arrs], **k)):
        r = r.view(SArr)
        r._pd = a._pd
        out.append(r)
    return out


def h_count_nonzero(a, **k):
    return int(conc_bool(asarr(a)).sum())


def h_shape(a):
    return np.shape(a.raw) if isinstance(a, SArr) else ()


def h_atleast_1d(*arrs):
    out = []
    for a in arrs:
        a = asarr(a)
        out.append(a.reshape((1,)) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


def h_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        m = fix_index(where if isinstance(where, _nd) else asarr(where))
        s = np.broadcast_to(toobj(src), dst.shape)
        for ix in np.ndindex(*dst.shape):
            if np.broadcast_to(m, dst.shape)[ix]:
                dst[ix] = s[ix]


def h_mean(a, axis=None, **k):
    return asarr(a).mean(axis=axis)


def h_median(a, **k):
    a = asarr(a).reshape(-1)
    s = a[argsort(a)]
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) * 0.5


def h_round(a, decimals=0, **k):
    a = asarr(a)
    return map1(lambda e: e if isnan1(e) else core.f_round(lift(e), decimals),
                a, 'f')


def h_putmask(a, mask, v):
    m = conc_bool(asarr(mask))
    vv = np.broadcast_to(toobj(v), a.shape)
    for ix in np.ndindex(*a.shape):
        if m[ix]:
            a[ix] = vv[ix]


def h_place(a, mask, vals):
    a[conc_bool(asarr(mask))] = vals


def h_piecewise(x, conds, funcs, *a, **k):
    x = asarr(x)
    o = filled(x.shape, 0.0, 'f')
    cs = [conc_bool(asarr(c)) for c in conds]
    if len(funcs) == len(cs) + 1:
        rest = np.ones(x.shape, dtype=bool)
        for c in cs:
            rest &= ~c
        cs.append(rest)
    for c, f in zip(cs, funcs):
        o[c] = f(x[c], *a, **k) if callable(f) else f
    return o


def h_interp(x, xp, fp, **k):
    raise Unsupported('interp')


def h_apply_nan_arg(op):
    def g(a, **k):
        f = asarr(a).raw.reshape(-1)
        b = None
        for i, e in enumerate(f):
            if isnan1(e):
                continue
            if b is None or bool(truth(sc2(op, e, f[b]))):
                b = i
        if b is None:
            raise ValueError('All-NaN slice encountered')
        return b
    return g


HANDLERS = {
    'any': lambda a, axis=None, **k: reduce_('logical_or', a, axis),
    'all': lambda a, axis=None, **k: reduce_('logical_and', a, axis),
    'sum': lambda a, axis=None, **k: reduce_('add', a, axis),
    'prod': lambda a, axis=None, **k: reduce_('multiply', a, axis),
    'max': lambda a, axis=None, **k: reduce_('maximum', a, axis),
    'amax': lambda a, axis=None, **k: reduce_('maximum', a, axis),
    'min': lambda a, axis=None, **k: reduce_('minimum', a, axis),
    'amin': lambda a, axis=None, **k: reduce_('minimum', a, axis),
    'nansum': h_nanred('add'), 'nanmax': h_nanred('maximum'),
    'nanmin': h_nanred('minimum'), 'nanmean': h_nanmean, 'mean': h_mean,
    'average': h_mean, 'median': h_median, 'where': h_where, 'isin': h_isin,
    'in1d': h_isin, 'clip': h_clip, 'unique': h_unique,
    'concatenate': h_concat, 'append': h_append,
    'stack': h_stack(np.stack), 'vstack': h_stack(np.vstack),
    'hstack': h_stack(np.hstack), 'column_stack': h_stack(np.column_stack),
    'dstack': h_stack(np.dstack),
    'zeros_like': h_like(0.0), 'ones_like': h_like(1.0),
    'empty_like': h_like(0.0), 'full_like': h_full_like, 'copy': h_copy,
    'array_equal': h_array_equal, 'isclose': h_isclose,
    'allclose': lambda a, b, **k: reduce_('logical_and', h_isclose(a, b, **k)),
    'nonzero': h_nonzero, 'flatnonzero': lambda a: h_nonzero(
        asarr(a).reshape(-1))[0], 'argwhere': h_argwhere,
    'argmin': lambda a, *r, **k: argbest(a, 'less'),
    'argmax': lambda a, *r, **k: argbest(a, 'greater'),
    'nanargmin': h_apply_nan_arg('less'),
    'nanargmax': h_apply_nan_arg('greater'),
    'argsort': lambda a, *r, **k: argsort(a),
    'sort': lambda a, *r, **k: asarr(a)[argsort(a)],
    'cumsum': h_cumsum, 'diff': h_diff, 'nan_to_num': h_nan_to_num,
    'select': h_select, 'norm': h_norm, 'searchsorted': h_searchsorted,
    'delete': h_delete, 'insert': h_insert, 'shape': h_shape,
    'count_nonzero': h_count_nonzero, 'broadcast_arrays': h_broadcast_arrays,
    'meshgrid': h_meshgrid, 'atleast_1d': h_atleast_1d, 'copyto': h_copyto,
    'ndim': lambda a: a.ndim, 'size': lambda a, axis=None: a.size,
    'dot': matmul, 'round': h_round, 'around': h_round, 'putmask': h_putmask,
    'place': h_place, 'piecewise': h_piecewise, 'interp': h_interp,
    'sign': lambda a: array_ufunc(np.sign, '__call__', (a,), {}),
    'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True,
    'outer': lambda a, b: array_ufunc(np.multiply, 'outer', (a, b), {}),
    'real': lambda a: a, 'trim_zeros': None, 'fix': lambda a: array_ufunc(
        np.trunc, '__call__', (a,), {}),
    'isscalar': lambda a: not isinstance(a, _nd),
    'result_type': lambda *a: PD[promote(kind_of(x) for x in a)],
    'iterable': lambda a: isinstance(a, _nd) and a.ndim > 0,
    'ediff1d': h_diff,
    'take': lambda a, i, axis=None, **k: asarr(a)[i],
    'extract': lambda c, a: asarr(a)[asarr(c)],
    'isneginf': lambda a: asarr(a) == -np.inf,
    'isposinf': lambda a: asarr(a) == np.inf,
    'angle': None,
}
for _f in ('reshape', 'ravel', 'squeeze', 'transpose', 'expand_dims',
           'swapaxes', 'moveaxis', 'repeat', 'tile', 'flip', 'roll',
           'broadcast_to', 'atleast_2d', 'fliplr', 'flipud', 'rot90',
           'resize', 'split', 'array_split'):
    if hasattr(np, _f):
        HANDLERS[_f] = h_raw(getattr(np, _f))


def array_function(func, types_, args, kwargs):
    h = HANDLERS.get(func.__name__)
    if h is not None:
        return h(*args, **kwargs)
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported('numpy.%s' % func.__name__)
    try:
        return impl(*args, **kwargs)
    except (TypeError, AttributeError) as e:
        raise Unsupported('numpy.%s: %s' % (func.__name__, e))


def scalar_getitem(x, k):
    """Index a numpy-scalar look-alike the way numpy scalars are indexed."""
    if k == () or k is Ellipsis:
        return x
    if k is None:
        return asarr(x).reshape((1,))
    if isinstance(k, tuple) and all(e is None for e in k):
        return asarr(x).reshape((1,) * len(k))
    if isinstance(k, (SB, bool, np.bool_)):
        return asarr(x)[fix_index(k)]
    raise IndexError('invalid index to scalar variable.')


# ------------------------------------------------------ builtins look-alikes --
class _FMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, cls._real):
            return True
        return isinstance(o, SR) and o.ty == cls._ty

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls._real or o is cls

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)


def float_shim(x=0.0):
    if isinstance(x, SArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python '
                            'scalars')
        x = x.raw.reshape(-1)[0]
    if isinstance(x, SR):
        return SR(x.num, x.den, 'f')
    if isinstance(x, SB):
        return cast_scalar(x, 'f')
    if hasattr(x, '_sc2'):
        return x._sc1('float')
    if isinstance(x, str):
        t = core.number_text(x)
        if t is not None:
            return SR(t.num, t.den, 'f')
    return float(x)


def int_shim(x=0, *base):
    if isinstance(x, SArr):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python '
                            'scalars')
        x = x.raw.reshape(-1)[0]
    if isinstance(x, SR):
        r = cast_scalar(x, 'i')
        c = r.const()
        return r if c is None else int(c)
    if isinstance(x, SB):
        return int(x)
    if hasattr(x, '_sc2'):
        return x._sc1('int')
    if isinstance(x, str):
        t = core.number_text(x)
        if t is not None:
            if t.ty != 'i':
                raise ValueError('invalid literal for int()')
            return t
    return int(x, *base)


class FloatShim(metaclass=_FMeta):
    _real, _ty = float, 'f'

    def __new__(cls, *a):
        return float_shim(*a)


class IntShim(metaclass=_FMeta):
    _real, _ty = int, 'i'

    def __new__(cls, *a, **k):
        return int_shim(*a, **k)


# ---------------------------------------------------------------- proxy -------
def has_sym(x, depth=3):
    if issym(x) or isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(e, depth - 1) for e in x)
    return False


def p_asarray(a, dtype=None, **k):
    if isinstance(a, SArr):
        if dtype is None or dtype_kind(dtype) == a._pd:
            return a
        return a.astype(dtype)
    return p_make(a, dtype, copy=False)


def p_array(a, dtype=None, copy=True, **k):
    if isinstance(a, SArr):
        if dtype is not None and dtype_kind(dtype) != a._pd:
            return a.astype(dtype)
        r = a.copy()
        nd = k.get('ndmin', 0)
        if r.ndim < nd:
            r = r.reshape((1,) * (nd - r.ndim) + r.shape)
        return r if copy else a
    return p_make(a, dtype, copy=True, **k)


def p_make(a, dtype, copy, **k):
    rd = real_dtype(dtype)
    kd = dtype_kind(dtype) if dtype is not None and not isinstance(
        rd, list) else None
    if has_sym(a):
        if issym(a) and not isinstance(a, (SR, SB)):
            pass
        return asarr(a, kd if kd in ('f', 'i', 'b') else None)
    if isinstance(a, _nd) and not copy and (
            rd is None or a.dtype == np.dtype(rd)):
        return a
    r = np.array(a, dtype=rd, **k) if rd is not None else np.array(a, **k)
    if r.dtype.kind == 'f':
        return asarr(r, 'f')
    if r.dtype.kind == 'O' and r.size and has_sym(list(r.reshape(-1))):
        return asarr(a)
    return r


def p_full(shape, fill_value, dtype=None, **k):
    kd = dtype_kind(dtype)
    if isinstance(fill_value, _nd) and fill_value.ndim:
        o = filled(shape, 0.0, kd or kind_of(fill_value))
        o[...] = fill_value
        return o
    if isinstance(fill_value, _nd):
        fill_value = fill_value.view(_nd)[()] if isinstance(
            fill_value, SArr) else fill_value[()]
    if isinstance(fill_value, (list, tuple)):
        fa = p_array(fill_value)
        if isinstance(fa, SArr):
            o = filled(shape, 0.0, fa._pd)
            o[...] = fa
            return o
        return np.full(shape, fill_value)
    pd = kd or kind_of(fill_value)
    if pd == 'f' or issym(fill_value):
        return filled(shape, fill_value, pd if pd in 'fib' else 'O')
    return np.full(fix_shape(shape), fill_value,
                   **({} if dtype is None else {'dtype': real_dtype(dtype)}))


def fix_shape(s):
    if isinstance(s, SR):
        return s.__index__()
    return s


def p_zeros(shape, dtype=None, **k):
    kd = dtype_kind(dtype) or 'f'
    return filled(shape, 0.0, 'f') if kd == 'f' else np.zeros(
        fix_shape(shape), dtype=real_dtype(dtype))


def p_ones(shape, dtype=None, **k):
    kd = dtype_kind(dtype) or 'f'
    return filled(shape, 1.0, 'f') if kd == 'f' else np.ones(
        fix_shape(shape), dtype=real_dtype(dtype))


def p_empty(shape, dtype=None, **k):
    kd = dtype_kind(dtype) or 'f'
    if kd == 'f':
        o = empty(shape, 'f')
        for ix in np.ndindex(*o.shape):
            put(o.raw, ix, garbage('f'))
        return o
    return np.empty(fix_shape(shape), dtype=real_dtype(dtype))


def p_like(maker):
    def g(a, dtype=None, **k):
        a = p_asarray(a)
        pd = dtype_kind(dtype) or kind_of(a)
        if pd == 'f' or isinstance(a, SArr):
            if pd in ('b', 'i'):
                return simplify(filled(a.shape, maker, pd))
            return filled(a.shape, maker, 'f' if pd == 'f' else pd)
        return np.full_like(a, maker, dtype=real_dtype(dtype))
    return g


def p_full_like(a, fill_value, dtype=None, **k):
    a = p_asarray(a)
    return p_full(a.shape, fill_value, dtype or (
        PD[kind_of(a)] if kind_of(a) in 'fib' else None))


def p_arange(*a, **k):
    if any(issym(x) for x in a):
        raise Unsupported('arange over symbolic limits')
    if 'dtype' in k:
        k['dtype'] = real_dtype(k['dtype'])
    return np.arange(*a, **k)


def p_linspace(a, b, num=50, endpoint=True, **k):
    if not (issym(a) or issym(b)):
        return asarr(np.linspace(a, b, num, endpoint), 'f')
    d = num - 1 if endpoint else num
    return asarr([a + (b - a) * i / d for i in range(num)], 'f')


class Vectorize(object):
    def __init__(self, f, otypes=None, **k):
        self.f = f

    def __call__(self, *args):
        objs = np.broadcast_arrays(*[toobj(a) for a in args])
        vals = [self.f(*[o.reshape(-1)[i] for o in objs])
                for i in range(objs[0].size)]
        r = asarr(vals).reshape(objs[0].shape)
        return r


class _Test(object):
    pass


CREATE = {'asarray': p_asarray, 'asanyarray': p_asarray, 'array': p_array,
          'ascontiguousarray': p_asarray,
          'asfarray': lambda a, **k: p_asarray(a, float),
          'full': p_full, 'zeros': p_zeros, 'ones': p_ones, 'empty': p_empty,
          'zeros_like': p_like(0.0), 'ones_like': p_like(1.0),
          'empty_like': p_like(0.0), 'full_like': p_full_like,
          'arange': p_arange, 'linspace': p_linspace, 'vectorize': Vectorize,
          'float64': FloatShim, 'double': FloatShim}


class _UF(object):
    """A ufunc that also accepts lists of symbolic values."""

    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        a = [asarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else x
             for x in a]
        if any(isinstance(x, (_nd, SR, SB)) or hasattr(x, '_sc2')
               for x in list(a) + list(k.values())):
            if not any(issym(x) or isinstance(x, SArr)
                       for x in list(a) + list(k.values())):
                return self._f(*a, **k)
            return array_ufunc(self._f, '__call__', tuple(a), k)
        if self._f.__name__ in FLOATOPS and a and all(
                isinstance(x, (int, float, np.number)) for x in a):
            # keep constants such as radians(90.0) exact
            try:
                r = array_ufunc(self._f, '__call__', tuple(a), k)
                if isinstance(r, SR):
                    return r
            except Unsupported:
                pass
        return self._f(*a, **k)

    def __getattr__(self, k):
        return getattr(self._f, k)


class NPProxy(types.ModuleType):
    """Stands in for the numpy module."""

    def __init__(self, extra=None):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_extra'] = dict(extra or {})
        self.__dict__['_cache'] = {}

    def __getattr__(self, k):
        if k in self._extra:
            return self._extra[k]
        if k in CREATE:
            return CREATE[k]
        c = self._cache
        if k in c:
            return c[k]
        v = getattr(np, k)
        if isinstance(v, np.ufunc):
            v = _UF(v)
        elif k == 'linalg':
            v = _Linalg()
        elif callable(v) and not isinstance(v, type):
            v = wrap_func(v)
        c[k] = v
        return v


class _Linalg(object):
    norm = staticmethod(lambda x, *a, **k: h_norm(x, *a, **k)
                        if has_sym(x) else np.linalg.norm(x, *a, **k))

    def __getattr__(self, k):
        return getattr(np.linalg, k)


def wrap_func(f):
    name = getattr(f, '__name__', '')
    h = HANDLERS.get(name)

    def g(*a, **k):
        k = {kk: real_dtype(v) if kk == 'dtype' else v for kk, v in k.items()}
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if h is not None:
                return h(*a, **k)
            a = [asarr(x) if isinstance(x, (list, tuple)) and has_sym(x)
                 else x for x in a]
        return f(*a, **k)
    g.__name__ = name
    return g


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    def __getattr__(self, k):
        v = getattr(math, k)
        if not callable(v):
            return v

        def g(*a):
            if not any(issym(x) or isinstance(x, SArr) for x in a):
                if k in ('cos', 'sin', 'sqrt', 'radians', 'tan'):
                    try:
                        return sc1(k if k != 'radians' else 'deg2rad',
                                   lift(a[0]))
                    except Unsupported:
                        pass
                return v(*a)
            a = [x.raw.reshape(-1)[0] if isinstance(x, SArr) else x
                 for x in a]
            alias = {'fabs': 'absolute', 'atan2': 'arctan2', 'acos': 'arccos',
                     'asin': 'arcsin', 'atan': 'arctan', 'pow': 'power',
                     'fmod': 'fmod', 'degrees': 'rad2deg',
                     'radians': 'deg2rad'}
            nm = alias.get(k, k)
            if k == 'hypot':
                return sc2('hypot', *a)
            if k in ('floor', 'ceil', 'trunc'):
                return core.as_int(sc1(nm, a[0]))
            if k == 'modf':
                return multi('modf', a)
            if len(a) == 1:
                r = sc1(nm, a[0])
                if k in ('sqrt', 'acos', 'asin') and isspecial(r):
                    raise ValueError('math domain error')
                return r
            return sc2(nm, *a)
        return g


NP = NPProxy()
MATH = MathProxy()
