"""Reading tables of text whose numbers may be symbolic.

genfromtxt itself (numpy) splits the file into columns; each column is then
converted the way numpy would, except that tokens become the symbolic numbers
they stand for.
"""
import numpy as np

from . import core, npshim


class Text(str):
    """Element of an array of strings."""
    shape = ()
    ndim = 0

    def astype(self, t):
        t = npshim.real_dtype(t)
        if isinstance(t, str) or (isinstance(t, type)
                                  and issubclass(t, str)):
            return np.array(str(self)).astype(t)[()]
        x = core.number_text(self)
        if x is None:
            return np.array(str(self)).astype(t)[()]
        if np.dtype(t).kind == 'i':
            if x.ty != 'i':
                raise ValueError('invalid literal for int()')
            return x
        return core.SR(x.num, x.den, 'f')


def column(vals, t):
    kind = np.dtype(t).kind
    if kind in 'US':
        return np.array([str(v) for v in vals]).astype(t)
    out = []
    for v in vals:
        try:
            out.append(Text(v).astype(t))
        except ValueError:
            out.append(np.nan if kind == 'f' else -1)
    if any(isinstance(x, core.SR) for x in out):
        return npshim.asarr(out)
    return np.array(out, dtype=t)


class Table(object):
    """Structured array: one array per column."""

    def __init__(self, names, cols, scalar):
        self.__dict__['_names'] = tuple(names)
        for n, c in zip(names, cols):
            self.__dict__[n] = c.reshape(()) if scalar else c
        self.__dict__['shape'] = () if scalar else (len(cols[0]),)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return 1 if not self.shape else self.shape[0]

    @property
    def dtype(self):
        class D(object):
            names = self._names
        return D

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.__dict__[k]
        raise core.Unsupported('rows of a structured array')

    def row(self):
        return Table(self._names, [np.reshape(self.__dict__[n], (-1,))
                                   for n in self._names], False)

    def reshape(self, *sh):
        if sh in ((-1,), ((-1,),), (1,), ((1,),)):
            return self.row()
        raise core.Unsupported('reshape of a structured array')


def genfromtxt(fname, dtype=float, **kw):
    kw.setdefault('encoding', 'utf-8')
    ndmin = kw.pop('ndmin', 0)
    dt = npshim.real_dtype(dtype)
    if isinstance(dt, list):
        raw = np.genfromtxt(fname, dtype=str, **kw)
        raw = np.reshape(raw, (-1, len(dt)))
        cols = [column(list(raw[:, i]), dt[i][1]) for i in range(len(dt))]
        return Table([d[0] for d in dt], cols, len(raw) == 1 and ndmin == 0)
    raw = np.genfromtxt(fname, dtype=str, ndmin=ndmin, **kw)
    if dt is str:
        out = np.empty(raw.shape, dtype=object)
        f, r = out.reshape(-1), raw.reshape(-1)
        for i in range(f.size):
            f[i] = Text(r[i])
        return out
    c = column(list(raw.reshape(-1)), dt)
    return c.reshape(raw.shape)


def loadtxt(fname, dtype=float, **kw):
    kw.setdefault('encoding', 'utf-8')
    raw = np.loadtxt(fname, dtype=str, **kw)
    dt = npshim.real_dtype(dtype)
    if isinstance(dt, list):
        raise core.Unsupported('structured loadtxt')
    c = column([v.strip() for v in raw.reshape(-1).tolist()], dt)
    return c.reshape(raw.shape)


class Rec(object):
    @staticmethod
    def array(x, *a, **k):
        return x if isinstance(x, Table) else np.rec.array(x, *a, **k)

    def __getattr__(self, k):
        return getattr(np.rec, k)


def atleast_1d(*a):
    f = npshim.wrap_func(np.atleast_1d)
    if len(a) == 1 and isinstance(a[0], Table):
        return a[0] if a[0].shape else a[0].row()
    return f(*a)


def ravel(x, *a, **k):
    if isinstance(x, Table):
        return x.row()
    return npshim.wrap_func(np.ravel)(x, *a, **k)


def reshape(x, *a, **k):
    if isinstance(x, Table):
        return x.reshape(*a)
    return npshim.wrap_func(np.reshape)(x, *a, **k)


npshim.CREATE.update(genfromtxt=genfromtxt, loadtxt=loadtxt, rec=Rec(), atleast_1d=atleast_1d,
                     ravel=ravel, reshape=reshape)
