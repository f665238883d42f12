"""C27: boundary columns added to pysat data."""
import copy
import datetime as dt

from checks.c17 import free_angle
from checks.writer import START, bounds, expect, printed, swapped, user
from symx.harness import flat

BOUNDS = ('1-3 rows at 1-3 times (repeated times included) with free values, '
          'positions in either hemisphere, NaN in any column, 1-2 boundary '
          'records with free times around them and free radii, typical '
          'latitude and normalised locations, every quality pattern; OCB, EAB '
          'and dual boundaries; scalar variables of both kinds and up to two '
          'vectors; a boundary passed in or loaded for the data period; '
          'pandas data.')
OUTSIDE = ('xarray data and its broadcasting of coordinates; metadata; the '
           'normalised location (C01, C20) and the rotation of vectors '
           '(C14-C17); geographic input (C31, C33).')
ASSUMPTIONS = ('The Instrument is a stand-in with the used part of pysat\'s '
               'interface: symbolic columns, in replays a pandas DataFrame.',
               'normal_coord and calc_vec_pole_angle are replaced by '
               'uninterpreted functions (decided by C01, C20, C15).')
VEC = ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag', 'unscaled_r', 'scaled_r')


class Index(object):
    name = 'time'

    def __init__(self, h, times):
        self.a = h.np_().array(times)
        self.shape = (len(times),)

    def __getitem__(self, k):
        return self.a[k]

    def __len__(self):
        return self.shape[0]


class Columns(object):
    """The selected columns of a table."""

    def __init__(self, h, cols):
        self.h, self.cols = h, cols

    def max(self, axis=None):
        assert axis == 1
        out = []
        for row in zip(*[flat(c) for c in self.cols]):
            good = [x for x in row if not self.h.is_nan(x)]
            out.append(good[0] if good else self.h.nan())
        return self.h.arr(out)


class Data(object):
    """Table of symbolic columns."""

    def __init__(self, h, cols, times):
        self.h, self.cols, self.index = h, cols, Index(h, times)

    def assign(self, **kw):
        out = Data(self.h, dict(self.cols, **kw), [])
        out.index = self.index
        return out

    @property
    def columns(self):
        return list(self.cols)

    def __getitem__(self, k):
        return self.cols[k]


class Instrument(object):
    pandas_format = True

    def __init__(self, h, cols, times):
        self.h = h
        if h.sym:
            self.data = Data(h, {k: h.arr(v) for k, v in cols.items()},
                             times)
        else:
            import pandas as pd
            self.data = pd.DataFrame(
                {k: h.arr(v) for k, v in cols.items()},
                index=pd.DatetimeIndex(times, name='time'))

    @property
    def variables(self):
        return list(self.data.columns)

    @property
    def index(self):
        return self.data.index

    def __getitem__(self, k):
        if isinstance(k, tuple):
            assert k[0] == slice(None)
            k = k[1]
            if not isinstance(k, str):
                if not self.h.sym:
                    return self.data.loc[:, k]
                return Columns(self.h, [self.data[x] for x in k])
        if isinstance(k, list) and self.h.sym:
            return Columns(self.h, [self.data[x] for x in k])
        return self.data[k]

    def __setitem__(self, k, v):
        self.data = self.data.assign(**{k: v})


class Pysat(object):
    Instrument = Instrument


def columns(h, n, hemis, nan, what):
    c = {'mlat': [], 'mlt': []}
    for i in range(n):
        c['mlat'].append(h.real('mlat%d' % i, 50, 89) * hemis[i])
        c['mlt'].append(h.real('mlt%d' % i, 13, 23))
        m = h.real('m%d' % i, 0.01, 50)
        for k, v in (('vn', m * 3), ('ve', m * (-4 if i % 2 else 4)),
                     ('dn', m * -8), ('de', m * 6)):
            c.setdefault(k, []).append(v)
        for k in ('vz', 'ev', 'cu', 'other'):
            c.setdefault(k, []).append(h.real('%s%d' % (k, i), -50, 50))
    for i, k in nan:
        c[k][i] = h.nan()
    return c


def add_data(h, **k):
    with free_angle(h, True):
        body(h, **k)


def body(h, cls='OCBoundary', hemi=1, offs=(0,), hemis=None, nb=1,
             good=(1, 1), tol=120, start=-1, nan=(), ask=0, own=True, kw='',
             what='ec'):
    import ocbpy
    from ocbpy import ocb_scaling
    from ocbpy.instruments import pysat_instruments as mod
    n = len(offs)
    hemis = hemis or [hemi] * n
    b, bt, rad, blat = bounds(h, cls, hemi, nb, good, start, offs,
                              simple=True)
    for x in (b.ocb, b.eab) if cls == 'DualBoundary' else (b,):
        x.filename = 'somewhere'
        x.instrument = 'image'
    cols = columns(h, n, hemis, nan, what)
    rows = [{k: v[i] for k, v in cols.items()} for i in range(n)]
    inst = Instrument(h, cols, [START + dt.timedelta(seconds=x)
                                for x in offs])
    use = [i for i in range(n)
           if hemis[i] == hemi and (i, 'mlat') not in nan]
    match = dict(zip(use, expect(h, [offs[i] for i in use], bt, good, tol,
                                 start)))
    args = dict(mlat_name='mlat', mlt_name='mlt', max_sdiff=tol)
    ev, cu, vec = [], [], {}
    if 'e' in what:
        ev.append('ev')
    if 'c' in what:
        cu.append('cu')
    if 'v' in what:
        vec['vel'] = {'vect_n': 'vn', 'vect_e': 've', 'vect_z': 'vz',
                      'dat_name': 'velocity', 'dat_units': 'm/s'}
        ev.append('vel')
    if 'w' in what:
        vec['wel'] = {'vect_n': 'dn', 'vect_e': 'de'}
        cu.insert(0, 'wel')
    if 'd' in what:
        vec['dat'] = {'vect_n': 'dn', 'vect_e': 'de', 'scale_func': user}
    if 'n' in what:
        vec['nat'] = {'vect_e': 'dn', 'vect_z': 'vz', 'scale_func': None}
    if ev:
        args['evar_names'] = ev
    if cu:
        args['curl_evar_names'] = cu
    if vec:
        args['vector_names'] = vec
    if kw == 'merit':
        b.max_fom = 10.0
        args['max_merit'] = 4.0
    elif kw == 'attr':
        b.max_fom = 10.0
        args['fom'] = ('maxeq', 3.0)
    if ask:
        args['hemisphere'] = hemi
    before = copy.deepcopy((ev, cu, vec))
    old = inst.data
    loads, meta = [], []

    class Loader(object):
        def __new__(cls_, *a, **k):
            loads.append((a, k))
            return b
    swap = dict(pysat=Pysat, add_ocb_to_metadata=lambda *a, **k: meta.append(
        (a, k)))
    with swapped(mod, **swap):
        if own is True:
            out = mod.add_ocb_to_data(inst, ocb=b, **args)
        else:
            with swapped(ocbpy, **{cls: Loader}):
                args.update(ocbfile=own or 'place/x_%s.dat' % cls[:3].lower(),
                            instrument='image')
                if len({hemis[i] for i in range(n)
                        if (i, 'mlat') not in nan}) > 1 and not ask:
                    h.raises(ValueError, lambda: mod.add_ocb_to_data(
                        inst, **args), 'both hemispheres')
                    return
                mod.add_ocb_to_data(inst, **args)
            a, k = loads[0]
            h.check(len(loads) == 1 and a == (
                'default' if own else args['ocbfile'],)
                    and k['instrument'] == 'image'
                    and k['hemisphere'] == hemi,
                    'boundaries of the hemisphere are loaded')
            h.check(k['stime'] <= START + dt.timedelta(
                seconds=min(offs) - tol), 'loaded from early enough')
            h.check(k['etime'] >= START + dt.timedelta(
                seconds=max(offs) + tol), 'loaded until late enough')
    h.check((ev, cu, vec) == before, 'arguments of the caller')
    bn = {'OCBoundary': 'ocb', 'EABoundary': 'eab',
          'DualBoundary': 'dualb'}[cls]
    for k, v in cols.items():
        for i, x in enumerate(column(h, inst, k)):
            h.same(x, v[i], 'original column')
    names = ['mlat_' + bn, 'mlt_' + bn, 'r_corr_' + bn]
    names += [k + '_' + bn for k in ('ev', 'cu')
              if ('e' if k == 'ev' else 'c') in what]
    pre = {k: k + '_' + bn + '_' for k in vec}
    vcol = {}
    for k in vec:
        for a in VEC:
            s = '_'.join([k, bn, a]).replace('_ocb_', '_')
            vcol[k, a] = s if bn == 'ocb' else s.replace('ocb', bn)
    h.check(sorted(inst.variables) == sorted(
        list(cols) + names + list(vcol.values())), 'columns')
    got = {k: column(h, inst, k) for k in inst.variables}
    for i in range(n):
        w, m = rows[i], match.get(i)
        if m is None:
            for k in names + list(vcol.values()):
                h.check(h.is_nan(got[k][i]), 'NaN without a boundary')
            continue
        la, lt, co = b.normal_coord.one(m, w['mlat'], w['mlt'])
        value(h, got[names[0]][i], la, 'normalised latitude')
        value(h, got[names[1]][i], lt, 'normalised local time')
        value(h, got[names[2]][i], co, 'radius correction')
        u, s = rad[m] + co, 90 - blat
        if 'e' in what:
            value(h, got['ev_' + bn][i], w['ev'] * u / s, 'scaled variable')
        if 'c' in what:
            value(h, got['cu_' + bn][i], w['cu'] * u * u / (s * s),
                  'scaled curl variable')
        for k, d in before[2].items():
            f = d.get('scale_func')
            if k == 'vel':
                f = ocb_scaling.normal_evar
            elif k == 'wel':
                f = ocb_scaling.normal_curl_evar
            comp = {a: h.arr([w[x]]) for a, x in d.items()
                    if a[:5] == 'vect_'}
            np = h.np_()
            v = ocb_scaling.VectorData(
                np.array([i]), m, h.arr([w['mlat']]), h.arr([w['mlt']]),
                scale_func=f, **comp)
            v.set_ocb(b)
            for a in VEC:
                value(h, got[vcol[k, a]][i], flat(getattr(v, a, h.nan()))[0],
                      'vector ' + a)


def column(h, inst, k):
    x = inst.data[k]
    return flat(x if h.sym else x.values)


def value(h, x, want, label):
    if h.is_nan(want):
        h.check(h.is_nan(x), label)
    elif h.is_nan(x):
        h.check(False, label)
    else:
        h.eq(x, want, label)


def tasks(tier):
    out = []

    def add(body=add_data, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for hemi in (1, -1):
            add(cls=cls, hemi=hemi)
            add(cls=cls, hemi=hemi, what='v')
        add(cls=cls, what='')
        add(cls=cls, what='dv', offs=(0, 700), tol=60)
        add(cls=cls, what='vn')
        add(cls=cls, what='ecvwdn')
        add(cls=cls, what='ecwd')
        add(cls=cls, nb=2, offs=(0, 0))
        add(cls=cls, nb=2, offs=(0, 200))
        add(cls=cls, nb=2, offs=(0, 90), start=0)
        add(cls=cls, offs=(0, 60, 900))
        add(cls=cls, offs=(0, 0), hemis=(-1, 1), ask=1)
        add(cls=cls, offs=(0, 60), hemis=(-1, 1))
        add(cls=cls, offs=(0, 60), hemis=(-1, -1))
        add(cls=cls, offs=(0, 0, 500), nan=((0, 'ev'),))
    for cls in ('OCBoundary', 'EABoundary'):
        for hemi in (1, -1):
            add(cls=cls, hemi=hemi, own='')
            add(cls=cls, hemi=hemi, own=cls[:3].lower(), what='v')
        add(own='', cls=cls, offs=(0, 40), hemis=(1, -1))
        add(own='', cls=cls, offs=(0, 40), hemis=(1, -1), ask=1)
    for good in ((0, 1), (1, 0), (0, 0)):
        add(nb=2, good=good, offs=(0, 100))
        add(nb=2, good=good, kw='merit')
        add(nb=2, good=good, kw='attr')
    for k in ('mlat', 'mlt', 'ev', 'vn', 'vz', 'other'):
        add(offs=(0, 0), nan=((1, k),), what='ecv')
        add(offs=(0, 100), nan=((0, k),), what='ev')
    add(tol=0, offs=(0, 10))
    add(tol=600, nb=2, offs=(0, 0, 900), what='cd')
    add(what='wvd', nb=2, offs=(0, 200))
    for cls in ('OCBoundary', 'DualBoundary'):
        add(cls=cls, nb=2, good=(1, 1), offs=(0, 150), what='ecv')
        add(cls=cls, nb=2, offs=(0, 10, 20), hemis=(1, -1, 1), what='cv')
        add(cls=cls, nb=2, offs=(0, 100, 200), nan=((1, 'mlat'),), what='e')
    if tier == 'thorough':
        add(nb=3, good=(1, 1, 1), offs=(0, 100, 250))
        for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
            add(cls=cls, what='wvd', nb=2, offs=(0, 0, 200))
        add(nb=3, good=(1, 1, 1), offs=(0, 150))
        add(nb=2, offs=(0, 0, 150), what='ecvn')
        add(what='ecvwdn')
        add(cls='DualBoundary', nb=3, good=(1, 1, 1), offs=(0, 150))
    return out
