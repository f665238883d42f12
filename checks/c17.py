"""C17: scaled vectors use the matched record and the requested scaling."""
import contextlib

from checks.common import (T0, boundary, dual, instant, other_record)
from symx.harness import flat

BOUNDS = ('Three-record boundaries (two-pair dual boundaries with unpaired '
          'records) with symbolic pole, radius and radius correction of the '
          'matched records, OCB and EAB, both hemispheres; 1-2 vectors with '
          'free components, free locations off the meridian of the pole and '
          'any angle at the data; scalar data, arrays, one vector for several '
          'records, NaN locations; every scaling function of the module, a '
          'user function and none.')
OUTSIDE = ('Vectors and locations in geographic coordinates (C33); the value '
           'of the pole angle itself (C15, summarised here by a free angle '
           'per data and pole location).')
ASSUMPTIONS = ('calc_vec_pole_angle is replaced by an uninterpreted function '
               'of its arguments (its value is decided by C15).',)


class Angle(object):
    """A free angle for every data and pole location."""

    FIXED = ((1, 3), (2, 3), (1, 6), (5, 6), (1, 4), (3, 4))

    def __init__(self, h, fixed=False):
        self.h, self.table, self.fixed = h, [], fixed

    def one(self, x):
        h = self.h
        if any(h.is_nan(y) for y in x):
            return None
        for y, g in self.table:
            if all(h.aacgm.same(a, b, p) for a, b, p in zip(
                    x, y, (24, None, 24, None))):
                return g
        g = h.frac(*self.FIXED[len(self.table) - (not self.fixed)])
        if not self.table and not self.fixed:
            g = h.angle('ang', 0, 1, ex_lo=True, ex_hi=True)
        self.table.append((x, g))
        return g

    def __call__(self, lt, lat, plt, plat):
        h, np = self.h, self.h.np_()
        args = np.broadcast_arrays(*[np.asarray(a) for a in (
            lt, lat, plt, plat)])
        cols = [flat(a) for a in args]
        out = []
        for x in zip(*cols):
            g = self.one(tuple(x))
            out.append(h.nan() if g is None else g * 180)
        if args[0].shape == ():
            return h.arr(out[0])
        return h.arr(out).reshape(args[0].shape)


@contextlib.contextmanager
def free_angle(h, fixed=False):
    from ocbpy import vectors
    old = vectors.calc_vec_pole_angle
    vectors.calc_vec_pole_angle = Angle(h, fixed)
    try:
        yield vectors.calc_vec_pole_angle
    finally:
        vectors.calc_vec_pole_angle = old


def user(x, unscaled, scaled):
    return x * 3 + unscaled * 0.25 - scaled * 0.5


def scaled(name, x, u, s):
    if name == 'evar':
        return x * u / s
    if name == 'curl':
        return x * u * u / (s * s)
    if name == 'user':
        return user(x, u, s)
    return x


def func(name):
    from ocbpy import ocb_scaling as o
    return {'evar': o.normal_evar, 'curl': o.normal_curl_evar, 'user': user,
            'none': None}[name]


def pole(h, k):
    if k == 0:
        return dict(phi=h.const(30), rcent=h.const(4), r=h.const(14),
                    g=h.frac(1, 6))
    g = h.angle('phi%d' % k, 0, 2, ex_hi=True)
    return dict(phi=g * 180, rcent=h.real('rcent%d' % k, 0, 20),
                r=h.real('r%d' % k, 5, 40), g=g)


def make(h, cls, hemi, ks, blat, time=None, geo=None):
    """The boundary and the geometry of the records with index ks."""
    recs = {}
    for k in ks:
        recs[k] = geo(h, k) if geo else pole(h, k)
    if cls == 'DualBoundary':
        d, info = dual(h, hemi, ind=ks[0], ol=blat, el=h.const(60))
        for c, x in (('phi_cent', 'phi'), ('r_cent', 'rcent'), ('r', 'r')):
            new = list(getattr(d.ocb, c))
            for k in ks:
                new[k + 1] = recs[k][x]
            setattr(d.ocb, c, h.arr(new))
        return d, recs
    rows = []
    for k in range(3):
        rows.append(dict(other_record(k), time=T0))
        if k in recs:
            rows[k].update({x: recs[k][x] for x in ('phi', 'rcent', 'r')})
    return boundary(h, cls, hemi, blat * hemi, rows, 0), recs


def vectors_(h, cls='OCBoundary', hemi=1, shape='s', inds=(1,), scale='none',
             how='set', nan=None, true_pole=False, start=0,
             dirs=((3, -4), (-12, -5))):
    """Rotation, scaling and magnitude for given boundary locations."""
    from ocbpy import ocb_scaling
    blat = h.real('blat', 60, 80)
    b, recs = make(h, cls, hemi, sorted(set(inds)), blat)
    nd = {'s': 1, 'a': len(inds), 'a1': 2, '1a': 1}[shape]
    nv = max(nd, len(inds))
    rows = []
    for k in range(nd):
        lt = h.real('lt%d' % k, 0, 24)
        lat = h.real('lat%d' % k, -89, 89)
        m = h.real('m%d' % k, 0.01, 50)
        vec = [m * x for x in dirs[k]] + [h.real('z%d' % k, -50, 50)]
        rows.append((lt, lat, vec))
    olat = [h.real('ol%d' % k, 50, 90) * hemi for k in range(nv)]
    omlt = [h.real('om%d' % k, 0, 24) for k in range(nv)]
    corr = [h.real('corr%d' % k, -2, 4) for k in range(nv)]
    if nan is not None:
        olat[nan] = h.nan()

    def col(x, n, arr):
        return h.arr(x) if arr else x[0]

    da = shape in ('a', 'a1')
    oa = shape in ('a', '1a')
    va = shape != 's'
    kw = dict(vect_n=col([r[2][0] for r in rows], nd, da),
              vect_e=col([r[2][1] for r in rows], nd, da),
              vect_z=col([r[2][2] for r in rows], nd, da),
              ocb_lat=col(olat, nv, va), ocb_mlt=col(omlt, nv, va),
              r_corr=col(corr, nv, va))
    f = func(scale)
    if how == 'init':
        kw['scale_func'] = f
    v = ocb_scaling.VectorData(
        list(range(nd)) if da else 0, list(inds) if oa else inds[0],
        col([r[1] for r in rows], nd, da), col([r[0] for r in rows], nd, da),
        **kw)
    b.rec_ind = start
    with free_angle(h) as ang:
        for k in range(nv):
            r = recs[inds[k if oa else 0]]
            lt, lat, _ = rows[k if da else 0]
            plat, plt = 90 - r['rcent'], r['g'] * 12
            if true_pole and hemi < 0:
                plt = plt + 12
            r_ang = ang.one((lt, lat, plt, plat))
            x = (plt - lt) / 24
            h.assume((x - h.floor(x)) * 2 != 1)
            h.assume(x != h.floor(x))
        known = len(ang.table)
        if how == 'set':
            v.set_ocb(b, scale_func=f)
        else:
            v.set_ocb(b)
        h.check(len(ang.table) == known, 'angle to the pole of the record')
        for k in range(nv):
            r = recs[inds[k if oa else 0]]
            lt, lat, vec = rows[k if da else 0]
            o = [flat(getattr(v, 'ocb_' + c))[k] for c in ('n', 'e', 'z',
                                                            'mag')]
            if nan == k:
                h.check(all(h.is_nan(x) for x in o[:2]),
                        'no vector without a location')
                continue
            plat, plt = 90 - r['rcent'], r['g'] * 12
            if true_pole and hemi < 0:
                plt = plt + 12
            g = ang.one((lt, lat, plt, plat))
            x = (plt - lt) / 24
            east = h.decide((x - h.floor(x)) * 2 < 1)
            ca, sa = h.cs(g)
            if not east:
                sa = -sa
            u, s = r['r'] + corr[k], 90 - blat
            h.eq(flat(v.unscaled_r)[k], u, 'unscaled radius')
            h.eq(flat(v.scaled_r)[k], s, 'scaled radius')
            want = [scaled(scale, y, u, s) for y in (
                vec[0] * ca + vec[1] * sa, vec[1] * ca - vec[0] * sa, vec[2])]
            for c, y, w in zip(('north', 'east', 'vertical'), o, want):
                h.eq(y, w, '%s component' % c)
            h.eq(o[3] * o[3], o[0] * o[0] + o[1] * o[1] + o[2] * o[2],
                 'magnitude')
            h.check(o[3] >= 0, 'magnitude is not negative')
    for c in ('n', 'e', 'z', 'mag'):
        h.shape_is(getattr(v, 'ocb_' + c), (nv,) if va else (), 'ocb_' + c)


def place(h, k):
    """Records whose circle is centred on the meridian of the data."""
    return dict(phi=h.const(90), rcent=h.real('rcent%d' % k, 0, 10),
                r=h.real('r%d' % k, 12, 40), g=h.frac(1, 2))


def where(h, cls='OCBoundary', hemi=1, shape='s', inds=(1,), start=0,
          nan=None):
    """Normalised location, correction and radii of every value."""
    from ocbpy import ocb_scaling
    blat = h.real('blat', 70, 80)
    ks = sorted(set(inds))
    b, recs = make(h, cls, hemi, ks, blat, geo=place)
    nd = {'s': 1, 'a': len(inds), 'a1': 2, '1a': 1}[shape]
    nv = max(nd, len(inds))
    da, oa, va = shape in ('a', 'a1'), shape in ('a', '1a'), shape != 's'
    lat = [h.real('lat%d' % k, 50, 89) * hemi for k in range(nd)]
    lt = [h.const(6 + 12 * k) for k in range(nd)]
    if nan is not None:
        lat[nan] = h.nan()
    want = []
    for k in range(nv):
        i, j = inds[k if oa else 0], k if da else 0
        b.rec_ind = i
        out = b.normal_coord(lat[j], lt[j], height=h.const(100))
        want.append([flat(x)[0] for x in out])
    b.rec_ind = start
    v = ocb_scaling.VectorData(
        list(range(nd)) if da else 0, list(inds) if oa else inds[0],
        h.arr(lat) if da else lat[0], h.arr(lt) if da else lt[0],
        height=h.const(100), vect_n=h.arr([h.const(1)] * nd) if da else 1.0,
        vect_e=h.arr([h.const(2)] * nd) if da else 2.0,
        vect_z=h.arr([h.const(0)] * nd) if da else 0.0)

    def still(lt_, lat_, plt, plat):
        np = h.np_()
        x = np.broadcast_arrays(*[np.asarray(y) for y in (lt_, lat_, plt,
                                                          plat)])
        return h.arr([30.0] * x[0].size).reshape(x[0].shape)

    from ocbpy import vectors
    old = vectors.calc_vec_pole_angle
    vectors.calc_vec_pole_angle = still
    try:
        v.set_ocb(b)
    finally:
        vectors.calc_vec_pole_angle = old
    for k in range(nv):
        r = recs[inds[k if oa else 0]]
        w = want[k]
        h.same(flat(v.ocb_lat)[k], w[0], 'normalised latitude')
        h.same(flat(v.ocb_mlt)[k], w[1], 'normalised MLT')
        if h.is_nan(w[0]):
            continue
        h.same(flat(v.r_corr)[k], w[-1], 'radius correction')
        h.eq(flat(v.unscaled_r)[k], r['r'] + w[-1], 'unscaled radius')
        h.eq(flat(v.scaled_r)[k], 90 - blat, 'scaled radius')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for hemi in (1, -1):
            add(vectors_, cls=cls, hemi=hemi, scale='evar')
            add(where, cls=cls, hemi=hemi)
        for sc in ('none', 'curl', 'user'):
            add(vectors_, cls=cls, scale=sc)
        add(vectors_, cls=cls, scale='evar', how='init')
        if cls != 'EABoundary' or tier == 'thorough':
            add(vectors_, cls=cls, scale='evar', shape='a', inds=(0, 1))
            add(vectors_, cls=cls, scale='curl', shape='1a', inds=(1, 0))
        add(vectors_, cls=cls, scale='none', shape='a', inds=(1, 0), nan=0)
        for sh, inds in (('a', (0, 1)), ('1a', (1, 0)), ('a1', (1,)),
                         ('a', (1, 1))):
            add(where, cls=cls, shape=sh, inds=inds)
        add(where, cls=cls, shape='a', inds=(1, 0), nan=1)
        add(where, cls=cls, shape='a1', inds=(1,), nan=0)
    add(vectors_, hemi=-1, true_pole=True)
    return out
