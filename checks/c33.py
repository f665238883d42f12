"""C33: geographic vectors are rotated to magnetic components."""
import datetime as dt

from checks.c17 import free_angle
from checks.c31 import flags, ut
from checks.common import boundary, dual
from symx.harness import flat

BOUNDS = ('1-2 vectors with free components, free locations and heights, in '
          'geodetic or geocentric coordinates or with magnetic locations, '
          'both hemispheres, scalar and array data with one record, several '
          'records, or one vector for several records of different times; '
          'whatever the AACGM conversion returns, NaN included; every angle '
          'at the data between the poles, exact meridians of the magnetic '
          'pole; OCB, EAB and dual boundaries.')
OUTSIDE = ('The AACGM conversion itself (trusted, an arbitrary function of '
           'position, height, time and method); local times that wrap '
           'around midnight during the conversion (C12); the angle itself '
           '(C15).')
ASSUMPTIONS = ('calc_vec_pole_angle is replaced by an uninterpreted function '
               'of its arguments (its value is decided by C15).',
               'set_ocb: normal_coord is replaced by an uninterpreted '
               'function of record and magnetic position (decided by C01, '
               'C20, C31).')
TIMES = (dt.datetime(2005, 6, 20, 3, 17, 42), dt.datetime(2011, 12, 3, 4, 5, 8),
         dt.datetime(2007, 3, 2, 2, 45, 0), dt.datetime(2008, 9, 9, 3, 30, 5))


def near(h, a, b, label):
    if h.is_nan(a) or h.is_nan(b):
        h.check(h.is_nan(a) and h.is_nan(b), label)
    else:
        h.eq(a, b, label)


def options(h, nan=False, hemi=1):
    h.aacgm_opts = {
        'g2a_lat': (-89, 89), 'g2a_lon': (-150, 100), 'a2g_lat': (-89, 89),
        'a2g_lon': (-30, 100), 'a2gpole_lon': (-30, 100), 'nan': nan,
        'a2gpole_lat': (60, 89) if hemi > 0 else (-89, -60),
        'm2a': (-180, 180), 'a2m': (-12, 12)}
    h.mltshift_range = (-0.5, 0.5)


class Data(object):
    """Vectors, where they are and what they should become."""

    def __init__(self, h, hemi, vc, lc, shape, ts, method, nan=None,
                 dirs=((3, -4), (-12, -5)), base=None):
        self.h, self.hemi, self.vc, self.lc = h, hemi, vc, lc
        self.method, self.ts = method, ts
        self.nd = 2 if shape in ('a', 'a1') else 1
        self.da, self.oa = shape in ('a', 'a1'), shape in ('a', '1a')
        self.nv = max(self.nd, len(ts))
        self.vec, self.lat, self.lt, self.ht = [], [], [], []
        for k in range(self.nd):
            m = h.real('m%d' % k, 0.01, 50)
            self.vec.append([m * x for x in dirs[k]]
                            + [h.real('z%d' % k, -50, 50)])
            lo, hi = (-89, 89) if base is None else (
                (1, 89) if base > 0 else (-89, -1))
            self.lat.append(h.real('lat%d' % k, lo, hi))
            self.lt.append(h.real('lt%d' % k, 1, 11))
            self.ht.append(h.real('ht%d' % k, 100, 900))
        if nan is not None:
            (self.lat, self.lt)[nan[0]][nan[1]] = h.nan()

    def col(self, x):
        return self.h.arr(x) if self.da else x[0]

    def build(self, inds, **kw):
        from ocbpy import ocb_scaling
        kw.setdefault('height', self.col(self.ht))
        return ocb_scaling.VectorData(
            list(range(self.nd)) if self.da else 0,
            list(inds) if self.oa else inds[0], self.col(self.lat),
            self.col(self.lt),
            vect_n=self.col([x[0] for x in self.vec]),
            vect_e=self.col([x[1] for x in self.vec]),
            vect_z=self.col([x[2] for x in self.vec]), loc_coord=self.lc,
            vect_coord=self.vc, **kw)

    def rows(self):
        """(data index, time) of every value."""
        return [(k if self.da else 0, self.ts[k if self.oa else 0])
                for k in range(self.nv)]

    def dtimes(self):
        return list(self.ts) if self.oa else self.ts[0]

    def forward(self, k, t, lat=None, lt=None, coords=None):
        """Magnetic latitude and MLT of a geographic location."""
        h = self.h
        lat, lt = (self.lat[k], self.lt[k]) if lat is None else (lat, lt)
        if h.is_nan(lt) or h.is_nan(lat):
            return h.nan(), h.nan()
        a, _, m = h.aacgm.get_aacgm_coord(
            lat, (lt - ut(h, t)) * 15, self.ht[k], t,
            flags(self.method, coords or self.lc))
        return a, m

    def back(self, k, t, lat=None, lt=None, coords=None):
        """Geographic latitude and SLT of a magnetic location."""
        h = self.h
        lat, lt = (self.lat[k], self.lt[k]) if lat is None else (lat, lt)
        if h.is_nan(lt) or h.is_nan(lat):
            return h.nan(), h.nan()
        la, lo, _ = h.aacgm.convert_latlon(
            lat, h.aacgm.mlt1(lt, t, True), self.ht[k], t,
            'A2G|' + flags(self.method, coords or self.vc))
        return la, h.nan() if h.is_nan(lo) else lo / 15 + ut(h, t)

    def pole(self, k, t):
        """Location of magnetic north as seen in this hemisphere."""
        h = self.h
        la, lo, _ = h.aacgm.convert_latlon(
            self.hemi * 90, 0, self.ht[k], t,
            'A2G|' + flags(self.method, self.vc))
        if h.is_nan(lo):
            return h.nan(), h.nan()
        slt = lo / 15 + ut(h, t)
        return (la, slt) if self.hemi > 0 else (-la, slt + 12)

    def spots(self):
        """(geographic, magnetic, pole) location of every value."""
        out = []
        for k, t in self.rows():
            if self.lc == 'magnetic':
                m = self.lat[k], self.lt[k]
                g = self.back(k, t)
            else:
                g = self.lat[k], self.lt[k]
                m = self.forward(k, t)
            out.append((g, m, self.pole(k, t)))
        return out


def setup(h, d, ang):
    """Ask for every location and angle before the code does."""
    spots = d.spots()
    for i, (g, m, p) in enumerate(spots):
        if any(h.is_nan(x) for x in g + p):
            continue
        x = (p[1] - g[1]) / 24
        if i or ang.fixed:
            h.assume((x > 0) & (x * 2 < 1))
            ang.one((g[1], g[0], p[1], p[0]))
            continue
        h.assume((x - h.floor(x)) * 2 != 1)
        h.assume(x != h.floor(x))
        ang.one((g[1], g[0], p[1], p[0]))
    return spots


def law(h, d, ang, spots, v):
    """Rotation by the bearing of magnetic north."""
    n = [list(flat(v.vect_n)), list(flat(v.vect_e)), list(flat(v.vect_z))]
    lat, lt = flat(v.lat), flat(v.lt)
    va = d.da or d.oa
    for c in ('vect_n', 'vect_e', 'vect_z', 'vect_mag'):
        h.shape_is(getattr(v, c), (d.nv,) if va else (), c)
    h.check(len(lat) == len(lt) and len(lat) in (d.nd, d.nv)
            and (len(lat) == d.nv or d.lc == 'magnetic'),
            'locations fit the vectors')
    if not va:
        h.shape_is(v.lat, (), 'lat')
        h.shape_is(v.lt, (), 'lt')
    h.check(v.vect_coord == 'magnetic' and v.loc_coord == 'magnetic',
            'everything is magnetic')
    for i, (k, t) in enumerate(d.rows()):
        g, m, p = spots[i]
        j = i if len(lat) == d.nv else k
        near(h, lat[j], m[0], 'magnetic latitude')
        near(h, lt[j], m[1], 'magnetic local time')
        if any(h.is_nan(x) for x in g + p):
            h.check(h.is_nan(n[0][i]) and h.is_nan(n[1][i]),
                    'no components without a location')
            continue
        a = ang.one((g[1], g[0], p[1], p[0]))
        x = (p[1] - g[1]) / 24
        east = h.decide((x - h.floor(x)) * 2 < 1)
        ca, sa = h.cs(a)
        sa = sa if east else -sa
        w = d.vec[k]
        h.eq(n[0][i], w[0] * ca + w[1] * sa, 'north component')
        h.eq(n[1][i], w[1] * ca - w[0] * sa, 'east component')
        h.eq(n[2][i], w[2], 'vertical component')
        mag = flat(v.vect_mag)[i]
        h.eq(mag * mag, w[0] * w[0] + w[1] * w[1] + w[2] * w[2],
             'magnitude')
        h.check(mag >= 0, 'magnitude is not negative')


def vectors_(h, hemi=1, vc='geodetic', lc='geodetic', shape='s', times=(0,),
             method='ALLOWTRACE', nan=None, lost=False, fixed=False):
    """update_vect_coords_to_mag."""
    options(h, lost, hemi)
    d = Data(h, hemi, vc, lc, shape, [TIMES[i] for i in times], method, nan)
    with free_angle(h, fixed) as ang:
        spots = setup(h, d, ang)
        v = d.build(times)
        known = len(ang.table)
        kw = {} if method == 'ALLOWTRACE' else {'trace_method': method}
        v.update_vect_coords_to_mag(d.dtimes(), hemi, **kw)
        # without any magnetic location the vectors are left alone
        if any(all(h.is_nan(m[j]) for g, m, p in spots) for j in (0, 1)):
            h.check(v.vect_coord == vc, 'vectors are still geographic')
            for i in range(d.nd):
                for c, w in zip('nez', d.vec[i]):
                    near(h, flat(getattr(v, 'vect_' + c))[i], w,
                           'vectors are unchanged')
            return
        h.check(len(ang.table) == known, 'angles at the vectors')
        law(h, d, ang, spots, v)


def meridian(h, hemi=1, vc='geodetic', lc='geodetic', shape='s', opp=False):
    """Vectors on the meridian of the magnetic pole keep or flip."""
    options(h, False, hemi)
    d = Data(h, hemi, vc, lc, shape, [TIMES[0]], 'ALLOWTRACE')
    t = TIMES[0]
    for k in range(d.nd):
        if lc == 'magnetic':
            p = d.pole(k, t)
            g = d.back(k, t)
            h.assume(g[1] == p[1] - (12 if hemi < 0 else 0)
                     + (12 if opp else 0))
        else:
            p = d.pole(k, t)
            d.lt[k] = p[1] - (12 if hemi < 0 else 0) + (12 if opp else 0)
    spots = d.spots()
    v = d.build((0,))
    v.update_vect_coords_to_mag(d.dtimes(), hemi)
    ahead = opp == (hemi < 0)
    for k in range(d.nd):
        g, m, p = spots[k]
        # north of the data, over the pole or down the other side
        if ahead:
            sign = -1 if h.decide(g[0] > p[0]) else 1
        else:
            sign = -1 if h.decide(g[0] < -p[0]) else 1
        h.assume((g[0] != p[0]) & (g[0] != -p[0]))
        for c, w, s in zip('nez', d.vec[k], (sign, sign, 1)):
            h.eq(flat(getattr(v, 'vect_' + c))[k], w * s,
                 'component ' + c)
        near(h, flat(v.lat)[k], m[0], 'magnetic latitude')
        near(h, flat(v.lt)[k], m[1], 'magnetic local time')


def location(h, lc='geodetic', to='magnetic', shape='s', times=(0,),
             method='ALLOWTRACE', upper=False, lost=False):
    """update_loc_coords."""
    options(h, lost)
    d = Data(h, 1, 'magnetic', lc, shape, [TIMES[i] for i in times], method)
    v = d.build(times)
    kw = {} if method == 'ALLOWTRACE' else {'trace_method': method}
    if to != 'magnetic' or upper:
        kw['coord'] = to.capitalize() if upper else to
    v.update_loc_coords(d.dtimes(), **kw)
    h.check(v.loc_coord == to, 'name of the coordinates')
    lat, lt = flat(v.lat), flat(v.lt)
    rows = d.rows()
    if lc == to:
        rows = rows[:d.nd]
    h.shape_is(v.lat, (len(rows),) if d.da or (d.oa and lc != to) else (),
               'lat')
    h.shape_is(v.lt, (len(rows),) if d.da or (d.oa and lc != to) else (),
               'lt')
    for i, (k, t) in enumerate(rows):
        w = d.lat[k], d.lt[k]
        if lc != to and lc != 'magnetic':
            w = d.forward(k, t)
        if lc != to and to != 'magnetic':
            w = d.back(k, t, w[0], w[1], to)
        near(h, lat[i], w[0], 'latitude')
        near(h, lt[i], w[1], 'local time')
    for i in range(d.nd):
        for c, w in zip('nez', d.vec[i]):
            near(h, flat(getattr(v, 'vect_' + c))[i], w,
                   'vectors are unchanged')


def mismatch(h, lc='geodetic', n=3):
    options(h)
    d = Data(h, 1, 'magnetic', lc, 'a', [TIMES[0]] * 2, 'ALLOWTRACE')
    v = d.build((0, 1))
    h.raises(ValueError, lambda: v.update_loc_coords(
        [TIMES[0]] * n, coord="geodetic" if lc == "magnetic" else "magnetic"),
        "mismatched times and locations")


def record(h, cls, hemi, n=3):
    """A boundary with distinct record times around the pole."""
    if cls == 'DualBoundary':
        b, info = dual(h, hemi, ind=0, extra=1)
        for o in (b.ocb, b.eab):
            o.phi_cent = o.phi_cent * 0
            o.r_cent = o.r_cent * 0
        b.ocb.dtime[1], b.ocb.dtime[2] = TIMES[0], TIMES[1]
        b.dtime[0], b.dtime[1] = TIMES[0], TIMES[1]
        return b, list(b.dtime)
    rows = [dict(phi=0.0, rcent=0.0, r=11.25 + k, time=TIMES[k])
            for k in range(n)]
    return boundary(h, cls, hemi, 74.0 * hemi, rows, 0), list(TIMES[:n])


class Located(object):
    """An arbitrary normalised location for every record and position."""

    def __init__(self, h, b, hemi):
        self.h, self.b, self.hemi = h, b, hemi
        self.dual = hasattr(b, 'ocb')
        self.n = 0

    def one(self, lat, lt, ht, coords, method):
        h = self.h
        t = self.b.dtime[int(self.b.rec_ind)]
        if coords != 'magnetic':
            lat, _, lt = h.aacgm.get_aacgm_coord(
                lat, (lt - ut(h, t)) * 15, ht, t, flags(method, coords))
        if h.is_nan(lat) or h.is_nan(lt):
            return [h.nan()] * 3

        def make():
            self.n += 1
            return (h.real(h.name('nlat'), 50, 90) * self.hemi,
                    h.real(h.name('nmlt'), 0, 24),
                    h.real(h.name('ncorr'), -2, 4))
        return h.aacgm.lookup('normal_coord', '', t, (lat, lt), (None, 24),
                              make)

    def __call__(self, lat, lt, coords='magnetic', height=350.0,
                 method='ALLOWTRACE', **kw):
        h, np = self.h, self.h.np_()
        x = np.broadcast_arrays(*[np.asarray(a) for a in (lat, lt, height)])
        out = [self.one(a, b, c, coords, method) for a, b, c in zip(
            *[flat(y) for y in x])]
        sh = x[0].shape
        cols = [h.arr([o[i] for o in out]).reshape(sh) if sh else out[0][i]
                for i in range(3)]
        if self.dual:
            cols.insert(2, cols[0])
        return tuple(cols)


def setting(h, cls='OCBoundary', hemi=1, vc='geodetic', lc='geodetic',
            shape='s', inds=(1,), method='ALLOWTRACE', start=0):
    """set_ocb equals converting first."""
    from ocbpy import ocb_scaling
    options(h, False, hemi)
    lo, hi = (50, 89) if hemi > 0 else (-89, -50)
    h.aacgm_opts.update(g2a_lat=(lo, hi))
    if hemi > 0:
        h.aacgm_opts.update(a2m=(-12, 12))
    b, ts = record(h, cls, hemi)
    d = Data(h, hemi, vc, lc, shape, [ts[i] for i in inds], method, base=hemi)
    if lc == 'magnetic':
        for x in d.lat:
            h.assume((x > 50) if hemi > 0 else (x < -50))
    b.rec_ind = start
    b.normal_coord = Located(h, b, hemi)
    with free_angle(h, d.nv > 1) as ang:
        if vc != 'magnetic':
            spots = setup(h, d, ang)
        v = d.build(inds)
        w = d.build(inds)
        kw = {} if method == 'ALLOWTRACE' else {'trace_method': method}
        w.update_vect_coords_to_mag(d.dtimes(), hemi, **kw)
        w.update_loc_coords(d.dtimes(), **kw)
        if vc != 'magnetic':
            law(h, d, ang, spots, w)
        else:
            for i in range(d.nd):
                for c, x in zip('nez', d.vec[i]):
                    near(h, flat(getattr(w, 'vect_' + c))[i], x,
                           'magnetic vectors are untouched')
        # the same as new data with magnetic values
        va = d.da or d.oa
        rows = d.rows() if va else [(0, None)]
        mag = []
        for k in range(d.nv):
            j = k if len(flat(w.lat)) == d.nv else 0
            x = [flat(y)[k if len(flat(y)) == d.nv else 0]
                 for y in (w.vect_n, w.vect_e, w.vect_z)]
            i = inds[k if d.oa else 0]
            u = ocb_scaling.VectorData(
                0, i, flat(w.lat)[j], flat(w.lt)[j], vect_n=x[0], vect_e=x[1],
                vect_z=x[2], height=d.ht[rows[k][0]])
            plt, plat = 0, 90
            y = (plt - flat(w.lt)[j]) / 24
            if d.nv > 1:
                h.assume((y > -1) & (y * 2 < -1))
            h.assume((y - h.floor(y)) * 2 != 1)
            h.assume(y != h.floor(y))
            u.set_ocb(b, scale_func=ocb_scaling.normal_evar)
            mag.append(u)
        v.set_ocb(b, scale_func=ocb_scaling.normal_evar, **kw)
        h.check(v.vect_coord == 'magnetic' and v.loc_coord == 'magnetic',
                'everything is magnetic')
        for c in ('lat', 'lt', 'vect_n', 'vect_e', 'vect_z', 'ocb_lat',
                  'ocb_mlt', 'r_corr', 'unscaled_r', 'ocb_n', 'ocb_e',
                  'ocb_z'):
            o = flat(getattr(v, c))
            h.check(len(o) == d.nv or (len(o) == d.nd and c in (
                'lat', 'lt', 'vect_n', 'vect_e', 'vect_z')), 'shape of ' + c)
            for k in range(len(o)):
                near(h, o[k], flat(getattr(mag[k], c))[0], c)


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    full = tier == 'thorough'
    shapes = (('s', (0,)), ('a1', (1,)), ('a', (0, 1)), ('1a', (1, 0)))
    for vc in ('geodetic', 'geocentric'):
        for lc in (vc, 'magnetic'):
            for hemi in (1, -1):
                for sh, ti in shapes:
                    if full or sh == 's' or (hemi > 0 and sh != (
                            'a1' if lc == 'magnetic' else '')) and (
                                vc == 'geodetic' or sh == 'a1'):
                        add(vectors_, vc=vc, lc=lc, hemi=hemi, shape=sh,
                            times=ti, fixed=not full and lc == 'magnetic'
                            and sh != 's')
                if vc == 'geodetic' or full:
                    add(meridian, vc=vc, lc=lc, hemi=hemi)
                    if lc != 'magnetic':
                        add(meridian, vc=vc, lc=lc, hemi=hemi, opp=True)
            add(vectors_, vc=vc, lc=lc, method='TRACE')
            add(vectors_, vc=vc, lc=lc, lost=True)
            if vc == 'geodetic':
                add(vectors_, vc=vc, lc=lc, shape='a', times=(0, 1),
                    nan=(0, 1))
                add(vectors_, vc=vc, lc=lc, shape='a1', nan=(1, 0))
                add(vectors_, vc=vc, lc=lc, nan=(1, 0))
    add(meridian, shape='a1')
    for lc in ('geodetic', 'geocentric', 'magnetic'):
        for to in ('geodetic', 'geocentric', 'magnetic'):
            add(location, lc=lc, to=to)
            add(location, lc=lc, to=to, method='BADIDEA', upper=True)
            for sh, ti in shapes[1:]:
                if full or (lc == 'magnetic') != (to == 'magnetic'):
                    add(location, lc=lc, to=to, shape=sh, times=ti)
        add(location, lc=lc, to='magnetic' if lc != 'magnetic' else
            'geocentric', lost=True)
        add(mismatch, lc=lc)
        add(mismatch, lc=lc, n=1)
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for vc, lc in (('geodetic', 'geodetic'), ('geocentric', 'magnetic'),
                       ('magnetic', 'geocentric'), ('magnetic', 'magnetic')):
            if cls != 'EABoundary' or full or vc == 'magnetic':
                add(setting, cls=cls, vc=vc, lc=lc)
            if cls == 'OCBoundary' or full:
                add(setting, cls=cls, vc=vc, lc=lc, hemi=-1)
                for sh, ti in shapes[1:]:
                    add(setting, cls=cls, vc=vc, lc=lc, shape=sh, inds=ti)
    add(setting, method='BADIDEA')
    return out
