"""C19: conversions never change their inputs or lasting boundary state."""
from checks.common import boundary, dual, instant, T0, T1
from checks.common import other_record as any_record
from symx.harness import flat
from symx import npshim

BOUNDS = ('Scalar-free calls with 1-2 element arrays of floats, integers, '
          'lists and 2-d arrays; latitudes over the whole sphere, local times '
          'within two cycles of the range, NaN elements; OCB, EAB and dual '
          'boundaries with boundary locations stored for neither, one or both '
          'boundaries, at other records or at the current one; matching over '
          'up to three records.')
OUTSIDE = ('Arguments of other types; changes made by functions supplied by '
           'the caller.')


def other_record(i):
    """A circle about the pole: no geometry in the way."""
    return dict(any_record(i), phi=0.0, rcent=0.0)


# -- snapshots
def snap(x, depth=0):
    if isinstance(x, npshim.SArr):
        return ('arr', tuple(x.shape), x.dtype, list(x.raw.reshape(-1)))
    if isinstance(x, npshim._nd):
        return ('arr', tuple(x.shape), str(x.dtype),
                [snap(e, depth + 1) for e in x.reshape(-1)])
    if isinstance(x, dict):
        return ('dict', {k: snap(v, depth + 1) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, depth + 1) for v in x])
    return x


def number(x):
    from symx import core
    return isinstance(x, (int, float, core.SR, npshim.np.floating,
                          npshim.np.integer)) and not isinstance(x, bool)


def differ(h, a, b, todo):
    """Collect the pairs of values to compare; False if the forms differ."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and \
            isinstance(a[0], str):
        if a[0] != b[0]:
            return False
        if a[0] == 'arr':
            if a[1] != b[1] or a[2] != b[2]:
                return False
            a, b = a[3], b[3]
        elif a[0] == 'dict':
            return list(a[1]) == list(b[1]) and all(
                [differ(h, a[1][k], b[1][k], todo) for k in a[1]])
        else:
            a, b = a[1], b[1]
        return len(a) == len(b) and all(
            [differ(h, x, y, todo) for x, y in zip(a, b)])
    if number(a) and number(b):
        todo.append((a, b))
        return True
    return bool(a is b or a == b)


def agree(h, a, b, lab):
    todo = []
    h.check(differ(h, a, b, todo), lab + ' (form)')
    for x, y in todo:
        h.same(x, y, lab)


class Watch(object):
    """Snapshots of the caller's values and of boundary objects."""

    def __init__(self, h, **vals):
        self.h, self.vals = h, vals
        self.old = {k: snap(v) for k, v in vals.items()}
        self.objs = []

    def obj(self, lab, o, skip=()):
        self.objs.append((lab, o, skip, self.state(o, skip)))
        return self

    def state(self, o, skip):
        return {k: snap(v) for k, v in sorted(vars(o).items())
                if k not in skip and not hasattr(v, 'rfunc')}

    def done(self):
        h = self.h
        for k, v in self.vals.items():
            agree(h, self.old[k], snap(v), 'argument %s unchanged' % k)
        for lab, o, skip, old in self.objs:
            new = self.state(o, skip)
            h.check(sorted(old) == sorted(new), lab + ' attributes unchanged')
            for k in old:
                if k in new:
                    agree(h, old[k], new[k], '%s.%s unchanged' % (lab, k))


def mlts(h, nm, kind, n, lo=-6, hi=30):
    """Local times: the first is free, in and out of range."""
    if kind == 'i':
        return h.arr([26, -3][:n], 'i')
    v = [h.real(nm, lo, hi), 26.0][:n]
    if kind == 'l':
        return v
    a = h.arr(v)
    return a.reshape((1, n)) if kind == '2d' else a


def values(h, nm, kind, n, lo, hi, nan=None):
    ty = 'i' if kind in ('i', 'I') else 'f'
    v = [h.nan() if i == nan else
         h.integer('%s%d' % (nm, i), int(lo), int(hi)) if ty == 'i' else
         h.real('%s%d' % (nm, i), lo, hi) for i in range(n)]
    if kind in ('l', 'I'):
        return v
    a = h.arr(v, ty)
    return a.reshape((1, n)) if kind == '2d' else a


# -- boundary conversions
def single(h, cls='OCBoundary', hemi=1, op='normal', kind='f', n=2, nan=None,
           coords='magnetic', harm=False, rec=1):
    recs = [dict(other_record(i), time=T1, kwargs={'r_add': 0.25 * i})
            for i in range(3)]
    if coords != 'magnetic':
        # the converted location is free, the circle is simple
        recs[rec].update(rcent=0.0, phi=0.0)
    o = boundary(h, cls, hemi, hemi * 74.0, recs, rec)
    h.aacgm_opts = {'a2g_lat': (1, 89), 'g2a_lat': (1, 89),
                    'g2a_lon_angle': True,
                    'lat': (1, 89) if hemi > 0 else (-89, -1)}
    mlt = mlts(h, 'mlt', kind, n)
    if op == 'bound':
        ri = h.arr([0, 2], 'i') if kind == 'f' else [0, 2]
        w = Watch(h, mlt=mlt, rec_ind=ri).obj('boundary', o, (
            'aacgm_boundary_lat', 'aacgm_boundary_mlt', 'aacgm_boundary_lon'))
        o.get_aacgm_boundary_lat(mlt, rec_ind=ri, set_lon=False)
        w.done()
        # stored locations are not changed unless asked for, whichever other
        # positions are requested
        w = Watch(h, mlt=mlt).obj('boundary', o)
        o.get_aacgm_boundary_lat(values(h, 'new', kind, n, 0, 23), rec_ind=2)
        w.vals['mlt'] = mlt
        try:
            w.objs[0][3].setdefault('aacgm_boundary_lon',
                                    snap(o.aacgm_boundary_lon))
        except AttributeError:
            pass
        w.done()
        return
    lat = values(h, 'lat', kind, n, -89, 89, nan)
    ht = values(h, 'ht', kind, n, 100, 900) if coords != 'magnetic' else 350.0
    if op == 'normal':
        w = Watch(h, lat=lat, mlt=mlt, height=ht).obj('boundary', o)
        o.normal_coord(lat, mlt, coords=coords, height=ht)
    else:
        rc = values(h, 'rc', 'f' if kind == 'i' else kind, n, 0, 3)
        w = Watch(h, lat=lat, mlt=mlt, r_corr=rc, height=ht).obj('boundary', o)
        o.revert_coord(lat, mlt, rc, coords=coords, height=ht)
    w.done()


def store(h, b, rec, tag, k=1):
    """Boundary locations stored at record `rec`."""
    n = b.records
    b.aacgm_boundary_lat = [None] * n
    b.aacgm_boundary_mlt = [None] * n
    b.aacgm_boundary_lon = [None] * n
    for r in rec:
        b.aacgm_boundary_lat[r] = h.arr([h.real('%slat%d' % (tag, r), 40, 90)])
        b.aacgm_boundary_mlt[r] = h.arr([h.real('%smlt%d' % (tag, r), 0, 24)])
        b.aacgm_boundary_lon[r] = h.arr([h.real('%slon%d' % (tag, r), 0, 9)])


def twin(h, hemi=1, op='normal', kind='f', n=2, stored='both', ind=1,
         nan=None, coords='magnetic', scalar=False):
    d, info = dual(h, hemi, dict(rcent=0.0, r=11.75), dict(rcent=0.0, r=25.5),
                   ind=ind)
    h.aacgm_opts = {'lat': (1, 89) if hemi > 0 else (-89, -1),
                    'g2a_lon_angle': True}
    oi, ei = info['ocb'], info['eab']
    keepO = {'both': [oi], 'ocb': [oi], 'eab': [], 'other': [0],
             'all': [0, oi]}.get(stored)
    keepE = {'both': [ei], 'ocb': [], 'eab': [ei], 'other': [0],
             'all': [0, ei]}.get(stored)
    if stored != 'none':
        store(h, d.ocb, keepO, 'o')
        store(h, d.eab, keepE, 'e')
    oldO = [list(x) for x in (d.ocb.aacgm_boundary_lat,
                              d.ocb.aacgm_boundary_mlt,
                              d.ocb.aacgm_boundary_lon)] \
        if stored != 'none' else []
    oldE = [list(x) for x in (d.eab.aacgm_boundary_lat,
                              d.eab.aacgm_boundary_mlt,
                              d.eab.aacgm_boundary_lon)] \
        if stored != 'none' else []
    names = ('aacgm_boundary_lat', 'aacgm_boundary_mlt', 'aacgm_boundary_lon')
    lat = values(h, 'lat', kind, n, -89, 89, nan)
    mlt = mlts(h, 'mlt', kind, n)
    ht = values(h, 'ht', kind, n, 100, 900) if coords != 'magnetic' else 350.0
    if scalar:
        lat, mlt, ht = [flat(x)[0] for x in (lat, mlt, ht)]
    args = dict(lat=lat, mlt=mlt, height=ht)
    if op == 'normal':
        w = Watch(h, **args)
        d2 = w.obj('OCB', d.ocb, names).obj('EAB', d.eab, names).obj('dual', d)
        d.normal_coord(lat, mlt, coords=coords, height=ht)
    else:
        am = mlts(h, 'am', kind, n, 0, 23)
        rc = values(h, 'rc', 'f' if kind == 'i' else kind, n, 0, 3)
        if scalar:
            am, rc = flat(am)[0], flat(rc)[0]
        w = Watch(h, am=am, rc=rc, **args)
        d2 = w.obj('OCB', d.ocb, names).obj('EAB', d.eab, names).obj('dual', d)
        if op == 'revert':
            d.revert_coord(lat, mlt, rc, is_ocb=False, aacgm_mlt=am,
                           coords=coords, height=ht)
        else:
            d.calc_r(lat, mlt, am, rc)
    d2.done()
    for b, old, lab in ((d.ocb, oldO, 'OCB'), (d.eab, oldE, 'EAB')):
        for nm, o in zip(names, old):
            new = getattr(b, nm)
            h.check(len(new) == len(o), '%s %s length' % (lab, nm))
            for x, y in zip(new, o):
                if y is not None:
                    h.check(x is not None, '%s stored %s kept' % (lab, nm))
                    if x is not None:
                        agree(h, snap(y), snap(x),
                              '%s stored %s unchanged' % (lab, nm))


# -- vector and local-time routines
def vectors_(h, op='angle', kind='f', n=2, nan=None):
    from ocbpy import vectors
    a = dict(lt=values(h, 'lt', kind, n, -12, 40),
             plt=values(h, 'plt', kind, n, -12, 40))
    if op == 'angle':
        if kind in ('f', '2d'):
            # far from a singular triangle: only the inputs are of interest
            lat = h.arr([60.0 + i for i in range(n)])
            pl = h.arr([80.0 + i for i in range(n)])
            if kind == '2d':
                lat, pl = lat.reshape((1, n)), pl.reshape((1, n))
        else:
            lat = [60.0 + i for i in range(n)]
            pl = [80.0 + i for i in range(n)]
        a.update(lat=lat, plat=pl)
        # fixed local times, with data and pole latitudes the angle is too
        a['lt'] = h.arr([-3.0, 25.0, 7.0][:n])
        a['plt'] = h.arr([30.0, 2.0, 7.0][:n])
        if nan is not None:
            a['lt'] = h.arr([h.nan() if i == nan else 25.0
                             for i in range(n)])
        w = Watch(h, **a)
        vectors.calc_vec_pole_angle(a['lt'], a['lat'], a['plt'], a['plat'])
    elif op == 'polequad':
        a['ang'] = values(h, 'ang', kind, n, 0, 180, nan)
        w = Watch(h, **a)
        vectors.define_pole_quadrants(a['lt'], a['plt'], a['ang'])
    elif op == 'vectquad':
        a = dict(n=values(h, 'n', kind, n, -9, 9, nan),
                 e=values(h, 'e', kind, n, -9, 9))
        w = Watch(h, **a)
        vectors.define_vect_quadrants(a['n'], a['e'])
    elif op == 'adjust':
        a.update(lat=h.arr([60.0, -40.0][:n]), plat=h.arr([80.0, -75.0][:n]),
                 n=values(h, 'n', kind, n, -9, 9, nan),
                 e=values(h, 'e', kind, n, -9, 9),
                 z=values(h, 'z', kind, n, -9, 9),
                 vq=h.arr([0, 0][:n], 'i'), pq=h.arr([0, 0][:n], 'i'),
                 ang=h.arr([30.0, 120.0][:n]))
        # fixed local times, with data and pole latitudes the angle is too
        a['lt'] = h.arr([-3.0, 25.0, 7.0][:n])
        a['plt'] = h.arr([30.0, 2.0, 7.0][:n])
        if nan is not None:
            a['lt'] = h.arr([h.nan() if i == nan else 25.0
                             for i in range(n)])
        w = Watch(h, **a)
        vectors.adjust_vector(a['lt'], a['lat'], a['n'], a['e'], a['z'],
                              a['vq'], a['plt'], a['plat'], a['ang'], a['pq'])
    else:
        q = [values(h, x, 'i', n, 1, 4) for x in ('pq', 'vq')]
        a = dict(pq=q[0], vq=q[1], naz=values(h, 'naz', kind, n, 0, 90),
                 ang=values(h, 'ang', kind, n, 0, 180, nan))
        w = Watch(h, **a)
        if op == 'polar':
            vectors.calc_dest_polar_angle(a['pq'], a['vq'], a['naz'], a['ang'])
        else:
            vectors.calc_dest_vec_sign(a['pq'], a['vq'], a['naz'], a['ang'],
                                       north=True, east=True)
    w.done()


def clock(h, op='fix_range', kind='f', n=2, nan=None):
    from ocbpy import ocb_time
    if op == 'slt2glon' or op == 'glon2slt':
        t = instant(h, h.real('sec', 0, 86399), T0.replace(hour=0, minute=0,
                                                           second=0,
                                                           microsecond=0))
        x = values(h, 'x', kind, n, -30, 40)
        w = Watch(h, x=x)
        getattr(ocb_time, op)(x, t)
    else:
        lo, hi = (-30, 40) if op in ('fix_range', 'hr2deg', 'hr2rad') else \
            (-400, 700) if op == 'deg2hr' else (-8, 9)
        x = values(h, 'x', kind, n, lo, hi, nan)
        w = Watch(h, x=x)
        if op == 'fix_range':
            ocb_time.fix_range(x, 0.0, 24.0)
        else:
            getattr(ocb_time, op)(x)
    w.done()


def scaling(h, op='normal_evar', kind='f', n=2):
    from ocbpy import ocb_scaling
    x = values(h, 'x', kind, n, -9, 9)
    if op in ('hav', 'archav'):
        x = h.arr([0.25, 0.5][:n]) if op == 'archav' else \
            h.arr([0.25 * h.pi, -0.5 * h.pi][:n])
        w = Watch(h, x=x)
        getattr(ocb_scaling, op)(x)
        w.done()
        # a value that may or may not be in range
        y = h.real('y', -2, 2)
        h.decide(y > 0)
        return
    u, s = values(h, 'u', kind, n, 1, 40), values(h, 's', kind, n, 1, 40)
    w = Watch(h, x=x, unscaled=u, scaled=s)
    getattr(ocb_scaling, op)(x, u, s)
    w.done()


def correction(h, op='circular', kind='f', n=2):
    from ocbpy import ocb_correction
    if op == 'circular':
        x = values(h, 'x', kind, n, -20, 40)
        w = Watch(h, x=x)
        ocb_correction.circular(x, r_add=h.real('add', -2, 2))
        w.done()
        return
    g = [h.angle('x%d' % i, -2, 3) for i in range(n)]
    x = h.arr([y * 12 for y in g])
    w = Watch(h, x=x)
    getattr(ocb_correction, op)(x, method='gaussian' if op == 'harmonic'
                                else 'median')
    w.done()


# -- matching and listing
def listing(h, cls='OCBoundary', nb=2, nd=1, good=(1, 1), op='match'):
    import ocbpy
    from checks.common import ladder
    bt = ladder(h, 'b', nb, strict=True)
    dt = ladder(h, 'd', nd, first=(-200, 600))
    recs = [dict(other_record(i), time=instant(h, bt[i]),
                 fom=2.0 if good[i] else 7.0, num_sectors=12)
            for i in range(nb)]
    if cls == 'DualBoundary':
        o, _ = dual(h, 1)
        crit = {}
    else:
        o = boundary(h, cls, 1, 74.0, recs, -1)
        o.max_fom = 5.0
        crit = {'fom': ('maxeq', 6.0)}
    times = [instant(h, x) for x in dt]
    w = Watch(h, times=times, crit=crit).obj(
        'boundary', o, ('rec_ind', '_rec_ind'))
    if cls == 'DualBoundary':
        skip = ('rec_ind',)
        w.obj('OCB', o.ocb, skip).obj('EAB', o.eab, skip)
    if op == 'match':
        ocbpy.match_data_ocb(o, times, idat=0, max_tol=60, **crit)
    elif op == 'list':
        o.rec_ind = -1 if cls != 'DualBoundary' else 0
        ocbpy.cycle_boundary.retrieve_all_good_indices(o, **crit)
        h.check(o.rec_ind == (-1 if cls != 'DualBoundary' else 0),
                'listing leaves the record index')
    else:
        if cls == 'DualBoundary':
            o.get_next_good_ind()
        else:
            o.get_next_good_ocb_ind(**crit)
    w.done()


def track(h, kind='f', n=1):
    import ocbpy
    a = dict(lat=values(h, 'lat', kind, n, 50, 85),
             mlt=values(h, 'm', 'f' if kind != 'l' else 'l', n, 0, 23))
    if kind == 'l':
        a['mlt'] = [6.0] * n
    else:
        a['mlt'] = h.arr([6.0] * n)
    w = Watch(h, **a)
    ocbpy.cycle_boundary.satellite_track(a['lat'], a['mlt'], 10.0, 5.0, -3.0,
                                         20.0, 1)
    w.done()


def vdata(h, hemi=1, arrays=True, evar=False):
    """Vector data: set_ocb leaves the caller's arrays and boundary alone."""
    import ocbpy
    from ocbpy import ocb_scaling
    recs = [dict(other_record(i), time=T1) for i in range(3)]
    o = boundary(h, 'OCBoundary', hemi, hemi * 74.0, recs, 1)
    lat = h.arr([hemi * 70.0])
    lt = h.arr([26.0])
    di = h.arr([0], 'i')
    a = dict(lat=lat, lt=lt, dat_ind=di, vn=values(h, 'n', 'f', 1, -9, 9),
             ve=h.arr([3.0]), vz=values(h, 'z', 'f', 1, -9, 9))
    w = Watch(h, **a).obj('boundary', o, ('rec_ind',))
    sf = ocbpy.ocb_scaling.normal_evar if evar else None
    v = ocb_scaling.VectorData(di, 1, lat, lt, vect_n=a['vn'], vect_e=a['ve'],
                               vect_z=a['vz'], dat_name='x', dat_units='y')
    from ocbpy import vectors
    old = vectors.calc_vec_pole_angle
    # a given angle: where it comes from is decided elsewhere
    vectors.calc_vec_pole_angle = lambda *a, **k: h.arr([30.0])
    try:
        v.set_ocb(o, scale_func=sf)
    finally:
        vectors.calc_vec_pole_angle = old
    w.done()


def tasks(tier):
    out = []

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        out.append((body, k, dict(weight=w), nm))
    kinds = ('f', 'i', 'l', '2d')
    for hemi in (1, -1):
        for op in ('normal', 'revert', 'bound'):
            for cls in ('OCBoundary', 'EABoundary'):
                for kind in kinds if cls == 'OCBoundary' else ('f',):
                    add(single, hemi=hemi, op=op, kind=kind, cls=cls,
                        n=2 if kind == 'f' and op != 'revert' else 1)
            if op != 'bound':
                add(single, hemi=hemi, op=op, nan=0, n=2)
                add(single, hemi=hemi, op=op, rec=-1, n=1)
                for co in ('geodetic', 'geocentric'):
                    for kind in ('f', 'l'):
                        add(single, hemi=hemi, op=op, coords=co, n=1,
                            kind=kind)
        for op in ('normal', 'revert', 'calc_r'):
            for st in ('both', 'ocb', 'eab', 'other', 'all', 'none'):
                add(twin, hemi=hemi, op=op, stored=st, n=1,
                    ind=1 if hemi > 0 else 0)
            if hemi > 0:
                add(twin, hemi=hemi, op=op, n=1, scalar=True)
                add(twin, 5, hemi=hemi, op=op, n=2)
                for kind in ('i', 'l'):
                    add(twin, hemi=hemi, op=op, n=1, kind=kind)
                if op != 'calc_r':
                    add(twin, hemi=hemi, op=op, n=1, coords='geodetic')
        add(vdata, hemi=hemi)
        add(vdata, hemi=hemi, evar=True)
    for op in ('angle', 'polequad', 'vectquad', 'adjust', 'polar', 'sign'):
        for kind in ('f', 'i', 'l'):
            if kind != 'f' and op in ('angle', 'adjust'):
                continue
            add(vectors_, op=op, kind=kind, n=1 if op in ('polar', 'sign')
                and kind != 'f' or op == 'angle' else 2)
        add(vectors_, op=op, nan=0, n=1 if op == 'angle' else 2)
    for op in ('fix_range', 'deg2hr', 'hr2deg', 'hr2rad', 'rad2hr',
               'slt2glon', 'glon2slt'):
        for kind in kinds:
            add(clock, op=op, kind=kind, n=1 if kind != 'f' else 2)
        add(clock, op=op, nan=0)
    for op in ('normal_evar', 'normal_curl_evar', 'hav', 'archav'):
        for kind in ('f', 'i') if op[0] == 'n' else ('f',):
            add(scaling, op=op, kind=kind)
    for op in ('circular', 'elliptical', 'harmonic'):
        add(correction, op=op)
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for op in ('match', 'next') if cls == 'DualBoundary' else (
                'match', 'list', 'next'):
            for good in ((1, 1), (0, 1), (1, 0)) if cls == 'OCBoundary' else \
                    ((1, 1),):
                add(listing, cls=cls, op=op, good=good)
    for kind in ('f', 'i', 'l'):
        add(track, kind=kind)
    return out
