"""C04: the reported boundary latitude lies on the boundary."""
from checks.common import T0, T1, UFunc, boundary, cap, other_record
from symx.harness import flat

BOUNDS = ('1-2 MLT values per call (scalar, 0-d, array, list; floats in '
          '[-24, 48) or selected integers); 1-3 records, requested by index, by list '
          'or all; centre radius in [0, 20], r in [1, 40], correction in '
          '[-0.5, 20]; both hemispheres; any subset previously stored.')
THOROUGH = 'MLT in [-96, 96), 3 values.'


def mlts(h, n, lo, hi, ty):
    k = 1 if n in ('s', '0d') else int(n)
    if ty == 'i':
        x = [lo, hi][:k]
        f = [h.const(v) / 12 for v in x]
    else:
        f = [h.angle('f%d' % i, lo, hi, ex_hi=True) for i in range(k)]
        x = [v * 12 for v in f]
    arg = x[0] if n == 's' else h.arr(x[0] if n == '0d' else x, ty)
    return arg, x, f


def value(h, lat, rec, g, f, want, hemi, label):
    """lat is the latitude of the boundary of rec at local time f"""
    c, s = h.cs(f)
    cp, sp = h.cs(g)
    R = rec['r'] + want
    d = rec['rcent']
    dc = d * (c * cp + s * sp)
    disc = R * R - d * d + dc * dc
    if h.is_nan(lat):
        h.check((disc < 0) | ((dc < 0) & (R * R < d * d)),
                label + ': NaN only without a boundary point')
        return
    rad = 90 - lat * hemi
    h.le(0, rad, label + ': not beyond the pole')
    xp = rad * c - d * cp
    yp = rad * s - d * sp
    h.eq(xp * xp + yp * yp, R * R, label + ': on the boundary')


def body(h, cls='OCBoundary', hemi=1, n='s', ty='f', nrec=1, req=0, stored=(),
         overwrite=False, set_lon=False, lo=-2, hi=4):
    rf = UFunc(h, 'rc', -0.5, 20)
    recs, gs = [], []
    for i in range(nrec):
        r, g = cap(h, i)
        r.update(rfunc=rf, kwargs={'k': i}, time=T1 if i else T0)
        recs.append(r)
        gs.append(g)
    o = boundary(h, cls, hemi, hemi * 74.0, recs, 0)
    arg, x, f = mlts(h, n, lo, hi, ty)
    tag = {i: ('lat%d' % i, 'mlt%d' % i) for i in stored}
    if stored is not None and len(stored):
        o.aacgm_boundary_lat = [tag[i][0] if i in tag else None
                                for i in range(nrec)]
        o.aacgm_boundary_mlt = [tag[i][1] if i in tag else None
                                for i in range(nrec)]
    o.get_aacgm_boundary_lat(arg, rec_ind=req, overwrite=overwrite,
                             set_lon=set_lon)
    want = list(range(nrec)) if req is None else (
        [req] if isinstance(req, int) else list(req))
    h.check(len(o.aacgm_boundary_lat) == nrec, 'one entry per record')
    h.check(len(o.aacgm_boundary_mlt) == nrec, 'one MLT entry per record')
    for i in range(nrec):
        la, ml = o.aacgm_boundary_lat[i], o.aacgm_boundary_mlt[i]
        if i not in want or (i in tag and not overwrite):
            h.check(la is None if i not in tag else
                    (isinstance(la, str) and la == tag[i][0]),
                    'record that may not change keeps its latitude')
            h.check(ml is None if i not in tag else
                    (isinstance(ml, str) and ml == tag[i][1]),
                    'record that may not change keeps its MLT')
            continue
        shp = () if n in ('s', '0d') else (len(x),)
        h.shape_is(la, shp, 'latitude')
        h.shape_is(ml, shp, 'MLT')
        la, ml = flat(la), flat(ml)
        for j in range(len(x)):
            h.le(0, ml[j], 'stored MLT at least 0')
            h.lt(ml[j], 24, 'stored MLT below 24')
            h.eq_mod(ml[j], x[j], 24, 'stored MLT is the requested one')
            value(h, la[j], recs[i], gs[i], f[j],
                  rf(ml[j], k=i), hemi, 'record %d' % i)
            if set_lon:
                lon = flat(o.aacgm_boundary_lon[i])
                h.check(len(lon) == len(x), 'longitudes stored')
                h.eq(lon[j], flat(h.aacgm.convert_mlt(
                    h.arr([ml[j]]), recs[i]['time'], m2a=True))[0],
                    'longitude of the MLT at the time of the record')
    h.eqs(arg, x, 'input MLT unchanged')


def seq(h, hemi=1, overwrite=False):
    """two successive requests at different MLTs"""
    rf = UFunc(h, 'rc', -0.5, 20)
    r, g = cap(h, '')
    r.update(rfunc=rf)
    o = boundary(h, 'OCBoundary', hemi, hemi * 74.0,
                 [other_record(1), r], 1)
    f0, f1 = h.angle('f0', 0, 2, ex_hi=True), h.angle('f1', 0, 2, ex_hi=True)
    o.get_aacgm_boundary_lat(h.arr([f0 * 12]), rec_ind=1, set_lon=False)
    o.get_aacgm_boundary_lat(h.arr([f1 * 12]), rec_ind=1, set_lon=False,
                             overwrite=overwrite)
    f = f1 if overwrite else f0
    ml = flat(o.aacgm_boundary_mlt[1])[0]
    h.eq(ml, f * 12, 'MLT kept or replaced')
    value(h, flat(o.aacgm_boundary_lat[1])[0], r, g, f, rf(ml), hemi,
          'kept or replaced')
    h.check(o.aacgm_boundary_lat[0] is None, 'other record untouched')


def tasks(tier):
    out = []

    def add(b, nm, **k):
        out.append((b, k, {}, nm))
    for hemi in (1, -1):
        for cls in ('OCBoundary', 'EABoundary'):
            for n in ('s', '0d', '1', '2'):
                add(body, '%s %+d %s' % (cls, hemi, n), cls=cls, hemi=hemi,
                    n=n, lo=0 if n == '2' else -2, hi=2 if n == '2' else 4)
        for n, a, b in (('s', 2, 0), ('s', -8, 0), ('1', 24, 0),
                        ('2', 0, 38), ('2', 12, 22)):
            add(body, 'int %+d %s %d %d' % (hemi, n, a, b), hemi=hemi, n=n,
                ty='i', lo=a, hi=b)
        for req in (None, [1, 0], [1], 1):
            add(body, 'request %+d %s' % (hemi, req), hemi=hemi, n='1',
                nrec=2, req=req, lo=0, hi=2)
            for ow in (False, True):
                if ow and req == [1, 0] and hemi > 0:
                    continue
                add(body, 'stored %+d %s %s' % (hemi, req, ow), hemi=hemi,
                    n='1', nrec=2, req=req, stored=(1,), overwrite=ow, lo=0,
                    hi=2)
        add(body, 'stored all %+d' % hemi, hemi=hemi, n='s', nrec=3, req=None,
            stored=(0, 1, 2), lo=0, hi=2)
        add(body, 'stored two %+d' % hemi, hemi=hemi, n='s', nrec=3,
            req=[2, 0], stored=(0, 1), lo=0, hi=2)
        add(body, 'longitude %+d' % hemi, hemi=hemi, n='1', nrec=2, req=1,
            set_lon=True, lo=0, hi=2)
        add(body, 'longitude 2 %+d' % hemi, hemi=hemi, n='2', nrec=1, req=0,
            set_lon=True, lo=0, hi=2)
        for ow in (False, True):
            add(seq, 'sequence %+d %s' % (hemi, ow), hemi=hemi, overwrite=ow)
        if tier == 'thorough':
            add(body, 'wide %+d' % hemi, hemi=hemi, n='s', lo=-8, hi=8)
            add(body, 'two wide %+d' % hemi, hemi=hemi, n='2', lo=-1, hi=3)
            add(body, 'three %+d' % hemi, hemi=hemi, n='3', lo=0, hi=2)
    return out
