"""C02: reverting normalised coordinates restores the position."""
from checks.common import UFunc, boundary, cap, other_record, T1
from symx.harness import flat

BOUNDS = ('Scalar and 1-2 element calls; rho in (0, 90), MLT in [0, 24), '
          'centre radius in [0, 20], r in [1, 40], correction in [-0.5, 30], '
          'boundary latitude in [45, 89]; the record under test is one of 1-3.')
THOROUGH = '3 elements; MLT given in [-24, 48).'


def make(h, hemi, nrec, ind, cls, rf, kw):
    rec, g = cap(h, '')
    bl = h.real('bl', 45, 89)
    rec['rfunc'] = rf
    rec['kwargs'] = kw
    rec['time'] = T1
    recs = [other_record(i) for i in range(nrec)]
    for r in recs:
        r['rfunc'] = lambda x, **k: x * 0 + 7.0
    recs[ind] = rec
    return boundary(h, cls, hemi, bl * hemi, recs, ind), rec


def fwd(h, hemi=1, n='0', nrec=1, ind=0, cls='OCBoundary', lo=0, hi=2):
    """normalise then revert"""
    rf = UFunc(h, 'rc', -0.5, 30)
    o, rec = make(h, hemi, nrec, ind, cls, rf, {'a': 1.5})
    k = 1 if n == '0' else int(n)
    rho = [h.real('rho%d' % i, 0, 90, ex=True) for i in range(k)]
    f = [h.angle('f%d' % i, lo, hi, ex_hi=True) for i in range(k)]
    lat = [(90 - x) * hemi for x in rho]
    mlt = [x * 12 for x in f]
    if n == '0':
        nl, nm, rc = o.normal_coord(lat[0], mlt[0])
        h.assume(flat(nl)[0] * hemi > 0)
        h.assume(flat(nl)[0] * hemi < 90)
        rl, rm = o.revert_coord(nl, nm, rc)
        h.shape_is(rl, (), 'lat')
    else:
        nl, nm, rc = o.normal_coord(h.arr(lat), h.arr(mlt))
        for x in flat(nl):
            h.assume(x * hemi > 0)
            h.assume(x * hemi < 90)
        rl, rm = o.revert_coord(nl, nm, rc)
        h.shape_is(rl, (k,), 'lat')
        h.shape_is(rm, (k,), 'mlt')
    rl, rm = flat(rl), flat(rm)
    for i in range(k):
        h.eq(rl[i], lat[i], 'latitude restored')
        h.le(0, rm[i], 'reverted MLT at least 0')
        h.lt(rm[i], 24, 'reverted MLT below 24')
        h.eq_mod(rm[i], mlt[i], 24, 'MLT restored')
    h.observe('lat', rl)


def back(h, hemi=1, n='0', nrec=1, ind=0, cls='OCBoundary', lo=0, hi=2):
    """revert then normalise, with a record-constant correction"""
    c = h.real('rc', -0.5, 30)
    o, rec = make(h, hemi, nrec, ind, cls, lambda x, **k: x * 0 + c, {})
    k = 1 if n == '0' else int(n)
    rho = [h.real('rho%d' % i, 0, 90, ex=True) for i in range(k)]
    f = [h.angle('f%d' % i, lo, hi, ex_hi=True) for i in range(k)]
    lat = [(90 - x) * hemi for x in rho]
    mlt = [x * 12 for x in f]
    if n == '0':
        rl, rm = o.revert_coord(lat[0], mlt[0], c)
        h.assume(flat(rl)[0] * hemi > 0)
        h.assume(flat(rl)[0] * hemi < 90)
        nl, nm, rc = o.normal_coord(rl, rm)
    else:
        rl, rm = o.revert_coord(h.arr(lat), h.arr(mlt), h.arr([c] * k))
        for x in flat(rl):
            h.assume(x * hemi > 0)
            h.assume(x * hemi < 90)
        nl, nm, rc = o.normal_coord(rl, rm)
    nl, nm = flat(nl), flat(nm)
    for i in range(k):
        h.eq(nl[i], lat[i], 'normalised latitude restored')
        h.eq_mod(nm[i], mlt[i], 24, 'normalised MLT restored')
    h.observe('lat', nl)


def centre(h, hemi=1, cls='OCBoundary'):
    """the position at the boundary centre itself"""
    rf = UFunc(h, 'rc', -0.5, 30)
    o, rec = make(h, hemi, 2, 1, cls, rf, {})
    h.assume(rec['rcent'] > 0)
    nl, nm, rc = o.normal_coord((90 - rec['rcent']) * hemi, rec['phi'] / 15)
    h.eq(flat(nl)[0], 90 * hemi, 'centre is the normalised pole')
    rl, rm = o.revert_coord(nl, nm, rc)
    h.eq(flat(rl)[0], (90 - rec['rcent']) * hemi, 'latitude restored')
    h.eq_mod(flat(rm)[0], rec['phi'] / 15, 24, 'MLT restored')


def pole(h, hemi=1, cls='OCBoundary'):
    """the magnetic pole itself"""
    c = h.real('rc', -0.5, 30)
    o, rec = make(h, hemi, 2, 1, cls, lambda x, **k: x * 0 + c, {})
    k = (90 - o.boundary_lat * hemi) / (rec['r'] + c)
    lat = (90 - rec['rcent'] * k) * hemi
    h.assume(lat * hemi > 0)
    h.assume(rec['rcent'] > 0)
    mlt = rec['phi'] / 15 + 12
    rl, rm = o.revert_coord(lat, mlt, c)
    h.eq(flat(rl)[0], 90 * hemi, 'magnetic pole')
    nl, nm, rc = o.normal_coord(rl, rm)
    h.eq(flat(nl)[0], lat, 'normalised latitude restored')
    h.eq_mod(flat(nm)[0], mlt, 24, 'normalised MLT restored')


def tasks(tier):
    out = []
    for cls in ('OCBoundary', 'EABoundary'):
        for hemi in (1, -1):
            for n, nrec, ind in (('0', 1, 0), ('2', 3, 1)):
                for b in (fwd, back):
                    if n == '2' and b is back:
                        n = '1'
                    out.append((b, dict(hemi=hemi, n=n, nrec=nrec, ind=ind,
                                        cls=cls), {},
                                '%s %s hemi%+d n%s' % (b.__name__, cls, hemi,
                                                       n)))
            for b in (centre, pole):
                out.append((b, dict(hemi=hemi, cls=cls), dict(validate=False),
                            '%s %s hemi%+d' % (b.__name__, cls, hemi)))
    if tier == 'thorough':
        for hemi in (1, -1):
            for b in (fwd, back):
                out.append((b, dict(hemi=hemi, n='1', lo=-2, hi=4),
                            dict(budget=1800, t_goal=120),
                            '%s wide hemi%+d' % (b.__name__, hemi)))
                out.append((b, dict(hemi=hemi, n='3', nrec=2, ind=1),
                            dict(budget=1800, t_goal=120),
                            '%s 3 hemi%+d' % (b.__name__, hemi)))
    return out
