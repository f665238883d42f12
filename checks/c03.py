"""C03: fill values exactly for unusable records and wrong hemispheres."""
from checks.common import UFunc, boundary, cap, dual, other_record, T1
from symx.harness import flat

BOUNDS = ('Scalar and 1-3 element calls, arrays of floats or integers, lists; '
          'record index -2..records+2; co-latitude in (0, 180) (both '
          'hemispheres and the equator), MLT in [0, 24).')


def largest(*shapes):
    return max(shapes, key=lambda s: (len(s), s))


def shaped(h, x, shp, ty='f'):
    """Array of the given shape holding x (scalar if shp is None)."""
    if shp is None:
        return x
    n = 1
    for s in shp:
        n *= s
    return h.arr([x + i for i in range(n)], ty).reshape(shp)


SH = {'s': None, '1': (1,), '2': (2,), '22': (2, 2), '0d': ()}


def badrec(h, cls='OCBoundary', hemi=1, off=-1, latk='s', mltk='s', op='n'):
    """record index outside the loaded records"""
    recs = [other_record(0), other_record(1)]
    if cls == 'DualBoundary':
        o, _ = dual(h, hemi)
        nr = o.records
    else:
        o = boundary(h, cls, hemi, hemi * 74.0, recs, 0)
        nr = 2
    o.rec_ind = off if off < 0 else nr + off
    lat = shaped(h, h.real('lat', -80, 80), SH[latk])
    mlt = shaped(h, h.real('mlt', 0, 20), SH[mltk])
    want = largest(SH[latk] or (), SH[mltk] or ())
    if op == 'n':
        out = o.normal_coord(lat, mlt)
    elif cls == 'DualBoundary':
        out = o.revert_coord(lat, mlt, 0.0, is_ocb=False,
                             aacgm_mlt=mlt)
    else:
        out = o.revert_coord(lat, mlt, 0.0)
    for i, x in enumerate(out):
        h.shape_is(x, want, 'output %d' % i)
        h.all_nan(x, 'output %d' % i)


def wrong(h, cls='OCBoundary', hemi=1, latk='s', mltk='s', op='n', ty='f'):
    """no position in the boundary's hemisphere"""
    if cls == 'DualBoundary':
        o, _ = dual(h, hemi)
    else:
        o = boundary(h, cls, hemi, hemi * 74.0,
                     [other_record(0), other_record(1)], 1)
    shp = SH[latk]
    n = 1
    for s in shp or ():
        n *= s
    if ty == 'i':
        v = [h.integer('x%d' % i, 0, 89) * -hemi for i in range(n)]
    else:
        v = [h.real('x%d' % i, 0, 89) * -hemi for i in range(n)]
    lat = v[0] if shp is None else h.arr(v, ty).reshape(shp)
    mlt = shaped(h, h.real('mlt', 0, 20), SH[mltk])
    want = largest(SH[latk] or (), SH[mltk] or ())
    if op == 'n':
        out = o.normal_coord(lat, mlt)
    elif cls == 'DualBoundary':
        out = o.revert_coord(lat, mlt, 0.0, is_ocb=False,
                             aacgm_mlt=mlt)
    else:
        out = o.revert_coord(lat, mlt, 0.0)
    for i, x in enumerate(out):
        h.shape_is(x, want, 'output %d' % i)
        h.all_nan(x, 'output %d' % i)


def mixed(h, cls='OCBoundary', hemi=1, pat='io', ty='f', aslist=False,
          op='n'):
    """some positions in the hemisphere, some not"""
    rec, g = cap(h, '')
    rec['rfunc'] = UFunc(h, 'rc', -0.5, 30)
    rec['time'] = T1
    o = boundary(h, cls, hemi, hemi * h.real('bl', 45, 89), [rec], 0)
    lats, mlts = [], []
    for i, c in enumerate(pat):
        if ty == 'i':
            v = h.integer('l%d' % i, 1 if c == 'i' else 0, 89)
        elif c == 'n':
            v = h.nan()
        else:
            v = h.real('l%d' % i, 0, 90)
            if c == 'i':
                h.assume(v > 0)
                h.assume(v < 90)
            else:
                h.assume(v < 90)
        lats.append(v if c == 'n' else v * (hemi if c == 'i' else -hemi))
        mlts.append(h.angle('f%d' % i, 0, 1, ex_hi=True) * 12)
    lat = lats if aslist else h.arr(lats, ty)
    mlt = mlts if aslist else h.arr(mlts)
    if op == 'n':
        ol, om, rc = o.normal_coord(lat, mlt)
    else:
        ol, om = o.revert_coord(lat, mlt, h.arr([0.0] * len(pat)))
    h.shape_is(ol, (len(pat),), 'lat')
    h.shape_is(om, (len(pat),), 'mlt')
    ol, om = flat(ol), flat(om)
    for i, c in enumerate(pat):
        if c != 'i':
            h.all_nan(ol[i], 'latitude outside')
            h.all_nan(om[i], 'MLT outside')
        else:
            al, am, ar = o.normal_coord(lats[i], mlts[i])
            h.eq(ol[i], flat(al)[0], 'latitude as if alone')
            h.eq(om[i], flat(am)[0], 'MLT as if alone')
            if op == 'n':
                h.eq(flat(rc)[i], flat(ar)[0], 'correction as if alone')


def tasks(tier):
    out = []
    kinds = [('s', 's'), ('2', '2'), ('s', '2'), ('2', 's'), ('1', '1'),
             ('22', '22')]
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for hemi in (1, -1):
            for op in 'nr':
                for a, b in kinds:
                    for off in (-2, -1, 0, 2):
                        if cls == 'DualBoundary' and off == -2:
                            continue
                        out.append((badrec, dict(cls=cls, hemi=hemi, off=off,
                                                 latk=a, mltk=b, op=op), {},
                                    'badrec %s %+d %s %s%s %d' % (
                                        cls, hemi, op, a, b, off)))
                    out.append((wrong, dict(cls=cls, hemi=hemi, latk=a,
                                            mltk=b, op=op), {},
                                'wrong %s %+d %s %s%s' % (cls, hemi, op, a,
                                                          b)))
                out.append((wrong, dict(cls=cls, hemi=hemi, latk='2',
                                        mltk='2', op=op, ty='i'), {},
                            'wrong int %s %+d %s' % (cls, hemi, op)))
    for cls in ('OCBoundary', 'EABoundary'):
        for hemi in (1, -1):
            pats = ['io', 'oi', 'ni', 'in'] + (
                ['oio', 'ioi'] if cls == 'OCBoundary' else [])
            for p in pats:
                out.append((mixed, dict(cls=cls, hemi=hemi, pat=p), {},
                            'mixed %s %+d %s' % (cls, hemi, p)))
            out.append((mixed, dict(cls=cls, hemi=hemi, pat='io', ty='i'), {},
                        'mixed int %s %+d' % (cls, hemi)))
            out.append((mixed, dict(cls=cls, hemi=hemi, pat='oi', ty='i',
                                    aslist=True), {},
                        'mixed intlist %s %+d' % (cls, hemi)))
    return out
