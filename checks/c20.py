"""C20: array results equal element-by-element results."""
from checks.common import (UFunc, boundary, dual, instant, other_record, T0,
                           T1)
from symx.harness import flat

BOUNDS = ('Arrays of 1-3 elements and 1x2 and 2x1 arrays against scalar calls, '
          'every single value beside arrays and arrays beside single values '
          'that is accepted; free latitudes and local times (both '
          'hemispheres when normalising), NaN elements, an arbitrary '
          'correction function, OCB, EAB and dual boundaries, magnetic '
          'coordinates (geographic ones in C31).')
OUTSIDE = ('Longer arrays; reverting arrays that mix hemispheres and '
           'the correction reported outside the hemisphere (existing tests '
           'expect other values for arrays); two-dimensional geographic input.')
SHP = {'1': (1,), '2': (2,), '3': (3,), '12': (1, 2), '21': (2, 1)}


def grid(shape):
    n = 1
    for s in SHP[shape]:
        n *= s
    return n


def compare(h, fn, cols, shape, mix, names, same=None, ty=None):
    """fn(array arguments) against fn(each element).

    cols: list of argument value lists; mix: indices passed as scalars.
    """
    n = grid(shape)
    args = []
    for j, c in enumerate(cols):
        if c is None or not isinstance(c, list):
            args.append(c)
        elif j in mix:
            args.append(c[0])
        else:
            args.append(h.arr(c, (ty or {}).get(j, 'f')).reshape(SHP[shape]))
    out = fn(*args)
    if not isinstance(out, tuple):
        out = (out,)
    vals = []
    for o, nm in zip(out, names):
        v = flat(o)
        if nm == 'correction' and len(v) == 1:
            # a function of a single local time
            v = v * n
        else:
            h.shape_is(o, SHP[shape], nm)
        vals.append(v)
    out = vals
    for i in range(n):
        one = fn(*[c if not isinstance(c, list) else
                   c[0 if j in mix else i] for j, c in enumerate(cols)])
        if not isinstance(one, tuple):
            one = (one,)
        for o, e, nm in zip(out, one, names):
            h.check(len(flat(e)) == 1, nm + ' of one element')
            if i < len(o):
                if nm == 'correction' and h.is_nan(flat(one[0])[0]):
                    # the existing tests expect the value of the function
                    # for array elements outside the hemisphere
                    continue
                if same and nm in same:
                    h.eq_mod(o[i], flat(e)[0], same[nm],
                             '%s as if alone' % nm)
                else:
                    h.eq(o[i], flat(e)[0], '%s as if alone' % nm)


def lats(h, n, lo, hi, nan, base=1):
    return [h.nan() if i == nan else h.real('lat%d' % i, lo, hi) * base
            for i in range(n)]


def times_(h, n, turns=0):
    """Local times as angles."""
    return [h.angle('f%d' % i, 0, 2, ex_hi=True) * 12 + 24 * turns
            for i in range(n)]


def single(h, cls='OCBoundary', hemi=1, op='normal', shape='2', mix=(),
           nan=None, coords='magnetic', rcent=4.0, turns=0):
    rec = dict(other_record(0), time=T1, rfunc=UFunc(h, 'rc', -0.5, 5),
               kwargs={'a': 1}, phi=90.0, rcent=rcent)
    o = boundary(h, cls, hemi, hemi * 74.0, [other_record(1), rec], 1)
    o.dtime[:] = [T0, T1]
    n = grid(shape)
    names = ('latitude', 'MLT', 'correction')
    if coords != 'magnetic':
        h.aacgm_opts = {'lat': (-89, 89), 'lon_angle': True}
    if op == 'bound':
        def fn(m):
            o.get_aacgm_boundary_lat(m, rec_ind=1, overwrite=True,
                                     set_lon=False)
            return o.aacgm_boundary_lat[1], o.aacgm_boundary_mlt[1]
        compare(h, fn, [times_(h, n, turns)], shape, mix, names[:2])
        return
    mlt = times_(h, n, turns)
    ht = [h.real('ht%d' % i, 100, 900) for i in range(n)] \
        if coords != 'magnetic' else 350.0
    if op == 'normal':
        lat = lats(h, n, -89, 89, nan)
        compare(h, lambda a, b, c: o.normal_coord(a, b, coords=coords,
                                                  height=c),
                [lat, mlt, ht], shape, mix, names)
    else:
        lat = lats(h, n, 0, 90, nan, hemi)
        for x in lat:
            if not h.is_nan(x):
                h.assume(x * hemi > 0)
        rc = [h.real('rc%d' % i, -0.5, 5) for i in range(n)]
        compare(h, lambda a, b, c, d: o.revert_coord(a, b, c, coords=coords,
                                                     height=d),
                [lat, mlt, rc, ht], shape, mix, names[:2])


def twin(h, hemi=1, op='normal', shape='2', mix=(), nan=None,
         coords='magnetic', ind=1, regions=None):
    d, info = dual(h, hemi, dict(rcent=0.0, phi=0.0, r=12.0,
                                 rfunc=UFunc(h, 'co', -0.5, 5)),
                   dict(rcent=0.0, phi=0.0, r=26.0,
                        rfunc=UFunc(h, 'ce', -0.5, 5)), ind=ind)
    n = grid(shape)
    if coords != 'magnetic':
        h.aacgm_opts = {'lat': (-89, 89), 'lon_angle': True}
    mlt = times_(h, n)
    ht = [h.real('ht%d' % i, 100, 900) for i in range(n)] \
        if coords != 'magnetic' else 350.0
    if op == 'normal':
        lat = lats(h, n, -89, 89, nan)
        compare(h, lambda a, b, c: d.normal_coord(a, b, coords=coords,
                                                  height=c),
                [lat, mlt, ht], shape, mix,
                ('latitude', 'MLT', 'OCB latitude', 'correction'))
        return
    lat = lats(h, n, 0, 89, nan, hemi)
    for x in lat:
        if not h.is_nan(x):
            h.assume(x * hemi > 0)
    am = [h.angle('am%d' % i, 0, 2, ex_hi=True) * 12 for i in range(n)]
    rc = [h.real('rc%d' % i, -0.5, 5) for i in range(n)]
    if op == 'revert':
        compare(h, lambda a, b, c, e, f: d.revert_coord(
            a, b, c, is_ocb=False, aacgm_mlt=e, coords=coords, height=f),
            [lat, mlt, rc, am, ht], shape, mix, ('latitude', 'MLT'))
    else:
        compare(h, lambda a, b, c, e: d.calc_r(a, b, c, e),
                [lat, mlt, am, rc], shape, mix,
                ('scaled radius', 'unscaled radius'))


def quads(h, op='pole', shape='2', mix=(), nan=None):
    from ocbpy import vectors
    n = grid(shape)
    if op == 'pole':
        cols = [[h.real('lt%d' % i, 0, 24) for i in range(n)],
                [h.real('pl%d' % i, -6, 24) for i in range(n)],
                [h.real('an%d' % i, 0, 180) for i in range(n)]]
        fn = vectors.define_pole_quadrants
    else:
        cols = [[h.real('n%d' % i, -9, 9) for i in range(n)],
                [h.real('e%d' % i, -9, 9) for i in range(n)]]
        fn = vectors.define_vect_quadrants
    if nan is not None:
        cols[nan[0]][nan[1]] = h.nan()
    compare(h, fn, cols, shape, mix, ('quadrant',))


def angles(h, shape='2', mix=(), nan=None, pos=((60.0, 80.0), (48.0, 66.0),
                                                (-30.0, -72.0))):
    """Free local times; latitudes from a list."""
    from ocbpy import vectors
    n = grid(shape)
    if len(mix) and (1 in mix or 3 in mix):
        pos = (pos[0],) * 3
    cols = [[h.const([3.0, -4.0, 10.0][i]) for i in range(n)],
            [h.const(p[0]) for p in pos[:n]],
            [h.const(3.0) for i in range(n)],
            [h.const(p[1]) for p in pos[:n]]]
    for i in range(n):
        j = 0 if 0 in mix else i
        k = 0 if 2 in mix else i
        if 2 not in mix or i == 0:
            # on the meridian, opposite to it, or to either side
            if i > 0:
                cols[2][k] = cols[0][j] + 6.0
                continue
            c = h.integer('side%d' % i, 0, 1 if mix else 3)
            for v, x in enumerate((0.0, 12.0, 6.0, 18.0)):
                if h.decide(c == v):
                    cols[2][k] = cols[0][j] + x
                    break
    if nan is not None:
        cols[nan[0]][nan[1]] = h.nan()
    compare(h, vectors.calc_vec_pole_angle, cols, shape, mix, ('angle',))


def adjust(h, shape='2', mix=(), nan=None, quad=False):
    from ocbpy import vectors
    n = grid(shape)
    cols = [[h.const([3.0, 20.0, 10.0][i]) for i in range(n)],
            [h.const([60.0, 70.0, -30.0][i]) for i in range(n)],
            [h.const(-4) if i else h.real('n0', -9, 9) for i in range(n)],
            [h.const(3) if i else h.real('e0', -9, 9) for i in range(n)],
            [h.real('z%d' % i, -9, 9) for i in range(n)],
            [0] * n,
            [h.const([9.0, 15.0, 4.0][i]) for i in range(n)],
            [h.const([80.0, 85.0, -75.0][i]) for i in range(n)],
            [h.const([30.0, 120.0, 90.0][i]) for i in range(n)],
            [0] * n]
    for i in range(n):
        h.assume((cols[2][0 if 2 in mix else i] != 0) |
                 (cols[3][0 if 3 in mix else i] != 0))
    if nan is not None:
        cols[nan[0]][nan[1]] = h.nan()
    if quad:
        for i in range(n):
            cols[9][i] = int(vectors.define_pole_quadrants(
                float([3.0, 20.0, 10.0][0 if 0 in mix else i]),
                float([9.0, 15.0, 4.0][0 if 6 in mix else i]),
                float([30.0, 120.0, 90.0][0 if 8 in mix else i])))
        if any(c in mix for c in (0, 6, 8)):
            cols[9] = [0] * n
    compare(h, vectors.adjust_vector, cols, shape, mix,
            ('north', 'east', 'vertical'), ty={5: 'i', 9: 'i'})


def dest(h, op='polar', shape='2', mix=()):
    from ocbpy import vectors
    n = grid(shape)
    cols = [[h.integer('pq%d' % i, 1, 4) for i in range(n)],
            [h.integer('vq%d' % i, 1, 4) for i in range(n)],
            [h.real('naz%d' % i, 0, 90) for i in range(n)],
            [h.real('an%d' % i, 0, 180) for i in range(n)]]
    if op == 'polar':
        compare(h, vectors.calc_dest_polar_angle, cols, shape, mix,
                ('polar angle',), ty={0: 'i', 1: 'i'})
        return

    def fn(*a):
        out = vectors.calc_dest_vec_sign(*a, north=True, east=True)
        return out['north'], out['east']
    compare(h, fn, cols, shape, mix, ('north sign', 'east sign'),
            ty={0: 'i', 1: 'i'})


def clock(h, op='fix_range', shape='2', nan=None):
    from ocbpy import ocb_time
    n = grid(shape)
    if op in ('slt2glon', 'glon2slt'):
        day = T0.replace(hour=0, minute=0, second=0, microsecond=0)
        t = instant(h, h.real('sec', 0, 86399), day)
        lo, hi = ((-24, 48) if op == 'slt2glon' else (-360, 540))
        x = [h.real('x%d' % i, lo, hi) for i in range(n)]
        compare(h, lambda v: getattr(ocb_time, op)(v, t), [x], shape, (),
                ('value',))
        return
    lo, hi = {'deg2hr': (-400, 700), 'rad2hr': (-8, 9)}.get(op, (-30, 40))
    x = [h.real('x%d' % i, lo, hi) for i in range(n)]
    if nan is not None:
        x[nan] = h.nan()
    if op == 'fix_range':
        def fn(v):
            return ocb_time.fix_range(v, 0.0, 24.0)
    else:
        fn = getattr(ocb_time, op)
    compare(h, fn, [x], shape, (), ('value',))


def formulas(h, op='normal_evar', shape='2', mix=(), nan=None):
    from ocbpy import ocb_correction, ocb_scaling, vectors
    n = grid(shape)
    if op in ('normal_evar', 'normal_curl_evar'):
        cols = [[h.real('x%d' % i, -9, 9) for i in range(n)],
                [h.real('u%d' % i, 1, 40) for i in range(n)],
                [h.real('s%d' % i, 1, 40) for i in range(n)]]
        fn = getattr(ocb_scaling, op)
    elif op == 'get_pole_loc':
        cols = [[h.real('p%d' % i, -360, 720) for i in range(n)],
                [h.real('r%d' % i, 0, 40) for i in range(n)]]
        compare(h, vectors.get_pole_loc, cols, shape, mix, ('LT', 'latitude'))
        return
    elif op == 'circular':
        add = h.real('add', -3, 3)
        cols = [[h.real('m%d' % i, -10, 30) for i in range(n)]]

        def fn(m):
            return ocb_correction.circular(m, r_add=add)
    else:
        meth = op.split('-')[1]
        cols = [times_(h, n, -1 if n == 1 else 0)]

        def fn(m):
            return getattr(ocb_correction, op.split('-')[0])(m, method=meth)
    if nan is not None:
        cols[0][nan] = h.nan()
    compare(h, fn, cols, shape, mix, ('value',))


def tasks(tier):
    out = []

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        out.append((body, k, dict(weight=w), nm.replace('()', '-')))
    deep = tier == 'thorough'
    for hemi in (1, -1):
        for cls in ('OCBoundary', 'EABoundary'):
            for op in ('normal', 'revert', 'bound'):
                for shape in ('1', '2', '12', '21') + (
                        ('3',) if deep else ()):
                    if cls == 'OCBoundary' or shape == '2':
                        add(single, hemi=hemi, cls=cls, op=op, shape=shape)
            if cls == 'OCBoundary':
                for mix in ((0,), (1,)):
                    add(single, hemi=hemi, cls=cls, op='normal', mix=mix)
                for mix in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
                    add(single, hemi=hemi, cls=cls, op='revert', mix=mix)
                for nan in (0, 1):
                    add(single, hemi=hemi, cls=cls, op='normal', nan=nan)
                    add(single, hemi=hemi, cls=cls, op='revert', nan=nan)
        for op in ('normal', 'revert', 'calc_r'):
            for shape in ('1', '2', '12', '21') + (('3',) if deep else ()):
                if hemi < 0 and shape in ('12', '21') and not deep:
                    continue
                add(twin, 3, hemi=hemi, op=op, shape=shape,
                    ind=int(shape != '2'))
            ms = {'normal': ((0,), (1,)),
                  'revert': ((0,), (1,), (2,), (3,), (0, 1)),
                  'calc_r': ((0,), (1,), (2,), (3,), (0, 3))}[op]
            for mix in ms:
                add(twin, 3, hemi=hemi, op=op, mix=mix)
            for nan in (0, 1) if op != 'calc_r' else ():
                add(twin, 3, hemi=hemi, op=op, nan=nan)
    for op, ns in (('pole', 3), ('vect', 2)):
        for shape in ('1', '2', '12') + (('3',) if op == 'vect' else ()):
            add(quads, op=op, shape=shape)
        for j in range(ns):
            add(quads, op=op, mix=(j,))
            add(quads, op=op, nan=(j, j % 2))
            if ns == 3:
                add(quads, op=op, mix=tuple(x for x in range(3) if x != j))
    for shape in ('1', '2', '12'):
        if deep or shape != '12':
            add(angles, shape=shape)
        add(adjust, shape=shape)
        add(adjust, shape=shape, quad=True)
    for j in range(4):
        if deep or j in (0, 3):
            add(angles, mix=(j,))
            add(angles, nan=(j, 1))
        if deep or j == 2:
            add(angles, mix=tuple(x for x in range(4) if x != j))
    for j in range(10):
        add(adjust, mix=(j,))
    for mix in ((2, 3, 4), (0, 1), (6, 7), (8,), (0, 1, 6, 7, 8),
                (2, 3, 4, 5), (6, 7, 8, 9)):
        add(adjust, mix=mix, quad=True)
    for j in (2, 3, 4, 8):
        add(adjust, nan=(j, 0))
    for op in ('polar', 'sign'):
        for shape in ('1', '2'):
            add(dest, 2, op=op, shape=shape)
        for j in range(4) if op == 'polar' else ():
            add(dest, 2, op=op, mix=(j,))
    for op in ('fix_range', 'deg2hr', 'hr2deg', 'hr2rad', 'rad2hr',
               'slt2glon', 'glon2slt'):
        for shape in ('1', '2', '12', '21'):
            add(clock, op=op, shape=shape)
        if op[-4:] not in ('glon', '2slt'):
            add(clock, op=op, nan=0)
    for op in ('normal_evar', 'normal_curl_evar', 'get_pole_loc', 'circular',
               'elliptical-median', 'elliptical-gaussian', 'harmonic-median',
               'harmonic-gaussian'):
        for shape in ('1', '2', '12'):
            add(formulas, op=op, shape=shape)
        k = {'normal_evar': 3, 'normal_curl_evar': 3,
             'get_pole_loc': 2}.get(op, 0)
        for j in range(k):
            add(formulas, op=op, mix=(j,))
    return out
