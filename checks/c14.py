"""C14: vector adjustment rotates by the bearing of the destination pole."""
from symx.harness import flat

BOUNDS = ('Every vector (components up to 100), every pole angle, every '
          'local-time difference within two cycles, pole latitudes off the '
          'equator in both hemispheres; quadrants given or left undefined; '
          'scalars, 1-3 element arrays, scalar and array mixtures, zero and '
          'NaN elements, locations exactly on the meridian of the pole.')
OUTSIDE = ('Data at the base pole or its antipode and data at the '
           'destination pole, where no direction exists; floating-point '
           'rounding.')
NAMES = ('vect_lt', 'vect_lat', 'vect_n', 'vect_e', 'vect_z', 'vect_quad',
         'pole_lt', 'pole_lat', 'pole_angle', 'pole_quad')


def quad_of(h, n, e):
    if h.decide(n >= 0):
        return 1 if h.decide(e >= 0) else 2
    return 4 if h.decide(e >= 0) else 3


def vector(h, k, big=100):
    return [h.real('%s%d' % (c, k), -big, big) for c in 'nez']


def element(h, k, side, vec, turn, quads):
    """One data value: its ten inputs and its expected (cos, sin) bearing."""
    d = h.angle('d%d' % k, 0, 1, ex_lo=True, ex_hi=True)
    a = h.angle('a%d' % k, 0, 1, ex_lo=True, ex_hi=True)
    lt = h.real('lt%d' % k, 0, 24)
    lat = h.real('lat%d' % k, -90, 90)
    plat = h.real('plat%d' % k, -90, 90)
    if vec == 'free':
        n, e, z = vector(h, k)
        h.assume((n != 0) | (e != 0))
    elif vec == 'zero':
        n, e, z = h.const(0), h.const(0), h.real('z%d' % k, -50, 50)
    else:
        n, e = [h.const(x) for x in vec]
        z = h.real('z%d' % k, -50, 50)
    plt = lt + 12 * d * (1 if side == 'E' else -1) + 24 * turn
    pole = (1 if side == 'E' else 2)
    if h.decide(a * 2 >= 1):
        pole = (4 if side == 'E' else 3)
    ca, sa = h.cs(a)
    if side == 'W':
        sa = -sa
    vq, pq = 0, 0
    if quads:
        pq = pole if 'p' in quads else 0
        vq = quad_of(h, n, e) if 'v' in quads else 0
    return [lt, lat, n, e, z, vq, plt, plat, a * 180, pq], ca, sa


def expect(h, i, out, el, ca, sa):
    n, e, z = el[2:5]
    h.eq(out[0], n * ca + e * sa, 'north component %d' % i)
    h.eq(out[1], e * ca - n * sa, 'east component %d' % i)
    h.eq(out[2], z, 'vertical component %d' % i)


def rotate(h, sides='E', vec='free', turns=(0, 0, 0), quads='', shape='s',
           mix=(), nan=None, easy=()):
    """A pole off the meridian."""
    from ocbpy import vectors
    n = len(sides)
    els = []
    for k in range(n):
        v = (3, -4) if k in easy else vec
        els.append(element(h, k, sides[k], v, turns[k], quads))
    # scalars in a mixture take the value of the first element
    for c in mix:
        j = NAMES.index(c)
        for el, _, _ in els:
            el[j] = els[0][0][j]
    if nan is not None:
        els[nan[1]][0][NAMES.index(nan[0])] = h.nan()
    if shape == 's':
        args = list(els[0][0])
    else:
        args = [els[0][0][j] if NAMES[j] in mix or (
            NAMES[j][5:] == 'quad' and NAMES[j][0] not in quads)
            else h.arr([el[0][j] for el in els]) for j in range(10)]
    outs = vectors.adjust_vector(*args)
    want = () if shape == 's' else (n,)
    for o, c in zip(outs, 'nez'):
        h.shape_is(o, want, 'component ' + c)
    outs = [flat(o) for o in outs]
    for i, (el, ca, sa) in enumerate(els):
        o = [x[i] for x in outs]
        if nan is not None and nan[1] == i:
            if nan[0] == 'vect_z':
                h.check(h.is_nan(o[2]), 'NaN vertical component')
                h.eq(o[0], el[2] * ca + el[3] * sa, 'north beside NaN')
                h.eq(o[1], el[3] * ca - el[2] * sa, 'east beside NaN')
            else:
                h.check(h.is_nan(o[0]) and h.is_nan(o[1]), 'NaN for NaN')
        else:
            expect(h, i, o, el, ca, sa)


def mixture(h, mix, sides='E', same=1):
    """Scalars beside arrays of elements that share their location."""
    from ocbpy import vectors
    el, ca, sa = element(h, 0, sides, 'free', 0, '')
    rows = [list(el), list(el)]
    if 'vect_n' not in mix:
        rows[1][2] = h.const(-3)
    if 'vect_e' not in mix:
        rows[1][3] = h.const(4)
    if 'vect_z' not in mix:
        rows[1][4] = h.const(7)
    h.assume((rows[1][2] != 0) | (rows[1][3] != 0))
    args = [el[j] if NAMES[j] in mix or NAMES[j][5:] == 'quad'
            else h.arr([r[j] for r in rows]) for j in range(10)]
    outs = vectors.adjust_vector(*args)
    for o, c in zip(outs, 'nez'):
        h.shape_is(o, (2,), 'component ' + c)
    outs = [flat(o) for o in outs]
    for i, r in enumerate(rows):
        expect(h, i, [x[i] for x in outs], r, ca, sa)


def meridian(h, hemi=1, opp=0, shape='s', turn=0, zero=0):
    """A pole on the meridian of the data or on the opposite one."""
    from ocbpy import vectors
    v = h.angle('v', 0, 1, ex_lo=True, ex_hi=True)
    p = h.angle('p', 0, 0.5, ex_hi=True)
    lat, plat = (90 - v * 180) * hemi, (90 - p * 180) * hemi
    lt = h.real('lt', 0, 24)
    plt = lt + (12 if opp else 0) + 24 * turn
    if opp:
        h.assume(v + p != 1)
        away = h.decide(v + p > 1)
    else:
        h.assume(v != p)
        away = h.decide(v < p)
    n, e, z = vector(h, 0)
    if zero:
        n = e = h.const(0)
    s = -1 if away else 1
    if shape == 's':
        args = [lt, lat, n, e, z, plt, plat]
    else:
        args = [h.arr([x, y]) for x, y in (
            (lt, lt), (lat, lat), (n, -3), (e, 4), (z, 2), (plt, plt),
            (plat, plat))]
    lt, lat, n, e, z, plt, plat = args
    ang = vectors.calc_vec_pole_angle(lt, lat, plt, plat)
    outs = vectors.adjust_vector(
        lt, lat, n, e, z, vectors.define_vect_quadrants(n, e), plt, plat,
        ang, vectors.define_pole_quadrants(lt, plt, ang))
    for o, c, w in zip(outs, 'nez', (n, e, z)):
        h.shape_is(o, () if shape == 's' else (2,), 'component ' + c)
        for i, (a, b) in enumerate(zip(flat(o), flat(w))):
            h.eq(a, b * (s if c != 'z' else 1), 'meridian %s %d' % (c, i))


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for side in 'EW':
        for q in ('', 'v', 'p', 'vp'):
            add(rotate, sides=side, quads=q)
            add(rotate, sides=side, quads=q, shape='a')
        for t in (-1, 1):
            add(rotate, sides=side, turns=(t, 0, 0))
        add(rotate, sides=side, vec='zero')
        add(rotate, sides=side, vec='zero', shape='a')
        for j in ('vect_n', 'vect_e', 'vect_z', 'pole_angle'):
            add(rotate, sides=side, nan=(j, 0))
            add(rotate, sides=side, nan=(j, 0), shape='a')
            if j == 'vect_z' and tier == 'quick':
                continue
            add(rotate, sides=side + 'E', nan=(j, 0), shape='a', easy=(1,))
            add(rotate, sides=side + 'E', nan=(j, 1), shape='a', easy=(0,))
    for m in ('vect_n', 'vect_e', 'vect_z', 'pole_angle') + (
            () if tier == 'quick' else ('vect_lt', 'vect_lat', 'pole_lt',
                                        'pole_lat')):
        add(mixture, mix=(m,))
        add(mixture, mix=tuple(x for x in NAMES if x != m), sides='W')
    add(mixture, mix=('pole_lt', 'pole_lat', 'vect_z'))
    add(mixture, mix=('vect_n', 'vect_e', 'vect_z', 'vect_lt', 'vect_lat'))
    add(mixture, mix=('vect_lt', 'vect_lat', 'pole_lt', 'pole_lat',
                      'pole_angle'))
    for hemi in (1, -1):
        for opp in (0, 1):
            for t in (-1, 0, 1):
                add(meridian, hemi=hemi, opp=opp, turn=t)
            add(meridian, hemi=hemi, opp=opp, shape='a')
            add(meridian, hemi=hemi, opp=opp, zero=1)
            add(meridian, hemi=hemi, opp=opp, zero=1, shape='a')
    return out
