"""C16: quadrants of the pole and of the vector."""
from symx.harness import flat

BOUNDS = ('Every local-time pair within two cycles of each other, every pole '
          'angle from 0 to 180 degrees and vector component, NaN in each '
          'input; scalars, 1-3 element arrays and scalar/array mixtures.')
OUTSIDE = 'Local times more than two cycles apart.'


def pole(h, n=1, shape='s', mix='', nan=(), cyc=2):
    from ocbpy import vectors
    rows = []
    for k in range(n):
        lt = h.real('lt%d' % k, -24, 48)
        d = h.real('d%d' % k, -24 * cyc, 24 * cyc)
        rows.append([lt, lt + d, h.real('a%d' % k, 0, 180), d])
    for c in mix:
        j = int(c)
        for r in rows:
            r[j] = rows[0][j]
    for r in rows:
        r[3] = r[1] - r[0]
    for k, j in nan:
        rows[k][j] = h.nan()
    if shape == 's':
        args = rows[0][:3]
    else:
        args = [rows[0][j] if str(j) in mix else h.arr([r[j] for r in rows])
                for j in range(3)]
    keep = [list(flat(a)) for a in args]
    out = vectors.define_pole_quadrants(*args)
    h.shape_is(out, () if shape == 's' else (n,), 'quadrants')
    o = flat(out)
    for k, r in enumerate(rows):
        if any(h.is_nan(x) for x in r[:3]):
            h.eq(o[k], 0, 'undefined quadrant')
            continue
        f = r[3] / 24
        f = (f - h.floor(f)) * 24
        east = h.decide(f < 12)
        north = h.decide(r[2] < 90)
        h.eq(o[k], (1 if east else 2) if north else (4 if east else 3),
             'quadrant of the pole %d' % k)
    for a, b in zip(args, keep):
        for x, y in zip(flat(a), b):
            h.same(x, y, 'inputs are unchanged')


def vect(h, n=1, shape='s', mix='', nan=()):
    from ocbpy import vectors
    rows = [[h.real('%s%d' % (c, k), -1000, 1000) for c in 'ne']
            for k in range(n)]
    for c in mix:
        for r in rows:
            r[int(c)] = rows[0][int(c)]
    for k, j in nan:
        rows[k][j] = h.nan()
    if shape == 's':
        args = rows[0]
    else:
        args = [rows[0][j] if str(j) in mix else h.arr([r[j] for r in rows])
                for j in range(2)]
    out = vectors.define_vect_quadrants(*args)
    h.shape_is(out, () if shape == 's' else (n,), 'quadrants')
    o = flat(out)
    for k, r in enumerate(rows):
        if any(h.is_nan(x) for x in r):
            h.eq(o[k], 0, 'undefined quadrant')
            continue
        east = h.decide(r[1] >= 0)
        north = h.decide(r[0] >= 0)
        h.eq(o[k], (1 if east else 2) if north else (4 if east else 3),
             'quadrant of the vector %d' % k)


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    cyc = 2 if tier == 'quick' else 5
    add(pole, cyc=cyc)
    add(pole, cyc=cyc, shape='a')
    add(pole, cyc=1, shape='a', n=2)
    add(vect)
    add(vect, shape='a')
    add(vect, shape='a', n=3)
    if tier == 'thorough':
        add(pole, cyc=1, shape='a', n=3)
    for j in range(3):
        add(pole, nan=((0, j),))
        add(pole, nan=((0, j),), shape='a')
        add(pole, nan=((0, j),), shape='a', n=2)
        add(pole, nan=((1, j), (0, (j + 1) % 3)), shape='a', n=2)
    for m in ('0', '1', '2', '01', '02', '12'):
        add(pole, mix=m, cyc=1, shape='a', n=2)
    for j in range(2):
        add(vect, nan=((0, j),))
        add(vect, nan=((0, j),), shape='a', n=2)
        add(vect, nan=((0, j), (1, 1 - j)), shape='a', n=3)
        add(vect, mix=str(j), shape='a', n=2)
        add(vect, mix=str(j), shape='a', n=2, nan=((0, j), (1, j)))
    return out
