"""C29: satellite-track selection."""
from symx.harness import flat

BOUNDS = ('Crossings with coordinates within 40-50 degrees: any vertical or '
          'horizontal track and, along three pairs of directions, crossings '
          'at any distance with positions anywhere; any rising or falling '
          'track with positions along one meridian; free allowances up to 20 '
          'degrees, both hemispheres, single positions, arrays of 1-2 and '
          'NaN; invalid limits and hemispheres.')
OUTSIDE = ('Free crossings together with a free direction of the position; '
           'Rounding: positions within rounding of the edge of the band; '
           'identical crossings.')


def position(h, k, ang=None):
    """(lat in own hemisphere, half-turns of mlt - 6 h)"""
    lat = h.real('lat%d' % k, -89, 90)
    g = h.angle('g%d' % k, -0.5, 1.5, ex_hi=True) if ang is None else \
        h.frac(*ang)
    return lat, g


def cross(h, kind):
    x1, y1 = h.real('x1', -40, 40), h.real('y1', -40, 40)
    x2, y2 = h.real('x2', -40, 40), h.real('y2', -40, 40)
    if kind == 'vertical':
        x2 = x1
        h.assume(y1 != y2)
    elif kind == 'horizontal':
        y2 = y1
        h.assume(x1 != x2)
    elif kind == 'rising':
        h.assume((x1 - x2) * (y1 - y2) > 0)
    elif kind == 'falling':
        h.assume((x1 - x2) * (y1 - y2) < 0)
    elif kind in ('ray1', 'ray2', 'ray3'):
        # free distances along two directions
        a, b = h.real('a', 0.1, 4), h.real('b', 0.1, 4)
        v = {'ray1': (-14, 6, 17, 9), 'ray2': (3, 12, -5, -11),
             'ray3': (12, -9, -8, 4)}[kind]
        x1, y1, x2, y2 = v[0] * a, v[1] * a, v[2] * b, v[3] * b
    elif kind == 'dawn-dusk':
        x1, y1, x2, y2 = h.const(-14), h.const(6), h.const(17), h.const(9)
    return x1, y1, x2, y2


def allowed(h, x, y, lat, tr, lim):
    x1, y1, x2, y2 = tr
    dx, dy, past = lim
    ax, ay = x1 - x2, y1 - y2
    off = (y - y1) * ax - (x - x1) * ay
    # between the lines through (x1 + dx, y1 + dy) and (x1 - dx, y1 - dy)
    wid = dy * ax - dx * ay
    if h.decide(wid < 0):
        wid = -wid
    if not h.decide(off <= wid) or not h.decide(-off <= wid):
        return False
    # nearer crossing: compare squared distances
    near = h.decide((x1 * x1 + y1 * y1) - 2 * (x1 * x + y1 * y)
                    <= (x2 * x2 + y2 * y2) - 2 * (x2 * x + y2 * y))
    cx, cy = (x1, y1) if near else (x2, y2)
    return bool(h.decide(90 - lat - past <= h.sqrt(cx * cx + cy * cy)))


def track(h, hemi=1, kind='rising', n=1, shape='a', nan=None, lims='free',
          ang=None, second=None):
    from ocbpy.cycle_boundary import satellite_track
    tr = cross(h, kind)
    kw = {}
    lim = (h.const(1), h.const(1), h.const(5))
    if lims == 'free':
        lim = (h.real('del_x', 0, 20), h.real('del_y', 0, 20),
               h.real('past', 0, 20))
        kw = dict(del_x=lim[0], del_y=lim[1], past_bound=lim[2])
    pos = [position(h, k, ang) for k in range(n)]
    lat = [p[0] * hemi for p in pos]
    mlt = [p[1] * 12 + 6 for p in pos]
    if nan is not None:
        lat[nan] = h.nan()
    if shape == 's':
        args = (lat[0], mlt[0])
    elif shape == 'l':
        args = (list(lat), list(mlt))
    else:
        args = (h.arr(lat), h.arr(mlt))
    out = satellite_track(*args, *tr, hemi, **kw)
    h.shape_is(out, () if shape == 's' else (n,), 'one boolean per position')
    for k, got in enumerate(flat(out)):
        got = bool(h.decide(got))
        if nan == k:
            h.check(not got, 'a NaN position is not selected')
            continue
        c, s = h.cs(pos[k][1])
        r = 90 - pos[k][0]
        want = allowed(h, r * c, r * s, pos[k][0], tr, lim)
        h.check(got == want, 'selected exactly near the track')


def invalid(h):
    from ocbpy.cycle_boundary import satellite_track
    lat, g = position(h, 0, (1, 3))
    tr = cross(h, 'dawn-dusk')
    lim = [h.real(a, -10, 10) for a in ('del_x', 'del_y', 'past')]
    hemi = h.integer('hemi', -3, 3)
    bad = any(h.decide(x < 0) for x in lim) or not (
        h.decide(hemi == 1) or h.decide(hemi == -1))
    try:
        satellite_track(h.arr([lat]), h.arr([g * 12 + 6]), *tr, hemi,
                        del_x=lim[0], del_y=lim[1], past_bound=lim[2])
        ok = True
    except ValueError:
        ok = False
    h.check(ok != bad, 'invalid limits or hemisphere raise ValueError')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    every = tier == 'thorough'
    for i, kind in enumerate(('vertical', 'dawn-dusk', 'horizontal', 'ray3',
                              'ray2', 'ray1')):
        for hemi in (1, -1):
            if every or (hemi < 0) == bool(i % 2):
                if every or kind != 'ray1':
                    add(track, hemi=hemi, kind=kind)
    for hemi in (1, -1):
        for kind in ('rising', 'falling'):
            if every or (hemi > 0) == (kind == 'rising'):
                add(track, hemi=hemi, kind=kind, ang=(1, 3))
        add(track, hemi=hemi, kind='dawn-dusk', lims='default', shape='s')
        if every:
            add(track, hemi=hemi, kind='ray1', lims='default', shape='s')
    if every:
        add(track, kind='dawn-dusk', n=2, lims='default')
    add(track, kind='dawn-dusk', n=2, lims='default', nan=1)
    add(track, kind='dawn-dusk', n=2, lims='default', nan=0, shape='l')
    add(invalid)
    return out
