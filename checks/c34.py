"""C34: the haversine helpers are mutually inverse."""
from symx.harness import flat

BOUNDS = ('Angles over the whole real line (haversine) and in [0, pi] '
          '(round trip), haversines in [0, 1], rounding-size values of either '
          'sign, negative and NaN values; scalars and arrays of up to 4 '
          'elements (thorough: 6) of every mixture of these kinds; haversines between 1e-16 and 1e-15 are left out.')
OUTSIDE = ('Haversines above 1; rounding errors of the trigonometric '
           'functions (real arithmetic).')
EPS = 1e-16


def shaped(h, vals, shape):
    return vals[0] if shape == 's' else h.arr(vals)


def forward(h, n=1, shape='s', lo=-4, hi=4, list_=False):
    """hav is the square of the sine of half the angle."""
    from ocbpy.ocb_scaling import hav
    # half-angles, in half-turns
    g = [h.angle('g%d' % k, lo, hi) for k in range(n)]
    pi = h.np_().pi
    a = [x * 2 * pi for x in g]
    out = hav(list(a) if list_ else shaped(h, a, shape))
    h.shape_is(out, () if shape == 's' else (n,), 'shape')
    for x, y in zip(g, flat(out)):
        s = h.cs(x)[1]
        h.eq(y, s * s, 'haversine is the squared sine of the half angle')


def pick(h, k, kinds):
    n = h.integer('kind%d' % k, 0, len(kinds) - 1)
    for i, o in enumerate(kinds[:-1]):
        if h.decide(n == i):
            return o
    return kinds[-1]


def inverse(h, n=1, shape='s', kinds=('pos', 'tiny', 'neg', 'nan', 'zero')):
    """archav gives the angle in [0, pi] with that haversine."""
    from ocbpy.ocb_scaling import archav, hav
    vals, ks = [], []
    for k in range(n):
        c = pick(h, k, kinds)
        ks.append(c)
        vals.append({'pos': lambda: h.real('x%d' % k, 0.001, 1),
                     'all': lambda: h.real('x%d' % k, 1e-15, 1),
                     'tiny': lambda: h.const(EPS) * h.real('x%d' % k, -0.99,
                                                            0.99),
                     'neg': lambda: h.real('x%d' % k, -4, -0.001),
                     'nan': h.nan, 'zero': lambda: h.const(0),
                     'one': lambda: h.const(1)}[c]())
    arg = shaped(h, vals, shape)
    out = archav(arg)
    h.shape_is(out, () if shape == 's' else (n,), 'shape')
    pi = h.np_().pi
    back = flat(hav(out))
    for c, x, y, b in zip(ks, vals, flat(out), back):
        if c in ('neg', 'nan'):
            h.check(h.is_nan(y), 'negative and NaN give NaN')
        elif c in ('tiny', 'zero'):
            h.eq(y, 0, 'values below rounding size give zero')
        else:
            h.check(not h.is_nan(y), 'a haversine has an angle')
            h.check(y >= 0, 'angle is not negative')
            h.le(y, pi, 'angle is at most pi')
            h.eq(b, x, 'haversine of the inverse')
    if shape != 's':
        for x, y in zip(vals, flat(arg)):
            h.same(x, y, 'input is unchanged')


def around(h, n=1, shape='s'):
    """archav(hav(a)) is a for a in [0, pi]."""
    from ocbpy.ocb_scaling import archav, hav
    g = [h.angle('g%d' % k, 0, 0.5) for k in range(n)]
    for x in g:
        s = h.cs(x)[1]
        h.assume(s * s >= 1e-12)
    pi = h.np_().pi
    out = archav(hav(shaped(h, [x * 2 * pi for x in g], shape)))
    for x, y in zip(g, flat(out)):
        h.eq(y / pi, x * 2, 'inverse haversine of the haversine')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    add(forward)
    add(forward, shape='a')
    add(forward, n=2, shape='a')
    add(forward, n=2, shape='a', list_=True)
    add(inverse, kinds=('all', 'tiny', 'neg', 'nan', 'zero', 'one'))
    add(inverse, shape='a', kinds=('all', 'tiny', 'neg', 'nan', 'zero',
                                   'one'))
    add(inverse, n=2, shape='a')
    add(inverse, n=3, shape='a')
    add(inverse, n=4, shape='a', kinds=('pos', 'tiny', 'neg', 'nan'))
    if tier == 'thorough':
        add(inverse, n=6, shape='a', kinds=('pos', 'tiny', 'nan'))
    add(around)
    add(around, shape='a')
    add(around, n=2, shape='a')
    return out
