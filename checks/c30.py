"""C30: boundary corrections are periodic and match their definition."""
from symx.harness import flat

BOUNDS = ('Every MLT in [-24, 48) hours, singly and in arrays of 1-3 values '
          'with NaN, every instrument and method, any constant for the '
          'circular correction; unknown instruments and methods with the '
          'names of the others and arbitrary case.')
OUTSIDE = ('The published coefficients are part of the specification; MLT '
           'beyond 48 hours from the range [0, 24) repeats the same range '
           'reduction.')

ELL = {'median': (4.01, 0.55, -0.92), 'gaussian': (4.41, 0.51, -0.95)}
HAR = {('ampere', 'median'): (
    3.31000535, -0.5452934, -1.24389141, 2.42619653, -0.66677988, -1.03467488,
    -0.30763009, 0.52426756, 0.04359299, 0.60201848, 0.50618522, 1.04360529,
    0.25186405),
    ('ampere', 'gaussian'): (
    3.80100827, 0.98555723, -3.43760943, 1.85084271, -0.36730751, -0.81975654,
    -1.02823832, 1.30637288, -0.53599218, 0.40380183, -1.22462708, -1.2733629,
    -0.62743381),
    ('si12', 'ocb'): (0.0405, -1.5078, 1.0, 0.5095, 1.0, 0.9371, 1.0, 0.0708,
                      1.0, 0.0, 1.0, 0.0, 1.0),
    ('si12', 'eab'): (-0.1447, -1.9779, 1.0, 2.6799, 1.0, 0.5778, 1.0,
                      -1.2297, 1.0, 0.0, 1.0, 0.0, 1.0),
    ('si13', 'ocb'): (0.5797, -0.6837, 1.0, -0.5020, 1.0, 0.2971, 1.0,
                      -0.4173, 1.0, 0.0, 1.0, 0.0, 1.0),
    ('si13', 'eab'): (0.2500, -2.9931, 1.0, 0.8818, 1.0, 0.8511, 1.0, -0.6300,
                      1.0, 0.0, 1.0, 0.0, 1.0),
    ('wic', 'ocb'): (1.0298, -1.1249, 1.0, -0.7380, 1.0, 0.1838, 1.0, -0.6171,
                     1.0, 0.0, 1.0, 0.0, 1.0),
    ('wic', 'eab'): (-0.4935, -2.1186, 1.0, 0.3188, 1.0, 0.5749, 1.0, -0.3118,
                     1.0, 0.0, 1.0, 0.0, 1.0)}


def mlts(h, n, nan=None, lo=-2, hi=4):
    g = [h.angle('g%d' % k, lo, hi, ex_hi=True) for k in range(n)]
    x = [y * 12 for y in g]
    if nan is not None:
        x[nan] = h.nan()
    return g, x


def circular(h, n=1, shape='s', nan=None):
    from ocbpy.ocb_correction import circular as f
    _, x = mlts(h, n, nan)
    r = h.real('r', -90, 90)
    out = f(x[0] if shape == 's' else h.arr(x), r_add=r)
    h.shape_is(out, () if shape == 's' else (n,), 'shape')
    for y in flat(out):
        h.eq(y, r, 'the requested constant')
    out = f(x[0] if shape == 's' else h.arr(x))
    h.shape_is(out, () if shape == 's' else (n,), 'shape')
    for y in flat(out):
        h.eq(y, 0, 'no correction by default')


def call(fun, x, inst, meth):
    from ocbpy import ocb_correction
    return getattr(ocb_correction, fun)(x, instrument=inst, method=meth)


def near(h, a, b, label):
    """Equal up to the rounding of the coefficients."""
    h.le(a - b, 1e-9, label)
    h.le(b - a, 1e-9, label)


def series(h, fun='elliptical', inst='ampere', meth='median', n=1, shape='s',
           nan=None, turn=0, lo=-2, hi=4):
    """Minus the documented series at every MLT."""
    np = h.np_()
    g, x = mlts(h, n, nan, lo, hi)
    low = (inst.lower(), meth.lower())
    if turn:
        x = [y + 24 * turn for y in x]
    out = call(fun, x[0] if shape == 's' else h.arr(x), inst, meth)
    h.shape_is(out, () if shape == 's' else (n,), 'shape')
    for k, y in enumerate(flat(out)):
        if nan == k:
            h.check(h.is_nan(y), 'NaN at NaN')
            continue
        phi = g[k] * np.pi
        if fun == 'elliptical':
            a, e, t = [h.const(c) for c in ELL[low[1]]]
            den = 1 + e * np.cos(phi - t)
            near(h, -y * den, a * (1 - e * e), 'elliptical series')
            continue
        c = [h.const(v) for v in HAR[low]]
        want = c[0]
        for j in (1, 2, 3):
            q = c[4 * j - 3:4 * j + 1]
            want = want + q[0] * np.cos((phi + q[1]) * j) \
                + q[2] * np.sin((phi + q[3]) * j)
        near(h, -y, want, 'harmonic series')


def default(h, fun='elliptical'):
    """The default is the median AMPERE correction."""
    from ocbpy import ocb_correction
    _, x = mlts(h, 1)
    f = getattr(ocb_correction, fun)
    h.same(flat(f(x[0]))[0], flat(call(fun, x[0], 'ampere', 'median'))[0],
           'default instrument and method')


def unknown(h, fun='elliptical'):
    _, x = mlts(h, 1)
    insts = ['ampere', 'si12', 'si13', 'wic', 'image', 'dmsp-ssj', '']
    meths = ['median', 'gaussian', 'ocb', 'eab', 'mean', '']
    i = h.integer('inst', 0, len(insts) - 1)
    m = h.integer('meth', 0, len(meths) - 1)
    for a, inst in enumerate(insts):
        if not h.decide(i == a):
            continue
        for b, meth in enumerate(meths):
            if not h.decide(m == b):
                continue
            good = (inst == 'ampere' and meth in ELL) if \
                fun == 'elliptical' else (inst, meth) in HAR
            try:
                call(fun, x[0], inst, meth)
                ok = True
            except ValueError:
                ok = False
            h.check(ok == good, 'unknown names raise ValueError')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for n, sh in ((1, 's'), (1, 'a'), (3, 'a')):
        add(circular, n=n, shape=sh)
        add(circular, n=n, shape=sh, nan=n - 1)
    cases = [('elliptical', 'ampere', m) for m in ELL] + [
        ('harmonic', i, m) for i, m in HAR]
    for fun, inst, meth in cases:
        add(series, fun=fun, inst=inst, meth=meth)
        add(series, fun=fun, inst=inst, meth=meth, turn=1)
        add(series, fun=fun, inst=inst, meth=meth, turn=-1)
        add(series, fun=fun, inst=inst, meth=meth, n=2, shape='a', nan=0)
    for fun, inst, meth in (('elliptical', 'AMPERE', 'Median'),
                            ('harmonic', 'Ampere', 'GAUSSIAN'),
                            ('harmonic', 'SI12', 'OCB')):
        add(series, fun=fun, inst=inst, meth=meth)
        add(series, fun=fun, inst=inst.lower(), meth=meth.lower(), n=1,
            shape='a')
        add(series, fun=fun, inst=inst.lower(), meth=meth.lower(), n=2,
            shape='a', lo=0, hi=2)
    for fun in ('elliptical', 'harmonic'):
        add(default, fun=fun)
        add(unknown, fun=fun)
    return out
