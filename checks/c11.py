"""C11: cyclic quantities come back in range and congruent to the input."""
from symx import fpx
from symx.harness import flat

BOUNDS = ('Exact-real tasks: free values within 3 cycles of the range (thorough '
          '6), scalars, 0-d, 1-3 element arrays with NaN patterns, 2-d arrays, '
          'lists, integer and float types, fixed and free ranges. FP tasks: '
          'every IEEE double within 1 cycle either side of the range (thorough '
          '2), scalar and array element, for fix_range with the ranges used '
          'in the package and for the four unit conversions.')
OUTSIDE = ('Values further from the range than stated (the loop that folds '
           'them is unrolled that far); infinities; ranges beyond those '
           'listed in FP tasks.')
SHAPES = {'s': None, '0d': (), '1': (1,), '2': (2,), '3': (3,), '12': (1, 2)}


def vals(h, shape, nans, lo, hi, kind):
    shp = SHAPES[shape]
    n = 1
    for s in shp or ():
        n *= s
    v = []
    for i in range(n):
        if i in nans:
            v.append(h.nan())
        elif kind in ('i', 'I'):
            v.append(h.integer('x%d' % i, int(lo), int(hi)))
        else:
            v.append(h.real('x%d' % i, lo, hi))
    if shp is None:
        arg = v[0]
    elif kind in ('l', 'I'):
        arg = list(v)
    else:
        arg = h.arr(v, 'i' if kind == 'i' else 'f').reshape(shp)
    return v, arg, shp or ()


def judge(h, v, out, shp, lo, hi, period, conv, lab):
    h.shape_is(out, shp, lab + ' shape')
    o = flat(out)
    for i, x in enumerate(v):
        if h.is_nan(x):
            h.check(h.is_nan(o[i]), lab + ': NaN stays NaN')
            continue
        h.check(not h.is_nan(o[i]), lab + ': not NaN')
        y = conv(x)
        h.check(o[i] >= lo, lab + ': at or above the minimum')
        h.check(o[i] < hi, lab + ': below the maximum')
        h.mult_of((o[i] - y) / period, 1, lab + ': whole cycles away')
        if h.decide(y >= lo) and h.decide(y < hi):
            h.eq(o[i], y, lab + ': unchanged inside the range')


def fold(h, shape='s', nans=(), rng='hour', kind='f', cyc=3, givenrange=False):
    from ocbpy import ocb_time
    if rng == 'hour':
        lo, hi, per = 0.0, 24.0, 24
    elif rng == 'deg':
        lo, hi, per = -180.0, 180.0, 360
    elif rng == 'wide':
        lo, hi, per = -180.0, 360.0, 360
    elif rng == 'ihour':
        lo, hi, per = 0, 24, 24
    elif rng == 'rad':
        lo, hi, per = 0.0, 2 * h.pi, 2 * h.pi
    elif rng == 'half':
        lo, hi, per = -0.5, 0.25, h.frac(3, 4)
    else:
        lo = h.real('lo', -10, 10)
        hi = lo + 4
        per = 4
    flo, span = {'hour': (0, 24), 'ihour': (0, 24), 'deg': (-180, 360),
                 'wide': (-180, 540), 'rad': (0, 6.3), 'half': (-0.5, 0.75),
                 'free': (-10, 12)}[rng]
    v, arg, shp = vals(h, shape, nans, flo - cyc * span,
                       flo + (1 + cyc) * span, kind)
    if kind in ('l', 'I'):
        shp = (len(v),)
    if rng == 'wide':
        out = ocb_time.fix_range(arg, lo, hi, 360.0)
    elif givenrange:
        out = ocb_time.fix_range(arg, lo, hi, val_range=per)
    else:
        out = ocb_time.fix_range(arg, lo, hi)
    judge(h, v, out, shp, lo, hi, per, lambda x: x, 'fix_range')


def badrange(h, kind='order'):
    from ocbpy import ocb_time
    a = h.real('a', -10, 10)
    if kind == 'order':
        h.raises(ValueError, lambda: ocb_time.fix_range(
            h.real('x', -5, 5), a, a - h.real('g', 0, 5)), 'reversed range')
    else:
        h.raises(ValueError, lambda: ocb_time.fix_range(
            h.real('x', -5, 5), a, a + 1, -h.real('g', 0, 5)),
            'range not positive')


def units(h, fn='deg2hr', shape='s', nans=(), kind='f', cyc=3, arg=None):
    from ocbpy import ocb_time
    f = getattr(ocb_time, fn)
    kw = {}
    if fn == 'deg2hr':
        lo, hi, per, span, conv = 0, 24, 24, 360, lambda x: x / 15
    elif fn == 'rad2hr':
        lo, hi, per, span = 0, 24, 24, 6.3

        def conv(x):
            return x * 12 / h.pi
    elif fn == 'hr2rad':
        per, span = 2 * h.pi, 24
        lo, hi = 0, 2 * h.pi
        if arg == 'pi':
            kw['max_range'] = h.pi
            lo, hi = -h.pi, h.pi

        def conv(x):
            return x * h.pi / 12
    else:
        lo, hi, per, span, conv = -180, 360, 360, 24, lambda x: x * 15
        if arg == '180':
            kw['max_deg'] = 180.0
            hi = 180
        elif arg == 'pos':
            kw['min_deg'] = 0.0
            lo = 0
        elif arg == 'small':
            # less than a cycle: the maximum identifies the range
            kw.update(min_deg=0.0, max_deg=90.0)
            lo, hi = -270, 90
    v, a, shp = vals(h, shape, nans, -cyc * span, cyc * span, kind)
    if kind in ('l', 'I'):
        shp = (len(v),)
    judge(h, v, f(a, **kw), shp, lo, hi, per, conv, fn)


def tasks(tier):
    out, names = [], set()

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        if nm not in names:
            names.add(nm)
            out.append((body, k, dict(weight=w, budget=300), nm))
    cyc = 3 if tier == 'quick' else 6
    pats = [('s', ()), ('0d', ()), ('1', ()), ('2', ()), ('2', (0,)),
            ('2', (1,)), ('3', (1,)), ('12', ()), ('s', (0,)), ('1', (0,)),
            ('2', (0, 1))]
    for rng in ('hour', 'deg', 'wide', 'ihour', 'rad', 'half', 'free'):
        for s, n in pats:
            if rng in ('half', 'deg') and s in ('12', '3'):
                continue
            c = cyc if s in ('s', '0d', '1') else 1 if s != '2' or \
                len(n) == 0 else 2
            add(fold, shape=s, nans=n, rng=rng, cyc=c)
        for kind in ('i', 'l', 'I'):
            if rng == 'rad' and kind != 'l':
                continue
            add(fold, shape='2', rng=rng, kind=kind, cyc=1)
            add(fold, shape='1', rng=rng, kind=kind, cyc=cyc)
        add(fold, shape='s', rng=rng, kind='i', cyc=cyc)
        if rng != 'wide':
            add(fold, shape='s', rng=rng, cyc=2, givenrange=True)
    for kind in ('order', 'range'):
        add(badrange, kind=kind)
    for fn, args in (('deg2hr', (None,)), ('rad2hr', (None,)),
                     ('hr2rad', (None, 'pi')),
                     ('hr2deg', (None, '180', 'pos', 'small'))):
        for arg in args:
            for s, n in pats:
                add(units, fn=fn, shape=s, nans=n, arg=arg,
                    cyc=cyc if s in ('s', '0d', '1') else 1)
            for kind in ('i', 'l', 'I'):
                if fn == 'rad2hr' and kind != 'l':
                    continue
                add(units, fn=fn, shape='2', kind=kind, arg=arg, cyc=1)
            add(units, fn=fn, shape='s', kind='i', arg=arg, cyc=cyc)
    out += fpx.c11_tasks(tier)
    return out
