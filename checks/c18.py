"""C18: shapes and derived values of vector data stay consistent."""
from checks.c17 import make, place
from symx.harness import flat

BOUNDS = ('Vector data built from any mix of scalar, 2-element and 3-element '
          'inputs (every combination of the shapes of both indices, the '
          'location, height, components and boundary location); reassignment '
          'of either index from and to each of these shapes, before and after '
          'the boundary has been set; all values free.')
OUTSIDE = ('Two-dimensional input; a magnitude supplied by the caller (kept, '
           'with a warning if it does not match the components).')

LEN = {'s': None, '2': 2, '3': 3}
DERIVED = ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag', 'pole_angle',
           'ocb_aacgm_lat', 'ocb_aacgm_mlt')


def shp(c):
    return () if LEN[c] is None else (LEN[c],)


def index(c, base=0):
    return base if LEN[c] is None else [base + k for k in range(LEN[c])]


def pick(h, name, options):
    """One of the options, chosen by the solver."""
    n = h.integer(name, 0, len(options) - 1)
    for i, o in enumerate(options[:-1]):
        if h.decide(n == i):
            return o
    return options[-1]


def val(h, name, c, lo=-50, hi=50):
    if LEN[c] is None:
        return h.real(name, lo, hi)
    return h.arr([h.real('%s%d' % (name, k), lo, hi) for k in range(LEN[c])])


def consistent(h, v, tag=''):
    """Every attribute has the shape the indices ask for."""
    dsh, osh = tuple(v.dat_ind.shape), tuple(v.ocb_ind.shape)
    vsh = dsh or osh
    h.check(tuple(int(x) for x in flat(v.vshape)) == vsh, tag + 'vshape')
    for a in ('lat', 'lt', 'height', 'vect_n', 'vect_e', 'vect_z',
              'vect_mag'):
        h.shape_is(getattr(v, a), dsh, tag + a)
    for a in ('ocb_lat', 'ocb_mlt', 'r_corr'):
        s = tuple(h.np_().shape(getattr(v, a)))
        h.check(s == osh or s == vsh, tag + a)
    for a in DERIVED + ('ocb_quad', 'vec_quad'):
        h.shape_is(getattr(v, a), vsh, tag + a)
    for m, n, e, z in zip(*[flat(getattr(v, a)) for a in (
            'vect_mag', 'vect_n', 'vect_e', 'vect_z')]):
        h.eq(m * m, n * n + e * e + z * z, tag + 'magnitude')
        h.check(m >= 0, tag + 'magnitude is not negative')


def cleared(h, v, tag=''):
    for a in DERIVED:
        h.all_nan(getattr(v, a), tag + a)
    for a in ('ocb_quad', 'vec_quad'):
        for q in flat(getattr(v, a)):
            h.eq(q, 0, tag + a)


def try_(fn):
    try:
        return fn(), None
    except ValueError as e:
        return None, e


def same_vals(h, got, want, n, label):
    """`got` holds `want`, repeated `n` times if it is a scalar."""
    g, w = flat(got), flat(want)
    if len(w) == 1 and n is not None:
        w = w * n
    h.check(len(g) == len(w), label)
    for a, b in zip(g, w):
        h.same(a, b, label)


def build(h, di, oi, parts):
    from ocbpy.ocb_scaling import VectorData
    kw = {k: parts[k] for k in parts if k not in ('lat', 'lt')}
    return VectorData(index(di), index(oi, 1), parts['lat'], parts['lt'],
                      **kw)


def vector_shapes(h, di='s', oi='s', vary=('lat', 'lt', 'height')):
    """Which combinations of vector inputs are accepted, and their shapes."""
    names = ('lat', 'lt', 'height', 'vect_n', 'vect_e', 'vect_z')
    parts, cs = {}, {}
    for a in names:
        cs[a] = pick(h, 'shape_' + a, 's23') if a in vary else di
        parts[a] = val(h, a, cs[a])
    ok = all(c == 's' or c == di for c in cs.values()) and (
        's' in (di, oi) or di == oi)
    v, err = try_(lambda: build(h, di, oi, parts))
    if not ok:
        h.check(err is not None, 'inconsistent lengths raise ValueError')
        return
    h.check(err is None, 'consistent lengths are accepted')
    consistent(h, v)
    cleared(h, v)
    for a in names:
        same_vals(h, getattr(v, a), parts[a], LEN[di], a + ' value')


def bound_shapes(h, di='s', oi='s'):
    """Which boundary locations are accepted, and their shapes."""
    parts = {a: val(h, a, di) for a in ('lat', 'lt', 'vect_n')}
    cs = {}
    for a in ('ocb_lat', 'ocb_mlt', 'r_corr'):
        cs[a] = pick(h, 'shape_' + a, 's23')
        parts[a] = val(h, a, cs[a])
    if oi == 's':
        ok = all(c == 's' or c == di for c in cs.values())
    else:
        ok = all(c == 's' or c == oi for c in cs.values()) and (
            di == 's' or di == oi)
    v, err = try_(lambda: build(h, di, oi, parts))
    if not ok:
        h.check(err is not None, 'inconsistent lengths raise ValueError')
        return
    h.check(err is None, 'consistent lengths are accepted')
    consistent(h, v)
    cleared(h, v)
    for a in cs:
        same_vals(h, getattr(v, a), parts[a], LEN[oi], a + ' value')


def spoil(h, v):
    """Give every derived attribute a value."""
    for a in DERIVED + ('ocb_quad', 'vec_quad'):
        setattr(v, a, h.np_().full(v.vshape if not hasattr(
            v.vshape, 'size') else tuple(int(x) for x in flat(v.vshape)),
            fill_value=2.0))


def new_data(h, di='s', oi='s', to='s', comps='s'):
    """Assigning data indices checks, recomputes and clears."""
    parts = {a: val(h, a, di) for a in ('lat', 'lt', 'height', 'vect_n',
                                        'vect_e', 'vect_z')}
    v = build(h, di, oi, parts)
    spoil(h, v)
    new = {}
    for a in parts:
        if comps is not None:
            new[a] = val(h, 'new_' + a, pick(
                h, 'new_shape', ('s', to)) if a == 'vect_e' else comps)
            setattr(v, a, new[a])
    cs = [di if comps is None else comps] + (
        [] if comps is None else ['s' if len(h.np_().shape(
            new['vect_e'])) == 0 else to])
    # locations given as scalars are expanded when they are assigned
    lcs = di if comps in (None, 's') and di != 's' else cs[0]
    ok = all(c in ('s', to) for c in cs + [lcs]) and (
        's' in (to, oi) or to == oi)

    def assign():
        v.dat_ind = index(to)
        return v
    _, err = try_(assign)
    if not ok:
        h.check(err is not None, 'inconsistent lengths raise ValueError')
        return
    h.check(err is None, 'consistent lengths are accepted')
    consistent(h, v)
    cleared(h, v)
    for a in parts:
        same_vals(h, getattr(v, a), new.get(a, parts[a]), LEN[to],
                  a + ' value')


def new_bound(h, di='s', oi='s', to='s', given='n'):
    """Assigning record indices checks, clears and keeps matching input."""
    parts = {a: val(h, a, di) for a in ('lat', 'lt', 'vect_n', 'vect_e')}
    gs = {'n': None, 's': 's', 'o': oi, 'd': di}[given]
    if gs is not None:
        for a in ('ocb_lat', 'ocb_mlt', 'r_corr'):
            parts[a] = val(h, a, gs)
    v = build(h, di, oi, parts)
    spoil(h, v)

    def assign():
        v.ocb_ind = index(to, 1)
        return v
    _, err = try_(assign)
    if 's' not in (di, to) and di != to:
        h.check(err is not None, 'inconsistent lengths raise ValueError')
        return
    h.check(err is None, 'consistent lengths are accepted')
    consistent(h, v)
    cleared(h, v)
    for a in ('lat', 'lt', 'vect_n', 'vect_e'):
        same_vals(h, getattr(v, a), parts[a], LEN[di], a + ' value')
    have = gs if oi == 's' else oi
    for a in ('ocb_lat', 'ocb_mlt', 'r_corr'):
        x = getattr(v, a)
        if gs is not None and (have == to or (have == 's' and to == 's') or (
                to == 's' and have == di)):
            same_vals(h, x, parts[a], LEN[have] if have else None,
                      a + ' kept')
        else:
            h.all_nan(x, a + ' of other records')


def again(h, cls='OCBoundary', di='s', first='s', then='s', data=False):
    """Setting the boundary after a change equals starting afresh."""
    from ocbpy import vectors
    from ocbpy.ocb_scaling import VectorData
    blat = h.real('blat', 70, 80)
    b, recs = make(h, cls, 1, (0, 1, 2) if cls != 'DualBoundary' else (0, 1),
                   blat, geo=place)
    ind = {'s': 0, '2': [0, 1]}
    ind2 = {'s': 1, '2': [1, 0]}
    n = LEN[di]
    lat = h.real('lat', 50, 89) if n is None else h.arr(
        [h.real('lat%d' % k, 50, 89) for k in range(n)])
    lt = h.const(6) if n is None else h.arr(
        [h.const(6 + 12 * k) for k in range(n)])
    if data:
        lat2 = h.real('newlat', 50, 89) if n is None else h.arr(
            [h.real('newlat%d' % k, 50, 89) for k in range(n)])
    else:
        lat2 = lat

    def vec(la, oind):
        return VectorData(index(di), oind, la, lt, height=h.const(100),
                          vect_n=h.const(1) if n is None else h.arr(
                              [h.const(1)] * n),
                          vect_e=h.const(2) if n is None else h.arr(
                              [h.const(2)] * n))

    def still(lt_, lat_, plt, plat):
        np = h.np_()
        x = np.broadcast_arrays(*[np.asarray(y) for y in (lt_, lat_, plt,
                                                          plat)])
        return h.arr([30.0] * x[0].size).reshape(x[0].shape)

    old = vectors.calc_vec_pole_angle
    vectors.calc_vec_pole_angle = still
    try:
        v = vec(lat, ind[first])
        v.set_ocb(b)
        if data:
            v.lat = lat2
            v.dat_ind = index(di)
            oind = ind[first]
        else:
            v.ocb_ind = ind2[then]
            oind = ind2[then]
        cleared(h, v)
        for a in ('ocb_lat', 'ocb_mlt', 'r_corr'):
            h.all_nan(getattr(v, a), a + ' is cleared')
        v.set_ocb(b)
        w = vec(lat2, oind)
        w.set_ocb(b)
    finally:
        vectors.calc_vec_pole_angle = old
    for a in DERIVED + ('ocb_lat', 'ocb_mlt', 'r_corr', 'ocb_quad',
                        'vec_quad'):
        same_vals(h, getattr(v, a), getattr(w, a), None, a + ' afresh')
        h.shape_is(getattr(v, a), tuple(h.np_().shape(getattr(w, a))),
                   a + ' shape afresh')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for di in 's23':
        for oi in 's23':
            for vary in (('lat', 'lt', 'height'),
                         ('vect_n', 'vect_e', 'vect_z'),
                         ('lat', 'height', 'vect_e')):
                add(vector_shapes, di=di, oi=oi, vary=vary)
            add(bound_shapes, di=di, oi=oi)
            if 's' not in (di, oi) and di != oi:
                continue
            for to in 's23':
                for comps in ('s', to, None):
                    add(new_data, di=di, oi=oi, to=to, comps=comps)
                for given in 'nsod':
                    if given == 'd' and (oi != 's' or di == 's'):
                        continue
                    add(new_bound, di=di, oi=oi, to=to, given=given)
    for cls in ('OCBoundary', 'DualBoundary'):
        for di, first, then in (('s', 's', 's'), ('s', '2', '2'),
                                ('s', 's', '2'), ('s', '2', 's'),
                                ('2', 's', 's'), ('2', '2', '2'),
                                ('2', 's', '2'), ('2', '2', 's')):
            add(again, cls=cls, di=di, first=first, then=then)
        for di, first in (('s', 's'), ('2', 's'), ('2', '2')):
            add(again, cls=cls, di=di, first=first, data=True)
    seen, uniq = set(), []
    for t in out:
        if t[3] not in seen:
            seen.add(t[3])
            uniq.append(t)
    return uniq
