"""C15: the angle between the base pole, the data and the destination pole."""
from symx.harness import flat

BOUNDS = ('Every data and pole local time within two cycles, every data '
          'latitude between the poles, every destination pole latitude off '
          'the equator in both hemispheres; scalars, 1-2 element arrays, '
          'scalar and array mixtures, NaN in each input, exact meridians.')
OUTSIDE = ('Data at the base pole or its antipode and data at the '
           'destination pole, where no direction exists; floating-point '
           'rounding.')


def lat_of(h, name, hemi, lo, hi):
    """(latitude, co-latitude from the base pole in half-turns)."""
    g = h.angle(name, lo, hi, ex_lo=name[0] == 'v', ex_hi=True)
    return (90 - g * 180) * hemi, g


def parts(h, v, p, dl):
    """Direction to the destination pole (towards the base pole, east)."""
    cv, sv = h.cs(v)
    cp, sp = h.cs(p)
    cd, sd = h.cs(dl)
    return cp * sv - sp * cv * cd, sp * sd


def expect(h, i, out, v, p, dl, label):
    """out: degrees; v, p: co-latitudes, dl: difference (half-turns)."""
    if h.is_nan(out):
        h.check(False, label + ' is a number')
        return
    north, east = parts(h, v, p, dl)
    d = h.sqrt(north * north + east * east)
    ca, sa = h.cs(out * h.frac(1, 180))
    h.le(0, out, label + ' at least 0')
    h.le(out, 180, label + ' at most 180')
    h.eq(ca * d, north, label + ' cosine')
    h.eq(sa * sa * d * d, east * east, label + ' sine')


def general(h, hemi=1, pmax=0.5, shape='s', nan=None, off=0,
            easy=None):
    """Free location of data and pole."""
    from ocbpy import vectors
    n = {'s': 1, '1': 1, '2': 2}[shape]
    rows = []
    for i in range(n):
        lat, v = lat_of(h, 'v%d' % i, hemi, 0, 1)
        plat, p = lat_of(h, 'p%d' % i, hemi, 0, pmax)
        d = h.angle('dl%d' % i, -1, 1)
        if i == easy:
            v, p, d = h.frac(1, 3), h.frac(1, 6), h.frac(1, 2)
            lat, plat = [(90 - x * 180) * hemi for x in (v, p)]
        rows.append([lat, v, plat, p, d])
    lt = h.real('lt', 0, 24) if off else h.const(0)
    dlt = [lt for r in rows]
    plt = [lt + r[4] * 12 + off for r in rows]
    dlat = [r[0] for r in rows]
    plat = [r[2] for r in rows]
    if nan is not None:
        (dlt, dlat, plt, plat)[nan[0]][nan[1]] = h.nan()
    for r in rows:
        h.assume(r[4] != 0)
        h.assume((r[4] < 1) & (r[4] > -1))
        north, east = parts(h, r[1], r[3], r[4])
        h.lemma(north * north + east * east > 0, 'a direction exists')
        # triangle inequality
        d = h.sqrt(north * north + east * east)
        cv, sv = h.cs(r[1])
        cp, sp = h.cs(r[3])
        diff = cp - cv * (cv * cp + sv * sp * h.cs(r[4])[0])
        h.lemma((sv * d) * (sv * d) - diff * diff >= 0, 'squared sides')
        h.lemma(diff <= sv * d, 'upper side')
        h.lemma(diff >= -sv * d, 'lower side')
    if shape == 's':
        args = [x[0] for x in (dlt, dlat, plt, plat)]
    else:
        args = [h.arr(x) for x in (dlt, dlat, plt, plat)]
    out = vectors.calc_vec_pole_angle(*args)
    h.shape_is(out, () if shape == 's' else (n,), 'pole angle')
    o = flat(out)
    for i, r in enumerate(rows):
        if nan is not None and nan[1] == i:
            h.check(h.is_nan(o[i]), 'NaN where the input is')
        else:
            expect(h, i, o[i], r[1], r[3], r[4], 'pole angle %d' % i)


def meridian(h, hemi=1, opp=0, shape='s', mix='', turns=0):
    """Data on the meridian of the destination pole (or opposite to it)."""
    from ocbpy import vectors
    lat, v = lat_of(h, 'v', hemi, 0, 1)
    plat, p = lat_of(h, 'p', hemi, 0, 0.5)
    lt = h.real('lt', 0, 24)
    # opp 1: beyond the base pole, further from it than the destination pole
    # opp 2: beyond the base pole and closer to it
    if opp:
        h.assume((v >= p) & (v + p != 1) if opp == 1 else v < p)
        want = 0 if h.decide(v + p < 1) else 180
    else:
        h.assume(v != p)
        want = 180 if h.decide(v < p) else 0
    plt = lt + (12 if opp else 0) + 24 * turns
    args = [lt, lat, plt, plat]
    if shape != 's':
        args = [x if str(k) in mix else h.arr([x, x])
                for k, x in enumerate(args)]
    out = vectors.calc_vec_pole_angle(*args)
    h.shape_is(out, () if shape == 's' else (2,), 'pole angle')
    for x in flat(out):
        if opp == 2:
            h.check((x == 0) | (x == 180), 'angle is 0 or 180')
            h.eq(x, want, 'both poles in the same direction')
        else:
            h.eq(x, want, 'angle on a meridian')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for hemi in (1, -1):
        add(general, hemi=hemi)
        add(general, hemi=hemi, off=24)
        add(general, hemi=hemi, off=-24)
        add(general, hemi=hemi, shape='1')
        add(general, hemi=hemi, shape='2', easy=0)
        add(general, hemi=hemi, shape='2', easy=1)
        if tier == 'thorough':
            add(general, hemi=hemi, shape='2')
        for k in range(4):
            add(general, hemi=hemi, shape='2', nan=(k, k % 2), easy=k % 2)
            add(general, hemi=hemi, shape='1', nan=(k, 0))
            add(general, hemi=hemi, nan=(k, 0))
        for opp in (0, 1):
            for t in (0, 1, -1):
                add(meridian, hemi=hemi, opp=opp, turns=t)
            for mix in ('', '0', '1', '2', '3', '01', '23', '02', '13'):
                add(meridian, hemi=hemi, opp=opp, shape='a', mix=mix)
        add(meridian, hemi=hemi, opp=2)
        add(meridian, hemi=hemi, opp=2, shape='a')
    return out
