"""C06: dual-boundary reversion inverts dual-boundary normalisation."""
from checks.c05 import REG
from checks.dualbase import Case
from symx.harness import flat

BOUNDS = ('1-2 positions per call, any mix of regions; geometry as in C05 '
          '(boundaries enclose the pole, EAB equatorward of the OCB at the '
          'MLT); normalised latitudes short of the pole.')


def round_trip(h, hemi=1, pat='p', scalar=True, ind=1, overwrite=False,
               const=False, sym_lat=True, geo='zero', at=None, step=8, fix=False):
    w = Case(h, hemi, ind=ind, const=const, sym_lat=sym_lat, geo=geo)
    k = len(pat)
    if at is None:
        f = [h.angle('f%d' % i, 0, 2, ex_hi=True) for i in range(k)]
    else:
        f = [h.frac(at + step * i, 12) for i in range(k)]
    L = [h.real('L%d' % i, 0, 90) if not (fix and i) else
         h.const({'p': 85.0, 'm': 72.5, 'o': 40.0}[pat[i]]) for i in range(k)]
    mlt = [x * 12 for x in f]
    bs = [w.bounds(m, x) for m, x in zip(mlt, f)]
    for l, b, p in zip(L, bs, pat):
        w.region(l, b[0], b[1], REG[p])
    lat = [x * hemi for x in L]
    if scalar:
        a, am = lat[0], mlt[0]
    else:
        a, am = h.arr(lat), h.arr(mlt)
    bl, bm, ol, rc = w.d.normal_coord(a, am, overwrite=overwrite)
    for x, p in zip(flat(bl), pat):
        if p == 'p':
            # the boundary centre has no direction in normalised coordinates
            h.assume(x * hemi < 90)
    rl, rm = w.d.revert_coord(bl, bm, rc, is_ocb=False, aacgm_mlt=am,
                              overwrite=overwrite)
    shp = () if scalar else (k,)
    h.shape_is(rl, shp, 'latitude')
    h.shape_is(rm, shp, 'MLT')
    rl, rm = flat(rl), flat(rm)
    for i in range(k):
        h.eq(rl[i], lat[i], 'latitude restored in region ' + pat[i])
        h.eq_mod(rm[i], mlt[i], 24, 'MLT restored in region ' + pat[i])
    h.observe('lat', rl)


def ocb_mode(h, hemi=1, n='s', ind=1, dual_in=False):
    """is_ocb=True gives what the OCB alone gives"""
    w = Case(h, hemi, ind=ind, geo='merid')
    k = 1 if n == 's' else int(n)
    f = [h.angle('f%d' % i, 0, 2, ex_hi=True) for i in range(k)]
    nl = [h.real('n%d' % i, 0, 90, ex=True) * hemi for i in range(k)]
    nm = [x * 12 for x in f]
    c = h.real('c', -0.5, 20)
    a, am = (nl[0], nm[0]) if n == 's' else (h.arr(nl), h.arr(nm))
    rl, rm = w.d.revert_coord(a, am, c)
    ol, om = w.d.ocb.revert_coord(a, am, c)
    h.shape_is(rl, () if n == 's' else (k,), 'latitude')
    h.eqs(rl, ol, 'latitude of the OCB')
    h.eqs(rm, om, 'MLT of the OCB')


def tasks(tier):
    out = []

    def add(nm, **k):
        out.append((round_trip, k, {}, nm))
    for hemi in (1, -1):
        for p in 'pmo':
            add('%+d %s scalar' % (hemi, p), hemi=hemi, pat=p)
            add('%+d %s array' % (hemi, p), hemi=hemi, pat=p, scalar=False,
                ind=0, overwrite=True, const=True)
            for at in (6, 18):
                add('%+d %s meridian %d' % (hemi, p, at), hemi=hemi, pat=p,
                    geo='merid', at=at, scalar=at < 12)
            for at in (0, 12):
                add('%+d %s right angle %d' % (hemi, p, at), hemi=hemi, pat=p,
                    geo='pyth', at=at)
            for at in (0, 8, 16) if tier == 'thorough' else ():
                add('%+d %s off meridian %d' % (hemi, p, at), hemi=hemi,
                    pat=p, geo='conc', at=at, sym_lat=at > 5)
        for p in ('pm', 'mo', 'op', 'mp', 'om', 'po'):
            add('%+d %s' % (hemi, p), hemi=hemi, pat=p, scalar=False, ind=0,
                sym_lat=False, at=3)
            add('%+d %s both sides' % (hemi, p), hemi=hemi, pat=p, scalar=False,
                ind=0, sym_lat=False, geo='pyth', at=0, step=12)
        for n in 's12':
            out.append((ocb_mode, dict(hemi=hemi, n=n, ind=int(n == 's')), {},
                        '%+d OCB mode %s' % (hemi, n)))
    return out
