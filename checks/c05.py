"""C05: dual-boundary latitude is piecewise linear between the boundaries."""
from checks.dualbase import Case
from symx.harness import flat

BOUNDS = ('1-2 positions per call, one per region; two pairs whose indices '
          'differ from the record indices; centre radius in [0, 20], r in '
          '[1, 40], correction in [-0.5, 5]; OCB typical latitude in [70, 85]'
          ', EAB in [50, 69]; records whose boundaries enclose the pole with '
          'the EAB equatorward of the OCB at the MLT.')
REG = {'p': 'pole', 'm': 'mid', 'o': 'out'}


def body(h, hemi=1, pat='p', scalar=True, ind=1, overwrite=False,
         const=False, sym_lat=True, geo='zero', at=None, step=8):
    w = Case(h, hemi, ind=ind, const=const, sym_lat=sym_lat, geo=geo)
    k = len(pat)
    if at is None:
        f = [h.angle('f%d' % i, 0, 2, ex_hi=True) for i in range(k)]
    else:
        f = [h.frac(at + step * i, 12) for i in range(k)]
    L = [h.real('L%d' % i, 0, 90) for i in range(k)]
    mlt = [x * 12 for x in f]
    bs = [w.bounds(m, x) for m, x in zip(mlt, f)]
    for l, b, p in zip(L, bs, pat):
        w.region(l, b[0], b[1], REG[p])
    lat = [x * hemi for x in L]
    a = (lat[0], mlt[0]) if scalar else (h.arr(lat), h.arr(mlt))
    bl, bm, ol, rc = w.d.normal_coord(*a, overwrite=overwrite)
    al, am, ar = w.d.ocb.normal_coord(h.arr(lat), h.arr(mlt))
    shp = () if scalar else (k,)
    for x, nm in ((bl, 'latitude'), (bm, 'MLT'), (ol, 'OCB latitude'),
                  (rc, 'correction')):
        h.shape_is(x, shp, nm)
    bl, bm, ol, rc = flat(bl), flat(bm), flat(ol), flat(rc)
    al, am, ar = flat(al), flat(am), flat(ar)
    for i in range(k):
        h.eq(ol[i], al[i], 'OCB latitude is that of the OCB')
        h.eq(bm[i], am[i], 'MLT is that of the OCB')
        h.eq(rc[i], ar[i], 'correction is that of the OCB')
        h.check(not h.is_nan(bl[i]), 'latitude is a number')
        h.eq(bl[i] * hemi, w.want(L[i], bs[i][0], bs[i][1], REG[pat[i]],
                                  al[i]), 'latitude ' + REG[pat[i]])


def tasks(tier):
    out = []

    def add(nm, **k):
        out.append((body, k, {}, nm))
    for hemi in (1, -1):
        for p in 'pmo':
            add('%+d %s scalar' % (hemi, p), hemi=hemi, pat=p)
            add('%+d %s array' % (hemi, p), hemi=hemi, pat=p, scalar=False,
                ind=0, overwrite=True, const=True)
            for at in (6, 18):
                add('%+d %s meridian %d' % (hemi, p, at), hemi=hemi, pat=p,
                    geo='merid', at=at, scalar=at < 12)
            for at in (0, 8, 16) + ((5, 21) if tier == 'thorough' else ()):
                add('%+d %s off meridian %d' % (hemi, p, at), hemi=hemi,
                    pat=p, geo='conc', at=at, sym_lat=at > 5)
        for p in ('pm', 'mo', 'op', 'mp'):
            add('%+d %s' % (hemi, p), hemi=hemi, pat=p, scalar=False, ind=0,
                sym_lat=False, at=3)
            add('%+d %s conc' % (hemi, p), hemi=hemi, pat=p, scalar=False,
                ind=0, sym_lat=False, geo='conc', at=8)
    return out
