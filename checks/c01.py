"""C01: normal_coord follows the scaling law."""
from checks.common import UFunc, boundary, cap, other_record, T1

BOUNDS = ('Points per call: scalar, 1 or 2 (3 thorough); records 1-3 with '
          'the record under test at any position; rho in (0, 90), MLT in '
          '[0, 24), centre radius in [0, 20], r in [1, 40], correction in '
          '[-0.5, 30], boundary latitude in [45, 89].')


def body(h, hemi=1, n='0', nrec=1, ind=0, cls='OCBoundary', kw=False,
         mlo=0, mhi=2, lts=None):
    np = h.np_()
    rec, g = cap(h, '')
    bl = h.real('bl', 45, 89)
    rf = UFunc(h, 'rc', -0.5, 30)
    rec['rfunc'] = rf
    rec['kwargs'] = {'shift': 2.5, 'mode': 'x'} if kw else {}
    rec['time'] = T1
    recs = [other_record(i) for i in range(nrec)]
    for r in recs:
        r['rfunc'] = lambda x, **k: x * 0 + 7.0
        r['kwargs'] = {'shift': 1.0}
    recs[ind] = rec
    o = boundary(h, cls, hemi, bl * hemi, recs, ind)
    k = 1 if n == '0' else int(n)
    rho = [h.real('rho%d' % i, 0, 90, ex=True) for i in range(k)]
    f = [h.angle('f%d' % i, mlo, mhi, ex_hi=True) for i in range(k)]
    lat = [(90 - x) * hemi for x in rho]
    mlt = [x * 12 for x in f]
    if n == '0':
        olat, omlt, rc = o.normal_coord(lat[0], mlt[0])
        h.shape_is(olat, (), 'lat')
        h.shape_is(omlt, (), 'mlt')
    else:
        olat, omlt, rc = o.normal_coord(h.arr(lat), h.arr(mlt))
        h.shape_is(olat, (k,), 'lat')
        h.shape_is(omlt, (k,), 'mlt')
        h.shape_is(rc, (k,), 'r_corr')
    from symx.harness import flat
    olat, omlt, rc = flat(olat), flat(omlt), flat(rc)
    for i in range(k):
        kws = rec['kwargs']
        want = rf(mlt[i], **kws)
        h.eq(rc[i], want, 'r_corr is the radius function at the MLT')
        c, s = h.cs(f[i])
        cp, sp = h.cs(g)
        sc = (90 - bl) / (rec['r'] + want)
        xn = (rho[i] * c - rec['rcent'] * cp) * sc
        yn = (rho[i] * s - rec['rcent'] * sp) * sc
        R = 90 - olat[i] * hemi
        h.le(0, R, 'latitude not beyond the pole')
        h.eq(R * R, xn * xn + yn * yn, 'OCB co-latitude')
        h.le(0, omlt[i], 'OCB MLT at least 0')
        h.lt(omlt[i], 24, 'OCB MLT below 24')
        co, so = h.cs(omlt[i] / 12)
        h.eq(R * co, xn, 'OCB MLT x')
        h.eq(R * so, yn, 'OCB MLT y')
    h.observe('lat', olat)
    h.observe('mlt', omlt)


def tasks(tier):
    out = []
    for cls in ('OCBoundary', 'EABoundary'):
        for hemi in (1, -1):
            for n, nrec, ind, kw in (('0', 1, 0, False), ('1', 2, 1, True),
                                     ('2', 3, 1, True)):
                out.append((body, dict(hemi=hemi, n=n, nrec=nrec, ind=ind,
                                       cls=cls, kw=kw), {},
                            '%s hemi%+d n%s rec%d/%d' % (cls, hemi, n, ind,
                                                        nrec)))
    return out
