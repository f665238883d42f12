"""C07: radii reported for a normalised position describe its region."""
from checks.dualbase import Case
from symx.harness import flat

BOUNDS = ('1-3 positions per call (scalar, array; scalar or array correction)'
          ', any mix of regions, normalised latitude in [0, 90]; geometry as '
          'in C05; previously stored boundaries: none, OCB only, EAB only, '
          'both; index inside and outside the pairs.')


def store(d, which):
    """Put marker values on the boundaries (as an earlier request would)."""
    out = {}
    for nm in ('ocb', 'eab'):
        b = getattr(d, nm)
        if nm[0] in which:
            la, ml = ['%s lat %d' % (nm, i) for i in range(b.records)], [
                '%s mlt %d' % (nm, i) for i in range(b.records)]
            b.aacgm_boundary_lat, b.aacgm_boundary_mlt = list(la), list(ml)
            out[nm] = (la, ml)
    return out


def kept(h, d, saved, changed):
    """Stored values are in place (except where overwriting was asked)."""
    for nm, (la, ml) in saved.items():
        b = getattr(d, nm)
        h.check(len(b.aacgm_boundary_lat) == len(la)
                and len(b.aacgm_boundary_mlt) == len(ml),
                nm + ' stored lists keep their length')
        for i in range(len(la)):
            if changed and i == b.rec_ind:
                continue
            for got, want, t in ((b.aacgm_boundary_lat[i], la[i], 'latitude'),
                                 (b.aacgm_boundary_mlt[i], ml[i], 'MLT')):
                h.check(isinstance(got, str) and got == want,
                        'stored %s of the %s kept' % (t, nm))


def body(h, hemi=1, n='s', ind=1, which='', overwrite=False, rk='a',
         geo='zero', at=None, sym_lat=True):
    w = Case(h, hemi, ind=ind, geo=geo, sym_lat=sym_lat)
    saved = store(w.d, which)
    k = 1 if n == 's' else int(n)
    if at is None:
        f = [h.angle('f%d' % i, 0, 2, ex_hi=True) for i in range(k)]
    else:
        f = [h.frac(at + 8 * i, 12) for i in range(k)]
    mlt = [x * 12 for x in f]
    bs = [w.bounds(m, x) for m, x in zip(mlt, f)]
    nl = [h.real('n%d' % i, 0, 90) * hemi for i in range(k)]
    c = [h.real('c%d' % i, -0.5, 20) for i in range(k)]
    if rk == 's':
        c = [c[0]] * k
    arr = (lambda x: x[0]) if n == 's' else h.arr
    bm = [h.const(3.5 + i) for i in range(k)]
    sr, ur = w.d.calc_r(arr(nl), arr(bm), arr(mlt),
                        c[0] if rk == 's' else arr(c), overwrite=overwrite)
    shp = () if n == 's' else (k,)
    h.shape_is(sr, shp, 'scaled radius')
    h.shape_is(ur, shp, 'unscaled radius')
    sr, ur = flat(sr), flat(ur)
    for i in range(k):
        x = nl[i] * hemi
        bO, bE = bs[i]
        if h.decide(x >= w.ol):
            ws, wu, t = 90 - w.ol, w.O['r'] + c[i], 'polar cap'
        elif h.decide(x >= w.el):
            ws, wu, t = w.ol - w.el, bO - bE, 'auroral zone'
        else:
            ws, wu, t = w.el, bE, 'sub-auroral'
        h.eq(sr[i], ws, 'scaled radius, ' + t)
        h.eq(ur[i], wu, 'unscaled radius, ' + t)
    kept(h, w.d, saved, overwrite)


def badind(h, hemi=1, n='s', off=-1):
    w = Case(h, hemi, geo='merid')
    nr = w.d.records
    w.d.rec_ind = off if off < 0 else nr + off
    k = 1 if n == 's' else int(n)
    nl = [h.real('n%d' % i, 0, 90) * hemi for i in range(k)]
    m = [h.const(3.5 + i) for i in range(k)]
    c = [h.real('c%d' % i, -0.5, 20) for i in range(k)]
    arr = (lambda x: x[0]) if n == 's' else h.arr
    out = w.d.calc_r(arr(nl), arr(m), arr(m), arr(c))
    h.all_nan(out[1], 'unscaled radius')
    h.check(len(flat(out[1])) == k, 'one radius per position')


def stored(h, hemi=1, which='', op='n', overwrite=False, ind=1, pat='pmo'):
    """conversions leave the stored boundaries alone"""
    w = Case(h, hemi, ind=ind, geo='conc', sym_lat=False)
    saved = store(w.d, which)
    L = {'p': 85.0, 'm': 72.5, 'o': 30.0}
    x = h.real('x', -1, 1)
    lat = h.arr([(L[p] + x) * hemi for p in pat])
    mlt = h.arr([8.0 * i for i in range(len(pat))])
    if op == 'n':
        w.d.normal_coord(lat, mlt, overwrite=overwrite)
    else:
        w.d.revert_coord(lat, mlt, 0.0, is_ocb=False, aacgm_mlt=mlt,
                         overwrite=overwrite)
    kept(h, w.d, saved, overwrite)


def tasks(tier):
    out = []
    for hemi in (1, -1):
        for n in 's12':
            for which in ('', 'o', 'e', 'oe'):
                for ow in (False, True):
                    if n == '2' and (which == 'o' or ow):
                        continue
                    out.append((body, dict(
                        hemi=hemi, n=n, ind=int(n == 's'), which=which,
                        overwrite=ow, at=3 if n == '2' else None,
                        sym_lat=n != '2'), {},
                        '%+d %s stored %s %s' % (hemi, n, which or '-', ow)))
        for at in (0, 8, 16):
            out.append((body, dict(hemi=hemi, n='1', which='oe', geo='conc',
                                   at=at), {}, '%+d off meridian %d' % (
                                       hemi, at)))
        for at in (6, 18):
            out.append((body, dict(hemi=hemi, n='s', which='o', geo='merid',
                                   at=at), {}, '%+d meridian %d' % (hemi, at)))
        out.append((body, dict(hemi=hemi, n='2', rk='s', at=3, sym_lat=False),
                    {}, '%+d scalar correction' % hemi))
        if tier == 'thorough':
            out.append((body, dict(hemi=hemi, n='3', at=0, sym_lat=False), {},
                        '%+d three' % hemi))
        for n in 's12':
            for off in (-2, -1, 0, 1, 2):
                out.append((badind, dict(hemi=hemi, n=n, off=off), {},
                            '%+d index %d %s' % (hemi, off, n)))
        for op in 'nr':
            for which in ('o', 'e', 'oe'):
                for ow in (False, True):
                    for pat in ('pmo', 'p', 'mo'):
                        out.append((stored, dict(
                            hemi=hemi, which=which, op=op, overwrite=ow,
                            ind=int(ow), pat=pat), {},
                            '%+d kept %s %s %s %s' % (hemi, op, which, ow,
                                                      pat)))
    return out
