"""C31: geographic input is equivalent to converting it to magnetic first."""
import datetime as dt

from checks.common import UFunc, boundary, dual, other_record, T0, T1
from symx.harness import flat

BOUNDS = ('1-2 positions per call (the second one fixed), every latitude, '
          'local time up to six hours out of range, height of 100-900 km '
          '(single or per position), tracing option, geodetic and '
          'geocentric; whatever the AACGM conversion returns in either '
          'hemisphere, NaN included; the boundary record is neither the '
          'first nor the last loaded and all record times differ; OCB, EAB '
          'and dual boundaries, the latter in every region.')
OUTSIDE = ('The AACGM conversion itself (trusted, replaced by an arbitrary '
           'function of position, height, time and method); reverting '
           'arrays that mix hemispheres.')
LATE = T1 + dt.timedelta(days=40, hours=5)


def ut(h, t):
    return h.frac(t.hour * 3600 + t.minute * 60 + t.second, 3600)


def flags(method, coords):
    return method + ('|GEOCENTRIC' if coords == 'geocentric' else '')


class Place(object):
    """Positions and heights of one call."""

    def __init__(self, h, n, hts, lo, hi, base=1, easy=None, ltlo=-6, lthi=30):
        self.h, self.n = h, n
        self.lat = [(h.real('lat', lo, hi) if i == 0 else h.const(easy)) * base
                    for i in range(max(n, 1))]
        self.lt = [h.real('lt', ltlo, lthi) if i == 0 else h.const(3.5)
                   for i in range(max(n, 1))]
        ht = [h.real('ht%d' % i, 100, 900) for i in range(max(n, 1))]
        self.ht = [ht[0] if hts == 's' else x for x in ht]
        if n == 0:
            self.args = (self.lat[0], self.lt[0], self.ht[0])
        else:
            self.args = (h.arr(self.lat), h.arr(self.lt),
                         self.ht[0] if hts == 's' else h.arr(self.ht))


def first(h, p, t, method, coords):
    """AACGM coordinates of every position, as they should be asked for."""
    u = ut(h, t)
    out = []
    for la, lt, ht in zip(p.lat, p.lt, p.ht):
        a, _, m = h.aacgm.get_aacgm_coord(la, (lt - u) * 15, ht, t,
                                          flags(method, coords))
        out.append((a, m))
    return out


def options(h, nan=False, hemi=1, both=True):
    lo, hi = (-89, 89) if both else ((1, 89) if hemi > 0 else (-89, -1))
    h.aacgm_opts = {'g2a_lat': (lo, hi), 'g2a_lon_angle': True, 'nan': nan}
    h.mltshift_range = (-0.5, 0.5)


def make(h, cls, hemi, const=False):
    """The boundary and the time of its record."""
    def corr(name):
        if const:
            return lambda x, **k: x * 0 + 1.25
        return UFunc(h, name, -0.5, 5)
    if cls == 'DualBoundary':
        d, info = dual(h, hemi, dict(rcent=0.0, phi=0.0, r=12.0,
                                     rfunc=corr('co')),
                       dict(rcent=0.0, phi=0.0, r=26.0,
                            rfunc=corr('ce')), ind=1, extra=1)
        return d, info['times'][1]
    rec = dict(other_record(0), time=T1, rfunc=corr('rc'),
               kwargs={'a': 1}, phi=0.0, rcent=0.0)
    o = boundary(h, cls, hemi, hemi * 74.0,
                 [dict(other_record(1), time=T0), rec,
                  dict(other_record(2), time=LATE)], 1)
    return o, T1


def normal(h, cls='OCBoundary', hemi=1, n=0, hts='s', coords='geodetic',
           method='ALLOWTRACE', nan=False, kw=True):
    o, t = make(h, cls, hemi, n == 2)
    options(h, nan, hemi, n < 2)
    p = Place(h, n, hts, -89, 89, easy=80.0, **(
        dict(ltlo=3, lthi=16) if n == 2 else {}))
    if n == 2:
        h.mltshift_range = (0.125, 0.25)
        h.aacgm_opts['g2a_lon'] = (10, 150)
    if kw:
        out = o.normal_coord(p.args[0], p.args[1], coords=coords,
                             height=p.args[2], method=method)
    else:
        out = o.normal_coord(p.args[0], p.args[1], coords, p.args[2])
    out = [flat(x) for x in out]
    for x in out:
        h.check(len(x) == max(n, 1), 'one value per position')
    for i, (a, m) in enumerate(first(h, p, t, method, coords)):
        want = o.normal_coord(a, m)
        for j, (x, y) in enumerate(zip(out, want)):
            y = flat(y)[0]
            if n > 0 and j == len(out) - 1 and h.is_nan(y):
                # see C20: the correction beside NaN coordinates
                continue
            h.eq(x[i], y, 'output %d of the converted position' % j)


def revert(h, cls='OCBoundary', hemi=1, n=0, hts='s', coords='geodetic',
           method='ALLOWTRACE', region=None, ocb=False):
    o, t = make(h, cls, hemi)
    options(h)
    h.aacgm_opts = {'a2g_lon': (-180, 180)}
    p = Place(h, n, hts, 1, 89, base=hemi, easy=70.0, ltlo=0, lthi=24)
    if n == 2:
        h.mltshift_range = (0.125, 0.25)
        h.assume((p.lt[0] > 2) & (p.lt[0] < 10))
    rc = h.real('rc', -0.5, 5)
    if region:
        la = p.lat[0] * hemi
        if region == 'p':
            h.assume(la >= 74)
        elif region == 'm':
            h.assume((la < 74) & (la >= 64))
        else:
            h.assume(la < 64)
    kw = {}
    if cls == 'DualBoundary':
        am = [h.angle('am', 0, 2, ex_hi=True) * 12, h.const(20.25)][
            :max(n, 1)]
        kw = dict(is_ocb=ocb, aacgm_mlt=am[0] if n == 0 else h.arr(am))
    la, lt = o.revert_coord(p.args[0], p.args[1], rc, coords=coords,
                            height=p.args[2], method=method, **kw)
    la, lt = flat(la), flat(lt)
    h.check(len(la) == max(n, 1) and len(lt) == max(n, 1),
            'one value per position')
    u = ut(h, t)
    for i in range(max(n, 1)):
        if kw:
            kw = dict(is_ocb=ocb, aacgm_mlt=am[i])
        ml, mm = o.revert_coord(p.lat[i], p.lt[i], rc, **kw)
        lon = h.aacgm.mlt1(flat(mm)[0], t, True)
        ga, go, _ = h.aacgm.convert_latlon(
            flat(ml)[0], lon, p.ht[i], t, flags(method, coords) + '|A2G')
        h.eq(la[i], ga, 'latitude of the converted position')
        if h.is_nan(go):
            h.check(h.is_nan(lt[i]), 'NaN local time')
            continue
        h.le(0, lt[i], 'local time at least 0')
        h.lt(lt[i], 24, 'local time below 24')
        h.mult_of((lt[i] - go / 15 - u), 24,
                  'local time of the converted position')


def magnetic(h, cls='OCBoundary', hemi=1, op='normal'):
    """magnetic input and output never involve the conversion"""
    o, t = make(h, cls, hemi)
    options(h)
    p = Place(h, 0, 's', 1, 89, base=hemi)
    before = len(h.aacgm.table)
    if op == 'normal':
        o.normal_coord(p.lat[0], p.lt[0], coords='magnetic', height=p.ht[0])
    else:
        kw = dict(is_ocb=False, aacgm_mlt=2.0) if cls[0] == 'D' else {}
        o.revert_coord(p.lat[0], p.lt[0], 0.5, coords='MAGNETIC',
                       height=p.ht[0], **kw)
    h.check(len(h.aacgm.table) == before, 'no conversion')


def tasks(tier):
    out = []

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        out.append((body, k, dict(weight=w), nm))
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for hemi in (1, -1):
            for co in ('geodetic', 'geocentric'):
                for n, hts in ((0, 's'), (1, 's'), (2, 's'), (2, 'a')):
                    if cls == 'EABoundary' and n:
                        continue
                    if n == 2 and tier != 'thorough' and (
                            hemi < 0 or (hts == 's') != (co == 'geocentric')):
                        continue
                    m = 'TRACE' if n == 1 else 'ALLOWTRACE'
                    add(normal, 1 + 3 * n, cls=cls, hemi=hemi, coords=co, n=n,
                        hts=hts, method=m)
                    regs = 'pmo' if cls[0] == 'D' else (None,)
                    for r in regs:
                        add(revert, 1 + 3 * n, cls=cls, hemi=hemi, coords=co,
                            n=n, hts=hts, method=m, region=r)
            add(normal, cls=cls, hemi=hemi, nan=True)
            add(normal, cls=cls, hemi=hemi, kw=False)
            if cls[0] == 'D':
                add(revert, cls=cls, hemi=hemi, ocb=True)
            for op in ('normal', 'revert'):
                add(magnetic, cls=cls, hemi=hemi, op=op)
    return out
