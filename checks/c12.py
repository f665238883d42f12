"""C12: solar local time and longitude conversions."""
import datetime as rdt

from symx import fpx, times
from symx.harness import flat

BOUNDS = ('Free hour, minute, second and microsecond of the universal time, '
          'several dates; local times -36..60 h, longitudes -540..900 deg '
          '(thorough twice that); scalars, 0-d, 1-3 element arrays, lists, '
          'integers, NaN elements. FP tasks: every double local time in '
          '0-24 h or longitude in 0-360 deg with every double universal hour '
          '(thorough: one cycle either side).')
DATES = [(2005, 6, 20), (2000, 2, 29), (2011, 12, 31)]


def moment(h, d):
    hh = h.integer('hour', 0, 23)
    mm = h.integer('minute', 0, 59)
    ss = h.integer('second', 0, 59)
    us = h.integer('us', 0, 999999)
    f = times.build if h.sym else rdt.datetime
    t = f(*DATES[d], hh, mm, ss, us)
    sec = h.const(1) * us / 1000000 + ss
    return t, (sec / 60 + mm) / 60 + hh


def values(h, name, shape, nans, lo, hi, kind):
    n = {'s': 1, '0d': 1, '1': 1, '2': 2, '3': 3}[shape]
    v = [h.nan() if i in nans else
         (h.integer if kind == 'i' else h.real)('%s%d' % (name, i), lo, hi)
         for i in range(n)]
    if shape == 's':
        return v, v[0], ()
    if kind == 'l':
        return v, list(v), (n,)
    shp = () if shape == '0d' else (n,)
    return v, h.arr(v, 'i' if kind == 'i' else 'f').reshape(shp), shp


def slt(h, shape='s', nans=(), kind='f', d=0, wide=1):
    from ocbpy import ocb_time
    t, uth = moment(h, d)
    v, arg, shp = values(h, 'slt', shape, nans, -36 * wide, 60 * wide, kind)
    out = ocb_time.slt2glon(arg, t)
    h.shape_is(out, shp, 'longitude shape')
    o = flat(out)
    for i, x in enumerate(v):
        if h.is_nan(x):
            h.check(h.is_nan(o[i]), 'NaN longitude')
            continue
        h.check(o[i] >= -180, 'longitude at or above -180')
        h.check(o[i] < 360, 'longitude below 360')
        h.mult_of((o[i] - (x - uth) * 15) / 360, 1, 'longitude congruent')
    back = ocb_time.glon2slt(out, t)
    b = flat(back)
    h.shape_is(back, shp, 'round-trip shape')
    for i, x in enumerate(v):
        if h.is_nan(x):
            h.check(h.is_nan(b[i]), 'NaN local time')
            continue
        h.check(b[i] >= 0, 'local time at or above 0')
        h.check(b[i] < 24, 'local time below 24')
        h.mult_of((b[i] - x) / 24, 1, 'round trip')


def glon(h, shape='s', nans=(), kind='f', d=0, wide=1):
    from ocbpy import ocb_time
    t, uth = moment(h, d)
    v, arg, shp = values(h, 'lon', shape, nans, -540 * wide, 900 * wide, kind)
    out = ocb_time.glon2slt(arg, t)
    h.shape_is(out, shp, 'local time shape')
    o = flat(out)
    for i, x in enumerate(v):
        if h.is_nan(x):
            h.check(h.is_nan(o[i]), 'NaN local time')
            continue
        h.check(o[i] >= 0, 'local time at or above 0')
        h.check(o[i] < 24, 'local time below 24')
        h.mult_of((o[i] - (x * h.frac(1, 15) + uth)) / 24, 1,
                  'local time congruent')


def hours(h, d=0):
    from ocbpy import ocb_time
    t, uth = moment(h, d)
    h.eq(ocb_time.datetime2hr(t), uth, 'hours of day')


def tasks(tier):
    out = []
    wide = 1 if tier == 'quick' else 3

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for body in (slt, glon):
        for d in range(3):
            add(body, d=d, wide=wide)
        for s, n in (('0d', ()), ('1', ()), ('1', (0,)), ('2', (1,)),
                     ('3', (0, 2)), ('s', (0,))):
            add(body, shape=s, nans=n, wide=wide)
        add(body, shape='2', wide=1)
        for k in ('i', 'l'):
            add(body, shape='1', kind=k, wide=wide)
        add(body, shape='s', kind='i', wide=wide)
    for d in range(3):
        add(hours, d=d)
    out += fpx.c12_tasks(tier)
    return out
