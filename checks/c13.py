"""C13: time-format conversions."""
import datetime as rdt

from symx import core, times

BOUNDS = ('Every year 1965-2034 and second of the year; every year 1965-2034, '
          'day of year and second of day; every day of 1999-2004 (thorough '
          '1970-2033) with every hour, minute and second; fractional seconds '
          'are reals; digits of the texts are symbolic.')
OUTSIDE = ('Text that does not follow the format (errors), years outside the '
           'listed ones, leap seconds, time zones.')


def number(h, name, n, lo, hi):
    """(value, text of n digits) with lo <= value <= hi."""
    lod, hid = '%0*d' % (n, lo), '%0*d' % (n, hi)
    digs, same, v = [], True, h.const(0) if h.sym else 0
    for i in range(n):
        if same and lod[i] == hid[i]:
            d = int(lod[i])
        else:
            d = h.integer('%s_d%d' % (name, i), int(lod[i]) if same else 0,
                          int(hid[i]) if same else 9)
            same = False
        digs.append(d)
        v = v * 10 + d
    if h.sym:
        v = core.SR(v.num, v.den, 'i')
    h.assume(v >= lo)
    h.assume(v <= hi)
    return v, h.digits(v, n, digs)


def leap(h, y):
    return h.decide(y - h.floor(h.frac(1, 4) * y) * 4 == 0) if h.sym else \
        y % 4 == 0


def jan1(h, y):
    """Seconds from 1970 to the start of the year (1901-2099)."""
    return ((y - 1970) * 365 + h.floor(h.frac(1, 4) * (y - 1969))) * 86400


def secs(h, t):
    """Seconds since 1970 of a result."""
    if h.sym:
        return times.STime.lift(t)
    h.check(isinstance(t, rdt.datetime), 'is a datetime')
    return float(times.secs_of(t))


def near(h, t, want, tol, label):
    if h.sym:
        d = secs(h, t) - want
        h.check(d <= h.frac(*tol), label + ' not late')
        h.check(d >= -h.frac(*tol), label + ' not early')
    else:
        h.check(abs(secs(h, t) - want) <= tol[0] / tol[1] + 1e-6, label)


def soy(h, kind='f', via='convert', lo=1965, hi=2034):
    from ocbpy import ocb_time
    y = h.integer('year', lo, hi)
    s = (h.integer if kind == 'i' else h.real)('soy', 0, 366 * 86400)
    if leap(h, y):
        h.assume(s < 366 * 86400)
    else:
        h.assume(s < 365 * 86400)
    if via == 'convert':
        t = ocb_time.convert_time(year=y, soy=s)
    else:
        t = ocb_time.year_soy_to_datetime(y, s)
    near(h, t, jan1(h, y) + s, (0, 1) if kind == 'i' else (1, 1), 'instant')


def clock(h):
    hh, th = number(h, 'hour', 2, 0, 23)
    mm, tm = number(h, 'minute', 2, 0, 59)
    ss, ts = number(h, 'second', 2, 0, 59)
    return (hh * 60 + mm) * 60 + ss, (th, tm, ts)


def tail(h, how):
    """(seconds of day, tolerance, keyword arguments)."""
    if how == 'none':
        return h.const(0), (0, 1), {}
    if how == 'sodi':
        s = h.integer('sod', 0, 86399)
        return s, (0, 1), dict(sod=s)
    if how == 'sod':
        s = h.real('sod', 0, 86400)
        h.assume(s < 86400)
        return s, (1, 10**6), dict(sod=s)
    s, t = clock(h)
    if how == 'tod.f':
        us, tu = number(h, 'us', 6, 0, 999999)
        return s + h.frac(1, 10**6) * us, (0, 1), dict(
            tod='%s:%s:%s.%s' % (t + (tu,)))
    return s, (0, 1), dict(tod=('%s %s %s' if how == 'tod ' else '%s:%s:%s')
                           % t)


def yyddd(h, how='none', fmt=None, dec=''):
    from ocbpy import ocb_time
    yy, ty = number(h, 'yy', 3, 65, 134)
    dd, td = number(h, 'ddd', 3, 1, 366)
    if not leap(h, yy):
        h.assume(dd <= 365)
    s, tol, kw = tail(h, how)
    if fmt is not None:
        kw['datetime_fmt'] = fmt
    # a two-digit year has no leading zero
    if h.decide(yy < 100):
        ty = ty[1:]
    t = ocb_time.convert_time(yyddd=ty + td + dec, **kw)
    near(h, t, jan1(h, yy + 1900) + (dd - 1) * 86400 + s, tol, 'instant')


DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def date(h, how='none', order='Y-m-d', fmt=None, lo=1999, hi=2004):
    from ocbpy import ocb_time
    y, ty = number(h, 'year', 4, lo, hi)
    m, tm = number(h, 'month', 2, 1, 12)
    d, td = number(h, 'day', 2, 1, 31)
    lp = leap(h, y)
    doy = d - 1
    for i in range(12):
        if h.decide(m == i + 1):
            h.assume(d <= DIM[i] + (1 if lp and i == 1 else 0))
            doy = doy + sum(DIM[:i]) + (1 if lp and i > 1 else 0)
            break
    s, tol, kw = tail(h, how)
    if fmt is not None:
        kw['datetime_fmt'] = fmt
    t = ocb_time.convert_time(
        date=order.replace('Y', ty).replace('m', tm).replace('d', td), **kw)
    near(h, t, jan1(h, y) + doy * 86400 + s, tol, 'instant')


def tasks(tier):
    out = []
    wide = dict(lo=1970, hi=2033) if tier != 'quick' else {}

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for k in 'fi':
        for v in ('convert', 'direct'):
            add(soy, kind=k, via=v)
    for how, fmt in (('none', None), ('sod', None), ('sodi', None),
                     ('tod', None), ('sod', 'YYDDD SOD'),
                     ('sod', '%Y-%m-%d SOD'), ('sodi', 'YYDDD SOD'),
                     ('tod', '%H:%M:%S'), ('tod', 'YYDDD %H:%M:%S'),
                     ('tod ', 'YYDDD %H %M %S'), ('tod ', 'yyddd %H %M %S'),
                     ('tod.f', '%Y-%m-%d %H:%M:%S.%f')):
        add(yyddd, how=how, fmt=fmt)
    add(yyddd, dec='.0')
    add(yyddd, dec='.000', how='sod')
    for how, order, fmt in (('none', 'Y-m-d', None), ('tod', 'Y-m-d', None),
                            ('sod', 'Y-m-d', '%Y-%m-%d SOD'),
                            ('sodi', 'Y-m-d', None),
                            ('sod', 'Y-m-d', '%Y-%m-%d'),
                            ('tod', 'd/m/Y', '%d/%m/%Y %H:%M:%S'),
                            ('tod.f', 'Y-m-d', '%Y-%m-%d %H:%M:%S.%f'),
                            ('tod ', 'Ymd', '%Y%m%d %H %M %S'),
                            ('sod', 'Ymd', '%Y%m%d SOD')):
        add(date, how=how, order=order, fmt=fmt, **wide)
    return out
