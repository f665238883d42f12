"""Symbolic instants and durations that mix with datetime objects."""
import datetime as rdt
import re
from fractions import Fraction as Fr

from . import core
from .core import SB, SR, Unsupported, f_floor, f_mod, lift, sc2

EPOCH = rdt.datetime(1970, 1, 1)


def secs_of(t):
    """Seconds since 1970 of a real datetime, exactly."""
    d = t - EPOCH
    return Fr(d.days * 86400 + d.seconds) + Fr(d.microseconds, 10**6)


def dsecs(d):
    return Fr(d.days * 86400 + d.seconds) + Fr(d.microseconds, 10**6)


def real_delta(fr):
    us = fr * 10**6
    return rdt.timedelta(microseconds=int(round(us)))


class STDelta(object):
    """A duration; `s` is the number of seconds (SR)."""

    def __init__(self, s):
        self.s = lift(s) if not isinstance(s, SR) else s

    def total_seconds(self):
        return SR(self.s.num, self.s.den, 'f')

    @property
    def days(self):
        return core.as_int(f_floor(core.sc2('divide', self.s, 86400)))

    @property
    def seconds(self):
        return core.as_int(f_floor(f_mod(self.s, lift(86400))))

    @property
    def microseconds(self):
        return core.as_int(core.sc2('multiply', f_mod(self.s, lift(1)),
                                    10**6))

    @staticmethod
    def lift(o):
        if isinstance(o, STDelta):
            return o.s
        if isinstance(o, rdt.timedelta):
            return lift(dsecs(o))
        return None

    def _cmp(self, o, op):
        x = self.lift(o)
        if x is None:
            return NotImplemented
        return sc2(op, self.s, x)

    def __lt__(self, o):
        return self._cmp(o, 'less')

    def __le__(self, o):
        return self._cmp(o, 'less_equal')

    def __gt__(self, o):
        return self._cmp(o, 'greater')

    def __ge__(self, o):
        return self._cmp(o, 'greater_equal')

    def __eq__(self, o):
        return self._cmp(o, 'equal')

    def __ne__(self, o):
        return self._cmp(o, 'not_equal')

    __hash__ = None

    def __abs__(self):
        return STDelta(core.f_abs(self.s))

    def __neg__(self):
        return STDelta(-self.s)

    def __add__(self, o):
        x = self.lift(o)
        if x is not None:
            return STDelta(self.s + x)
        if isinstance(o, rdt.datetime):
            return STime(self.s + secs_of(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        x = self.lift(o)
        return NotImplemented if x is None else STDelta(self.s - x)

    def __rsub__(self, o):
        x = self.lift(o)
        if x is not None:
            return STDelta(x - self.s)
        if isinstance(o, rdt.datetime):
            return STime(lift(secs_of(o)) - self.s)
        return NotImplemented

    def __mul__(self, k):
        return STDelta(self.s * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        x = self.lift(o)
        return self.s / x if x is not None else STDelta(self.s / o)

    def __bool__(self):
        return bool(self.s != 0)

    def __str__(self):
        return '<duration>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<duration>'


class DayPart(object):
    """Year, month or day of an instant whose day is symbolic."""

    def __init__(self, t, d):
        self.t, self.d = t, d

    def value(self):
        return getattr(self.t.date(), {'Y': 'year', 'm': 'month',
                                       'd': 'day'}[self.d])


def day_token(t, d):
    key = ('day', t._day()[0].key(), d)
    for k, v in core.TOKENS.items():
        if v[0] == key:
            return k
    k = '\u27e8%d\u27e9' % len(core.TOKENS)
    core.TOKENS[k] = (key, DayPart(t, d), 'd')
    return k


class STime(object):
    """An instant; `s` is the number of seconds since 1970 (SR)."""

    tzinfo = None

    def __init__(self, s, fields=None):
        self.s = lift(s) if not isinstance(s, SR) else s
        self.fields = fields or {}

    # -- calendar fields
    def _day(self):
        """Midnight: (ordinal days SR, seconds of day SR)."""
        if '_day' not in self.fields:
            d = f_floor(core.sc2('divide', self.s, 86400))
            self.fields['_day'] = (d, self.s - core.sc2('multiply', d, 86400))
        return self.fields['_day']

    def date(self):
        """Concrete calendar day (the path forks over the days)."""
        if 'date' not in self.fields:
            d, _ = self._day()
            c = d.const()
            if c is None:
                c = core.concretise_int(core.as_int(d))
            self.fields['date'] = (EPOCH + rdt.timedelta(days=int(c))).date()
        return self.fields['date']

    def time(self):
        raise Unsupported('time of a symbolic instant')

    @property
    def year(self):
        if 'year' not in self.fields:
            lo, hi = 1965, 2036
            for y in (lo, hi):
                if core.truth(sc2('less' if y == lo else 'greater_equal',
                                  self.s, secs_of(rdt.datetime(y, 1, 1)))):
                    raise Unsupported('year outside 1965-2035')
            hi -= 1
            while lo < hi:
                m = (lo + hi + 1) // 2
                if core.truth(sc2('greater_equal', self.s,
                                  secs_of(rdt.datetime(m, 1, 1)))):
                    lo = m
                else:
                    hi = m - 1
            self.fields['year'] = lo
        return self.fields['year']

    @property
    def month(self):
        return self.date().month

    @property
    def day(self):
        return self.date().day

    @property
    def hour(self):
        if 'hour' not in self.fields:
            _, r = self._day()
            self.fields['hour'] = core.as_int(f_floor(r / 3600))
        return self.fields['hour']

    @property
    def minute(self):
        if 'minute' not in self.fields:
            _, r = self._day()
            self.fields['minute'] = core.as_int(
                f_floor((r - self.hour * 3600) / 60))
        return self.fields['minute']

    @property
    def second(self):
        if 'second' not in self.fields:
            _, r = self._day()
            self.fields['second'] = core.as_int(
                f_floor(r - self.hour * 3600 - self.minute * 60))
        return self.fields['second']

    @property
    def microsecond(self):
        if 'microsecond' not in self.fields:
            _, r = self._day()
            self.fields['microsecond'] = core.as_int(
                (r - self.hour * 3600 - self.minute * 60
                 - self.second) * 10**6)
        return self.fields['microsecond']

    def timetuple(self):
        return rdt.datetime.combine(self.date(), rdt.time(0)).timetuple()

    def toordinal(self):
        return self.date().toordinal()

    def timestamp(self):
        return self.s

    def strftime(self, fmt):
        tf = [d for d in ('%H', '%M', '%S', '%f', '%c', '%X', '%T')
              if d in fmt]
        if 'date' not in self.fields and self._day()[0].const() is None \
                and not re.search('%[^YmdHMSf%]', fmt):
            # leave the calendar day symbolic
            out = fmt
            for d in 'Ymd':
                out = out.replace('%' + d, day_token(self, d))
            for d, v in (('%H', 'hour'), ('%M', 'minute'),
                         ('%S', 'second'), ('%f', 'microsecond')):
                if d in out:
                    out = out.replace(d, core.token_for(
                        lift(getattr(self, v)), '02d'))
            return out.replace('%%', '%')
        if not tf:
            return self.date().strftime(fmt)
        out = fmt
        for d, v in (('%H', 'hour'), ('%M', 'minute'), ('%S', 'second'),
                     ('%f', 'microsecond')):
            if d in out:
                out = out.replace(d, core.token_for(lift(getattr(self, v)),
                                                    '02d'))
        return self.date().strftime(out)

    def replace(self, **k):
        kk = dict(year=self.date().year, month=self.date().month,
                  day=self.date().day, hour=self.hour, minute=self.minute,
                  second=self.second, microsecond=self.microsecond)
        kk.update(k)
        return build(**kk)

    def isoformat(self, *a):
        return '<time>'

    @staticmethod
    def lift(o):
        if isinstance(o, STime):
            return o.s
        if isinstance(o, rdt.datetime):
            return lift(secs_of(o))
        return None

    def _cmp(self, o, op):
        x = self.lift(o)
        if x is None:
            return NotImplemented
        return sc2(op, self.s, x)

    def __lt__(self, o):
        return self._cmp(o, 'less')

    def __le__(self, o):
        return self._cmp(o, 'less_equal')

    def __gt__(self, o):
        return self._cmp(o, 'greater')

    def __ge__(self, o):
        return self._cmp(o, 'greater_equal')

    def __eq__(self, o):
        return self._cmp(o, 'equal')

    def __ne__(self, o):
        return self._cmp(o, 'not_equal')

    def __hash__(self):
        raise Unsupported('hash of a symbolic instant')

    def __add__(self, o):
        x = STDelta.lift(o)
        return NotImplemented if x is None else STime(self.s + x)

    __radd__ = __add__

    def __sub__(self, o):
        x = STDelta.lift(o)
        if x is not None:
            return STime(self.s - x)
        x = self.lift(o)
        return NotImplemented if x is None else STDelta(self.s - x)

    def __rsub__(self, o):
        x = self.lift(o)
        return NotImplemented if x is None else STDelta(x - self.s)

    def __str__(self):
        return '<time>'

    __repr__ = __str__

    def __format__(self, spec):
        if '%' in spec:
            return self.strftime(spec)
        return '<time>'

    # observations
    def obs_equal(self, c, env):
        if not isinstance(c, rdt.datetime):
            return False
        return abs(self.s.ev(env) - secs_of(c)) < 2e-6


def issymtime(x):
    return isinstance(x, (STime, STDelta))


def anysym(vals):
    return any(isinstance(v, (SR, SB)) for v in vals)


def norm(v):
    from . import npshim
    if isinstance(v, npshim.SArr) and v.size == 1:
        v = v.raw.reshape(-1)[0]
    if isinstance(v, SR) and v.const() is not None:
        c = v.const()
        return int(c) if v.ty == 'i' else float(c)
    return v


def build(year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0,
          tzinfo=None):
    vals = [norm(v) for v in (year, month, day, hour, minute, second,
                              microsecond)]
    if not anysym(vals):
        return rdt.datetime(*vals)
    for v in vals:
        if isinstance(v, SR) and v.ty != 'i':
            raise TypeError("integer argument expected, got float")
    for i in (0, 1, 2):
        if isinstance(vals[i], SR):
            if i == 2:
                lim = (rdt.date(vals[0] + vals[1] // 12, vals[1] % 12 + 1, 1)
                       - rdt.date(vals[0], vals[1], 1)).days
                if core.truth((vals[2] < 1) | (vals[2] > lim)):
                    raise ValueError('day is out of range for month')
            else:
                vals[i] = core.concretise_int(vals[i])
    for v, hi, nm in zip(vals[3:], (23, 59, 59, 999999),
                         ('hour', 'minute', 'second', 'microsecond')):
        if isinstance(v, SR):
            if core.truth((v < 0) | (v > hi)):
                raise ValueError('%s must be in 0..%d' % (nm, hi))
    day = vals[2]
    base = lift(secs_of(rdt.datetime(vals[0], vals[1],
                                     1 if isinstance(day, SR) else day)))
    if isinstance(day, SR):
        base = base + (day - 1) * 86400
    s = base + lift(vals[3]) * 3600 + lift(vals[4]) * 60 + lift(vals[5]) \
        + lift(vals[6]) / 1000000
    f = {'hour': vals[3], 'minute': vals[4], 'second': vals[5],
         'microsecond': vals[6]}
    if not isinstance(day, SR):
        f['date'] = rdt.date(vals[0], vals[1], day)
        f['_day'] = (base / 86400, s - base)
    f['year'] = vals[0]
    return STime(s, f)


def strptime(text, fmt):
    """datetime.strptime for text that may hold symbolic number tokens."""
    if '⟨' not in text and not any(c in core.DIGITS for c in text):
        return rdt.datetime.strptime(text, fmt)
    # split the format into literals and directives
    i = p = 0
    got = {}
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            d = fmt[i + 1]
            i += 2
            if d == '%':
                if text[p:p + 1] != '%':
                    raise ValueError('does not match format')
                p += 1
                continue
            if text[p:p + 1] == '⟨':
                e = text.index('⟩', p) + 1
                tok = core.TOKENS[text[p:e]]
                p = e
                got[d] = tok[1] if isinstance(tok[1], DayPart) else \
                    token_int(tok)
            elif text[p:p + 1] == '-' and text[p + 1:p + 2] == '⟨':
                raise ValueError('time data does not match format')
            else:
                w = {'Y': 4, 'j': 3, 'f': 6, 'b': 3, 'a': 3}.get(d, 2)
                e = p
                if d in 'ba':
                    e = p + 3
                    got[d] = text[p:e]
                else:
                    while e < len(text) and e - p < w and (
                            text[e].isdigit() or text[e] in core.DIGITS):
                        e += 1
                    if e == p or (d == 'Y' and e - p < 4):
                        raise ValueError('time data does not match format')
                    q = text[p:e] if d != 'f' else text[p:e].ljust(6, '0')
                    got[d] = core.digits_value(q)
                    if got[d] is None:
                        got[d] = int(q)
                p = e
        elif c.isspace():
            q = p
            while p < len(text) and text[p].isspace():
                p += 1
            if q == p:
                raise ValueError('time data does not match format')
            while i < len(fmt) and fmt[i].isspace():
                i += 1
        else:
            if text[p:p + 1] != c:
                raise ValueError('time data does not match format')
            p += 1
            i += 1
    if p < len(text):
        raise ValueError('unconverted data remains: %s' % text[p:])
    parts = [got.get(d) for d in 'Ymd']
    if all(isinstance(q, DayPart) for q in parts) and len(
            set(id(q.t) for q in parts)) == 1:
        day = parts[0].t._day()
        base = day[0] * 86400
        for d, k in (('H', 3600), ('M', 60), ('S', 1)):
            base = base + lift(got.get(d, 0)) * k
        base = base + lift(got.get('f', 0)) / 10**6
        f = dict(hour=got.get('H', 0), minute=got.get('M', 0),
                 second=got.get('S', 0), microsecond=got.get('f', 0))
        f['_day'] = (day[0], base - day[0] * 86400)
        limits(got)
        return STime(base, f)
    for d in 'Ymd':
        if isinstance(got.get(d), DayPart):
            got[d] = got[d].value()
    limits(got)
    y = norm(got.get('Y', 1900))
    if isinstance(y, SR):
        y = core.concretise_int(y)
    if 'b' in got:
        got['m'] = rdt.datetime.strptime(got['b'], '%b').month
    kw = dict(hour=got.get('H', 0), minute=got.get('M', 0),
              second=got.get('S', 0), microsecond=got.get('f', 0))
    if 'j' in got:
        r = build(y, 1, 1, **kw)
        j = norm(got['j'])
        d = (j - 1) * 86400
        if not isinstance(r, STime):
            r = STime(secs_of(r))
        f = {k: v for k, v in r.fields.items()
             if k in ('hour', 'minute', 'second', 'microsecond')}
        jan1 = lift(secs_of(rdt.datetime(y, 1, 1)))
        f['_day'] = ((jan1 + d) / 86400, r.s - jan1)
        return STime(r.s + d, f)
    return build(y, got.get('m', 1), got.get('d', 1), **kw)


def limits(got):
    for d, (lo, hi) in dict(j=(1, 366), H=(0, 23), M=(0, 59), S=(0, 61),
                            m=(1, 12), d=(1, 31)).items():
        v = norm(got.get(d))
        if isinstance(v, SR):
            if core.truth((v < lo) | (v > hi)):
                raise ValueError('time data does not match format')


def token_int(tok):
    """Integer value of a formatted number (raises like int parsing)."""
    import re
    spec, val = tok[2], tok[1]
    val = lift(val)
    m = re.match(r'^0?\d*(?:\.(\d+))?([dfg]?)$', spec)
    if m is None:
        raise Unsupported('number format ' + spec)
    if m.group(2) == 'f' or (m.group(2) == '' and val.ty == 'f'):
        if m.group(1) != '0':
            raise Unsupported('fractional field in a date string')
        return core.as_int(core.f_round(val))
    return core.as_int(val)


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (rdt.datetime, STime))

    def __getattr__(cls, k):
        return getattr(rdt.datetime, k)

    def __eq__(cls, o):
        return o is cls or o is rdt.datetime

    def __hash__(cls):
        return hash(rdt.datetime)


class SymDatetime(metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return build(*a, **k)

    @staticmethod
    def strptime(text, fmt):
        return strptime(text, fmt)

    @staticmethod
    def combine(d, t, *a):
        return rdt.datetime.combine(d, t, *a)


class _TDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (rdt.timedelta, STDelta))

    def __getattr__(cls, k):
        return getattr(rdt.timedelta, k)


class SymTimedelta(metaclass=_TDMeta):
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
        v = [norm(x) for x in (days, seconds, microseconds, milliseconds,
                               minutes, hours, weeks)]
        if not anysym(v):
            return rdt.timedelta(*[float(x) if hasattr(x, 'dtype') else x
                                   for x in v])
        k = (86400, 1, Fr(1, 10**6), Fr(1, 1000), 60, 3600, 604800)
        s = lift(0)
        for x, f in zip(v, k):
            s = s + lift(x) * f
        # datetime keeps whole microseconds, rounding half to even
        us = s * 10**6
        if not core.W.proved(core.isint(us)):
            us = core.f_round(us)
        return STDelta(us / 10**6)


class SymDTModule(object):
    """Stands in for the datetime module."""
    datetime = SymDatetime
    timedelta = SymTimedelta

    def __getattr__(self, k):
        return getattr(rdt, k)


DT = SymDTModule()
