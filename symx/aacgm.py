"""Stand-in for aacgmv2: uninterpreted conversions with the real call shapes.

Every distinct conversion returns fresh, unconstrained values (within the
documented ranges); the same arguments return the same values.  The harness
states what a conversion should have been asked by asking it again.
"""
import types

import numpy as np

from . import core, npshim
from .core import SR, SB, lift


def method_flags(code, base=''):
    if isinstance(code, str):
        known = ('G2A', 'A2G', 'TRACE', 'BADIDEA', 'GEOCENTRIC', 'ALLOWTRACE')
        fl = {k for k in code.upper().replace(' ', '').split('|')
              if k in known}
    else:
        bits = {1: 'A2G', 2: 'TRACE', 4: 'ALLOWTRACE', 8: 'BADIDEA',
                16: 'GEOCENTRIC'}
        fl = {v for k, v in bits.items() if int(code) & k}
    fl.discard('G2A')
    return ','.join(sorted(fl))


class Aacgm(types.ModuleType):
    high_alt_coeff = 2000.0
    high_alt_trace = 6378.0

    def __init__(self, h, real):
        types.ModuleType.__init__(self, 'aacgmv2')
        self.h = h
        self.real_module = real
        self.table = []
        self.logger = real.logger
        self.calls = []

    # -- keys
    def canon(self, x, period=None):
        """Scalar argument; longitudes are compared modulo 360."""
        x = npshim_scalar(x)
        if self.h.sym:
            if isinstance(x, str) or hasattr(x, 's'):
                return x
            x = lift(x)
            return x
        return float(x)

    def canon_time(self, t):
        if not hasattr(t, 'year'):
            raise ValueError('time variable (dtime) must be a datetime object')
        return t

    def same(self, a, b, period=None):
        if not self.h.sym:
            if a != a or b != b:
                return a != a and b != b
            d = a - b
            if period:
                d = d - period * round(d / period)
            return abs(d) < 1e-6 * (1 + abs(a))
        sa, sb = core.isspecial(a), core.isspecial(b)
        if sa or sb:
            return sa and sb
        d = core.sc2('subtract', a, b)
        c = d.const()
        if c is not None:
            return c == 0 or (period and (c / period).denominator == 1)
        if period:
            return False
        if core.W.proved(core.sc2('equal', a, b), 1.0):
            return True
        return False

    def sametime(self, a, b):
        r = a == b
        if isinstance(r, SB):
            return r.static() is True or core.W.proved(r, 1.0)
        return bool(r)

    def lookup(self, kind, flags, t, args, periods, make):
        for e in self.table:
            if e[0] == kind and e[1] == flags and self.sametime(e[2], t) and \
                    all(self.same(x, y, p) for x, y, p in
                        zip(e[3], args, periods)):
                return e[4]
        out = make()
        self.table.append((kind, flags, t, args, out))
        return out

    # -- elementary conversions
    def conv(self, lat, lon, height, t, flags):
        lat, lon, height = (self.canon(lat), self.canon(lon),
                            self.canon(height))
        t = self.canon_time(t)
        if any(self.h.is_nan(x) for x in (lat, lon, height)):
            return core.NAN, core.NAN, core.NAN
        h = self.h
        o = h.cfg.get('aacgm', {}) if isinstance(h.cfg, dict) else {}
        o = getattr(h, 'aacgm_opts', {}) or o
        a2g = 'A2G' in flags
        pole = None
        c = lat.const() if h.sym else lat
        if c is not None and abs(abs(float(c)) - 90.0) < 1e-9:
            pole = 1 if c > 0 else -1
            # the longitude of a pole carries no information
            lon = self.canon(0.0)

        def make():
            nm = 'a2g' if a2g else 'g2a'
            if pole:
                nm += 'pole'
            lo, hi = o.get(nm + '_lat', o.get('lat', (-90, 90)))
            llo, lhi = o.get(nm + '_lon', o.get('lon', (-180, 180)))
            if o.get('nan') and h.flag(h.name(nm + 'nan')):
                return core.NAN, core.NAN, core.NAN
            la = h.real(h.name(nm + 'lat'), lo, hi)
            if o.get(nm + '_lon_angle', o.get('lon_angle')):
                lo_ = h.angle(h.name(nm + 'lon'), llo / 180, lhi / 180) * 180
            else:
                lo_ = h.real(h.name(nm + 'lon'), llo, lhi)
            return la, lo_, h.const(1.0)
        return self.lookup('conv', flags, t, (lat, lon, height),
                           (None, 360, None), make)

    def mltc(self, t):
        """Local time minus longitude/15 at an instant."""
        t = self.canon_time(t)
        h = self.h
        return self.lookup(
            'mlt', '', t, (), (),
            lambda: h.real(h.name('mltshift'), *getattr(
                h, 'mltshift_range', (-1, 1))))

    def mlt1(self, x, t, m2a):
        x = self.canon(x)
        if self.h.is_nan(x):
            return core.NAN
        c = self.mltc(t)
        o = getattr(self.h, 'aacgm_opts', {})
        if m2a:
            return self.wrap((x - c) * 15, o.get('m2a', (-180, 180)))
        return self.wrap(x / 15 + c, o.get('a2m', (0, 24)))

    def wrap(self, x, rng):
        lo, hi = rng
        per = hi - lo
        if self.h.sym:
            x = lift(x)
            for i in range(4):
                if core.truth(core.sc2('less', x, lo)):
                    x = x + per
                elif core.truth(core.sc2('greater_equal', x, hi)):
                    x = x - per
                else:
                    return x
            raise core.Unsupported('longitude wrap')
        while x < lo:
            x += per
        while x >= hi:
            x -= per
        return x

    # -- public functions
    def convert_latlon(self, in_lat, in_lon, height, dtime, method_code='G2A'):
        return self.conv(in_lat, in_lon, height, dtime,
                         method_flags(method_code))

    def convert_latlon_arr(self, in_lat, in_lon, height, dtime,
                           method_code='G2A'):
        arrs = [flatarr(x) for x in (in_lat, in_lon, height)]
        n = 1
        lens = [len(a[0]) for a in arrs if a[1]]
        if lens:
            n = max(lens)
        out = []
        for vals, isarr in arrs:
            if not isarr or (len(vals) == 1 and n > 1):
                vals = list(vals) * n
            out.append(vals)
        if len({len(v) for v in out}) != 1:
            raise ValueError('lat, lon, and height arrays are mismatched')
        fl = method_flags(method_code)
        res = [self.conv(a, b, c, dtime, fl) for a, b, c in zip(*out)]
        return tuple(self.h.arr([r[i] for r in res]) for i in range(3))

    def get_aacgm_coord(self, glat, glon, height, dtime, method='ALLOWTRACE'):
        la, lo, _ = self.convert_latlon(glat, glon, height, dtime,
                                        'G2A|' + method)
        mlt = core.NAN if self.h.is_nan(lo) else self.mlt1(lo, dtime, False)
        return la, lo, mlt

    def get_aacgm_coord_arr(self, glat, glon, height, dtime,
                            method='ALLOWTRACE'):
        la, lo, _ = self.convert_latlon_arr(glat, glon, height, dtime,
                                            'G2A|' + method)
        vals = flatarr(lo)[0]
        mlt = self.h.arr([core.NAN if self.h.is_nan(x)
                          else self.mlt1(x, dtime, False) for x in vals])
        return la, lo, mlt

    def convert_mlt(self, arr, dtime, m2a=False):
        vals, isarr = flatarr(arr)
        if hasattr(dtime, 'year'):
            ts = [dtime] * len(vals)
        else:
            ts = list(dtime)
            if len(ts) != len(vals):
                raise ValueError('array input for datetime and MLon/MLT must '
                                 'match')
        res = [self.mlt1(x, t, m2a) for x, t in zip(vals, ts)]
        if m2a and len(res) > 1:
            return [r if self.h.sym else float(r) for r in res]
        return self.h.arr(res)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.__dict__['real_module'], k)


def npshim_scalar(x):
    if isinstance(x, npshim.SArr):
        return x.raw.reshape(-1)[0] if x.size == 1 else bad()
    if isinstance(x, np.ndarray):
        return x.reshape(-1)[0] if x.size == 1 else bad()
    return x


def bad():
    raise ValueError('can only convert an array of size 1 to a Python scalar')


def flatarr(x):
    """(values, is an array)"""
    if isinstance(x, npshim.SArr):
        if x.ndim > 1:
            raise ValueError('unable to process multi-dimensional arrays')
        return list(x.raw.reshape(-1)), x.ndim > 0
    if isinstance(x, np.ndarray):
        if x.ndim > 1:
            raise ValueError('unable to process multi-dimensional arrays')
        return list(x.reshape(-1)), x.ndim > 0
    if isinstance(x, (list, tuple)):
        return [npshim_scalar(e) for e in x], True
    return [x], False
