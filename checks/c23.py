"""C23: formatted DMSP SSJ boundaries."""
import datetime as dt
import os

from checks.c28 import put, save
from checks.common import instant
from checks.writer import lines, number, printed, scratch
from symx import core
from symx.harness import flat

BOUNDS = ('1-2 daily files of 1-3 passes with free crossing times, '
          'positions and figures of merit, every mix of hemispheres, any '
          'order of columns and further columns; every magnetic colatitude '
          'and local time of the crossings off the magnetic equator.')
OUTSIDE = ('Downloading and unpacking (C36), the boundary finding itself '
           '(external ssj_auroral_boundary), other input formats.')
ASSUMPTIONS = ('aacgmv2 is an uninterpreted function of position, altitude, '
               'time and method.',
               'numpy.loadtxt splits lines into columns as documented.')
NEED = ['hemisphere', 'FOM'] + [
    '%s %s%d' % (k, b, i) for b in ('EQ', 'PO') for i in (1, 2)
    for k in ('UTSec', 'SC_GEOCENTRIC_LAT', 'SC_GEOCENTRIC_LON')]
OUT = '#sc date time r x y fom x_1 y_1 x_2 y_2'.split()


class Magnetic(object):
    """Free magnetic position of every place, altitude, time and method."""

    def __init__(self, h):
        self.h, self.table = h, []

    def one(self, lat, lon, alt, t, method):
        h = self.h
        for e in self.table:
            if (e[4] == method and h.aacgm.same(e[0], lat)
                    and h.aacgm.same(e[1], lon) and h.aacgm.same(e[2], alt)
                    and self.near(e[3], t)):
                return e[5]
        sg = self.sign[len(self.table) % len(self.sign)]
        out = (h.real(h.name('mlat'), 0.001, 90) * sg, h.real(h.name('mlon'), -180,
                                                          180),
               h.angle(h.name('mlt'), *self.half(len(self.table))) * 12)
        self.table.append((lat, lon, alt, t, method, out))
        return out

    def half(self, i):
        # which passes may cross any local time
        if self.wide is None or i // 4 == self.wide:
            return 0, 2
        return (0.5, 2) if i % 2 else (0.0, 0.4375)

    def near(self, a, b):
        # calculated times are rounded to a microsecond
        if self.h.sym:
            d = (a - b).total_seconds()
            ok = (d <= 1e-6) & (d >= -1e-6)
            return core.W.proved(ok, 2.0)
        return abs((a - b).total_seconds()) < 3e-6

    def __call__(self, lat, lon, height, dtime, method='ALLOWTRACE'):
        h = self.h
        n = max(len(flat(lat)), len(flat(lon)))
        alt = list(flat(height)) * (n if len(flat(height)) == 1 else 1)
        out = [self.one(a, b, c, dtime, method)
               for a, b, c in zip(flat(lat), flat(lon), alt)]
        return tuple(h.arr([o[i] for o in out]) for i in range(3))


def form(h, hemis=((1,),), signs=(1,), order=0, extra=False, alt=None,
         method=None, notes=1, one=False, free='PO1',
         wide=None):
    from ocbpy.boundaries import dmsp_ssj_files as mod
    mag = Magnetic(h)
    mag.sign, mag.wide = signs, wide
    h.aacgm.get_aacgm_coord_arr = mag
    names = list(NEED)
    if extra:
        names = ['orbit'] + names[:5] + ['SC_AACGM_MLT PO1'] + names[5:]
    names = names[order:] + names[:order]
    passes = []
    kw = {}
    if alt is not None:
        kw['ref_alt'] = alt
    if method is not None:
        kw['method'] = method
    with scratch() as d:
        files = []
        for f, hs in enumerate(hemis):
            day = dt.datetime(2010, 12, 30 + f)
            text = ''.join('# comment %d\n' % i for i in range(notes))
            text += ','.join(names) + '\n'
            for i, hemi in enumerate(hs):
                row = {}
                for n in names:
                    tag = '%s_%d%d' % (n.replace(' ', ''), f, i)
                    if n == 'hemisphere':
                        row[n] = hemi
                    elif n[:5] == 'UTSec':
                        row[n] = (h.real(tag, 0, 86399) if n[-3:] == free
                                  and i == (wide or 0) else 40000.25 + 10 * i)
                    elif n == 'FOM':
                        row[n] = h.real(tag, 0, 10)
                    elif n[:9] == 'SC_GEOCEN':
                        k = NEED.index(n)
                        row[n] = (h.real(tag, -90, 90) if 'LAT' in n else
                                  h.real(tag, -180, 180) if free else
                                  h.real(tag, 20 * k - 180, 20 * k - 161))
                    else:
                        row[n] = 1.5
                text += ','.join(put(h, row[n]) for n in names) + '\n'
                passes.append((16 + f, day, row))
            files.append(save(d, text, 'dmsp-f%d_ssj_precipitating-electrons-'
                              'ions_201012%d_v1.1.2_boundaries.csv' % (
                                  16 + f, 30 + f)))
        out = mod.format_ssj_boundary_files(files[0] if one else files, **kw)
        h.check(len(out) == 4 and all(os.path.isfile(p) for p in out),
                'four files')
        h.check(sorted(os.listdir(d)) == sorted(
            os.path.basename(p) for p in list(out) + files), 'files written')
        for hemi, nm in ((1, 'north'), (-1, 'south')):
            for b, ext in (('PO', '.ocb'), ('EQ', '.eab')):
                p = [x for x in out if nm in os.path.basename(x)
                     and x.endswith(ext)]
                h.check(len(p) == 1, 'file of the hemisphere and boundary')
                text = lines(p[0])
                h.check(text[0].split() == OUT and text[-1] == '', 'header')
                want = [x for x in passes if x[2]['hemisphere'] == hemi]
                h.check(len(text) == len(want) + 2, 'one line per pass')
                for ln, (sc, day, row) in zip(text[1:-1], want):
                    compare(h, mag, ln, sc, day, row, b,
                            830.0 if alt is None else alt,
                            method or 'GEOCENTRIC|ALLOWTRACE')


def parsed(h, text):
    if h.sym:
        from symx import times
        return times.strptime(text, '%Y-%m-%d %H:%M:%S')
    return dt.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')


def compare(h, mag, ln, sc, day, row, b, alt, method):
    w = ln.split()
    h.check(len(w) == len(OUT), 'columns')
    h.check(w[0] == str(sc), 'spacecraft')
    mid = (row['UTSec %s1' % b] + row['UTSec %s2' % b]) / 2
    t = parsed(h, w[1] + ' ' + w[2])
    # printed in whole seconds
    ago = (instant(h, mid, day) - t).total_seconds()
    h.check((ago >= -1e-6) & (ago <= 1 + 1e-6), 'mid-time of the crossings')
    xy = []
    for i in (1, 2):
        la, _, lt = mag.one(row['SC_GEOCENTRIC_LAT %s%d' % (b, i)],
                            row['SC_GEOCENTRIC_LON %s%d' % (b, i)], alt,
                            instant(h, mid, day), method)
        a = lt * h.pi / 12
        # dawn is positive x, noon positive y
        xy.append(((90 - abs(la)) * h.sin(a), -(90 - abs(la)) * h.cos(a)))
    (x1, y1), (x2, y2) = xy
    for s, v, k in ((w[4], (x1 + x2) / 2, 'x'), (w[5], (y1 + y2) / 2, 'y'),
                    (w[6], row['FOM'], 'fom'), (w[7], x1, 'x_1'),
                    (w[8], y1, 'y_1'), (w[9], x2, 'x_2'), (w[10], y2, 'y_2')):
        printed(h, s, v, 3, k)
    r = number(h, w[3])
    h.check(r >= 0, 'radius')
    dd = (x1 - x2) * (x1 - x2) + (y1 - y2) * (y1 - y2)
    if h.sym:
        h.eq(4 * r * r, dd, 'both crossings on the circle')
    else:
        h.check(abs(2 * r - dd ** 0.5) <= 2e-3, 'both crossings on the circle')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for hemi in (1, -1):
        for free in ('PO1', 'EQ2'):
            add(form, hemis=((hemi,),), signs=(hemi,), free=free)
        add(form, hemis=((hemi,),), signs=(hemi,), order=5, extra=True,
            one=True, free='PO2')
        add(form, hemis=((hemi,),), signs=(1, -1), alt=110.0,
            method='TRACE', free='EQ1')
        # several passes and files
        for w in (0, 1):
            add(form, hemis=((1, hemi),), signs=(hemi,), wide=w, notes=w)
            add(form, hemis=((hemi,), (-1,)), signs=(hemi,), wide=w,
                free='EQ1')
    for order in range(1, 14, 3):
        add(form, hemis=((1,),), signs=(1, -1), order=order, wide=5,
            free=None,
            extra=order % 2 == 1)
    for w in (0, 1, 2):
        for hemis in (((1, -1, 1),), ((-1,), (1, -1)), ((1, -1), (-1,))):
            if tier == 'thorough' or w == len(hemis):
                add(form, hemis=hemis, signs=(1, -1), wide=w,
                    free=('PO1', 'EQ2', 'PO2')[w], order=w)
    if tier == 'thorough':
        for hemi in (1, -1):
            for free in ('PO1', 'EQ2'):
                add(form, hemis=((1, hemi),), signs=(hemi,), free=free)
    return out
