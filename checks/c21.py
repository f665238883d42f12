"""C21: loading of boundary files."""
import datetime as dt
import math

from checks.c28 import put, save
from checks.common import instant
from checks.writer import scratch
from symx.harness import flat

BOUNDS = ('1-4 records of free values with free times (image: seconds of '
          'year) or a free window (ampere, dmsp-ssj), open, half-open or '
          'closed; both boundary classes and hemispheres; default and given '
          'file layouts; default, single and per-record correction '
          'functions and keywords.')
OUTSIDE = ('The text of dates is concrete where it is a date and a time of '
           'day; the shape of the default corrections (C30).')
ASSUMPTIONS = ('numpy.genfromtxt splits lines into columns as documented.',)
IMAGE = 'num_sectors phi_cent r_cent r a r_err fom'.split()


def wave(mlt, r_add=0.0):
    return mlt * 0 + r_add


def other(mlt, r_add=0.0):
    return mlt * 0 - r_add


def window(h, kind, base, name='w'):
    """Requested start and end, with their seconds after base."""
    s = e = None
    if 's' in kind:
        s = h.integer('start', -1000, 90000)
    if 'e' in kind:
        e = h.integer('end', -1000, 90000)
    return (s, e, None if s is None else instant(h, s, base),
            None if e is None else instant(h, e, base))


def load(h, inst='image', cls='OCBoundary', hemi=1, n=2, kind='se',
         rf=None, rk=None, again=False):
    import ocbpy
    base = dt.datetime(2003, 5, 1)
    soy0 = (base - dt.datetime(2003, 1, 1)).days * 86400
    rows, text = [], ''
    if inst == 'dmsp-ssj':
        text = '#sc date time r x y fom x_1 y_1 x_2 y_2\n'
    for i in range(n):
        row = {}
        if inst == 'image':
            sec = h.integer('sec%d' % i, 0, 86399)
            row['num_sectors'] = h.integer('num%d' % i, 0, 24)
            words = ['2003', put(h, sec + soy0)]
            for k in IMAGE[1:]:
                row[k] = h.real('%s%d' % (k, i), 0, 360)
            words += [put(h, row[k]) for k in IMAGE]
            cols = IMAGE
        else:
            sec = 3600 * i + 120 * (i + 1) + (7 if inst != 'ampere' else 0) * i
            if inst != 'ampere':
                sec += 11
            t = base + dt.timedelta(seconds=sec)
            cols = ['r', 'x', 'y', 'fom']
            if inst == 'dmsp-ssj':
                cols = ['sc'] + cols + ['x_1', 'y_1', 'x_2', 'y_2']
            for k in cols:
                row[k] = (h.real('%s%d' % (k, i), -40, 40)
                          if k != 'sc' else 16.0 + i)
            if i == 0:
                h.assume(row['x'] * row['x'] + row['y'] * row['y'] > 0.01)
            fmt = '%Y%m%d %H:%M' if inst == 'ampere' else '%Y-%m-%d %H:%M:%S'
            words = [put(h, row[k]) for k in cols]
            at = 1 if inst == 'dmsp-ssj' else 0
            words.insert(at, t.strftime(fmt))
        text += ' '.join(words) + '\n'
        rows.append((sec, row))
    s, e, ts, te = window(h, kind, base)
    want = [(sec, row) for sec, row in rows
            if (s is None or h.decide(sec >= s))
            and (e is None or h.decide(sec <= e))]
    args = dict(instrument=inst, hemisphere=hemi, stime=ts, etime=te)
    fn, kk = None, None
    if rf == 'one':
        fn = wave
    elif rf == 'each':
        fn = h.np_().array([wave, other, wave, other][:len(want)],
                           dtype=object)
    if rk == 'one':
        kk = {'r_add': 2.5}
    elif rk == 'each':
        kk = h.np_().array([{'r_add': 1.0 + i} for i in range(len(want))],
                           dtype=object)
    if rf:
        args['rfunc'] = fn
    if rk:
        args['rfunc_kwargs'] = kk
    with scratch() as d:
        b = getattr(ocbpy, cls)(filename=save(d, text), **args)
        if again:
            b.rfunc = b.rfunc_kwargs = None
            hl, oc, df = b.inst_defaults()
            b.load(hlines=hl, ocb_cols=oc, datetime_fmt=df, stime=ts,
                   etime=te)
    h.check(b.records == len(want), 'number of records')
    h.check(b.rec_ind == -1, 'no current record')
    m = len(want)
    names = list(cols) + ['phi_cent', 'r_cent']
    for k in ['dtime', 'rfunc', 'rfunc_kwargs'] + names:
        h.check(len(getattr(b, k)) == m, 'one entry per record: ' + k)
    for i, (sec, row) in enumerate(want):
        got = (b.dtime[i] - base).total_seconds()
        h.eq(got, sec, 'time')
        for k in cols:
            h.eq(flat(getattr(b, k))[i], row[k], 'column ' + k)
        if inst != 'image':
            phi, r = flat(b.phi_cent)[i], flat(b.r_cent)[i]
            x, y = row['x'], row['y']
            h.check((r >= 0) & (phi >= -1e-9) & (phi <= 360 + 1e-9),
                    'polar range')
            h.eq(r * r, x * x + y * y, 'distance of the centre from the pole')
            # midnight is 0, dawn 90
            h.eq(r * h.sin(phi * h.pi / 180), x, 'dawn component')
            h.eq(r * h.cos(phi * h.pi / 180), -y, 'noon component')
        f, k = b.rfunc[i], b.rfunc_kwargs[i]
        h.check(callable(f) and isinstance(k, dict), 'correction')
        if rf:
            h.check(f is (wave if rf == 'one' or i % 2 == 0 else other),
                    'correction function of the record')
        if rk:
            h.check(k == {'r_add': 2.5 if rk == 'one' else 1.0 + i},
                    'keywords of the record')


def given(h, cols='year soy r extra', order=(2, 0, 3, 1), n=2, hlines=0):
    """Layout given by the caller."""
    import ocbpy
    base = dt.datetime(2003, 1, 1)
    names = cols.split()
    names = [names[i] for i in order]
    rows = []
    text = 'header\n' * hlines
    for i in range(n):
        row = dict(year=2003, soy=h.integer('soy%d' % i, 0, 86400 * 300),
                   r=h.real('r%d' % i, 0, 40),
                   extra=h.real('x%d' % i, -9, 9))
        text += '  '.join(put(h, row[k]) for k in names) + '\n'
        rows.append(row)
    b = ocbpy.OCBoundary(filename=None, instrument='image')
    with scratch() as d:
        b.filename = save(d, text)
        b.load(hlines=hlines, ocb_cols=' '.join(names))
    h.check(b.records == n, 'number of records')
    for i, row in enumerate(rows):
        h.eq((b.dtime[i] - base).total_seconds(), row['soy'], 'time')
        for k in ('r', 'extra'):
            h.eq(flat(getattr(b, k))[i], row[k], 'column ' + k)


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for inst in ('image', 'ampere', 'dmsp-ssj'):
        for cls in ('OCBoundary', 'EABoundary'):
            if inst == 'ampere' and cls == 'EABoundary':
                continue
            for n in (1, 2, 3):
                for kind in ('', 's', 'e', 'se'):
                    if inst != 'image' and n > 2 and kind != 's':
                        continue
                    add(load, inst=inst, cls=cls, n=n, kind=kind)
            add(load, inst=inst, cls=cls, hemi=-1)
            if cls == 'OCBoundary':
                add(load, inst=inst, cls=cls, again=True)
            for rf in ('one', 'each'):
                for rk in ('one', 'each', None):
                    add(load, inst=inst, cls=cls, n=3, rf=rf, rk=rk,
                        kind='e' if inst == 'image' else '')
            add(load, inst=inst, cls=cls, n=1, kind='', rf='each', rk='each')
    for order in ((0, 1, 2, 3), (2, 0, 3, 1), (3, 1, 0, 2)):
        for n in (1, 2):
            for hl in (0, 2):
                add(given, order=order, n=n, hlines=hl)
    if tier == 'thorough':
        for inst in ('image', 'ampere', 'dmsp-ssj'):
            add(load, inst=inst, n=3)
            add(load, inst=inst, n=4 if inst == 'image' else 3, kind='e')
            add(load, inst=inst, n=4, rf='each', rk='each')
    return out
