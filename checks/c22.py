"""C22: default boundary files honour hemisphere, instrument and time."""
import contextlib
import datetime as dt
import os

from checks.common import instant

BOUNDS = ('Every subset (solver chosen) of menus of 5-7 files of known and '
          'other instruments, both hemispheres and boundaries, with '
          'unreadable names and other files among them, in three directory '
          'orders; free start and end times between 1990 and 2024 or none; '
          'every instrument name.')
OUTSIDE = ('Other file names; the content of the files; query times after '
           'the present day (the end of DMSP data is tomorrow).')
BASE = dt.datetime(2000, 1, 1)
D = dt.datetime
RANGE = {'amp': (D(2010, 1, 1), D(2022, 1, 1)),
         'si12': (D(2000, 5, 4), D(2002, 11, 1)),
         'si13': (D(2000, 5, 3), D(2002, 11, 1)),
         'wic': (D(2000, 5, 4), D(2002, 11, 1)),
         'image': (D(2000, 5, 3), D(2002, 11, 1)),
         'dmsp-ssj': (D(2010, 1, 1), D(2100, 1, 1))}
ORDER = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
GROUPS = {'ampere': ['amp'], 'image': ['image', 'si12', 'si13', 'wic'],
          'dmsp-ssj': ['dmsp-ssj']}
LONG = {'amp': 'ampere', 'si12': 'image', 'si13': 'image', 'wic': 'image'}
FOO = (D(2003, 1, 1), D(2003, 12, 31))
BAR = (D(2001, 6, 1), D(2011, 2, 1))
# name: instrument, hemisphere, bound, range
MENU = {
    'image_north_circle.ocb': ('image', 1, 'ocb', RANGE['image']),
    'amp_north_radii.ocb': ('amp', 1, 'ocb', RANGE['amp']),
    'si13_north_circle.ocb': ('si13', 1, 'ocb', RANGE['si13']),
    'si12_north_circle.ocb': ('si12', 1, 'ocb', RANGE['si12']),
    'wic_north_circle.ocb': ('wic', 1, 'ocb', RANGE['wic']),
    'dmsp-ssj_north_20100101_20141231_v1.1.4.ocb': (
        'dmsp-ssj', 1, 'ocb', RANGE['dmsp-ssj']),
    'dmsp-ssj_north_20150101_20161231_v1.1.4.ocb': (
        'dmsp-ssj', 1, 'ocb', RANGE['dmsp-ssj']),
    'amp_south_radii.ocb': ('amp', -1, 'ocb', RANGE['amp']),
    'dmsp-ssj_south_20100101_20141231_v1.1.4.ocb': (
        'dmsp-ssj', -1, 'ocb', RANGE['dmsp-ssj']),
    'image_north_circle.eab': ('image', 1, 'eab', RANGE['image']),
    'wic_north_circle.eab': ('wic', 1, 'eab', RANGE['wic']),
    'amp_north_radii.eab': ('amp', 1, 'eab', RANGE['amp']),
    'foo_north_20030101_20031231.ocb': ('foo', 1, 'ocb', FOO),
    'foo_north_20010601_20110201_x.ocb': ('foo', 1, 'ocb', BAR),
    'foo_south_20030101_20031231.ocb': ('foo', -1, 'ocb', FOO),
    'foo_north_20030101_20031231.eab': ('foo', 1, 'eab', FOO),
    'foo_north_good_times.ocb': ('foo', 1, 'ocb', None),
    'foo_north_20030101.ocb': ('foo', 1, 'ocb', None),
    'foo.ocb': None, 'foo_pole_20030101_20031231.ocb': None,
    'README.md': None, 'files.py': None,
    'amp_north_radii.ocb.bak': None}
MENUS = {
    'image': ['image_north_circle.ocb', 'si13_north_circle.ocb',
              'si12_north_circle.ocb', 'wic_north_circle.ocb',
              'image_north_circle.eab'],
    'all': ['wic_north_circle.ocb', 'si12_north_circle.ocb',
            'amp_north_radii.ocb', 'amp_south_radii.ocb',
            'dmsp-ssj_north_20100101_20141231_v1.1.4.ocb',
            'amp_north_radii.eab'],
    'dmsp': ['dmsp-ssj_north_20150101_20161231_v1.1.4.ocb',
             'dmsp-ssj_north_20100101_20141231_v1.1.4.ocb',
             'dmsp-ssj_south_20100101_20141231_v1.1.4.ocb',
             'amp_south_radii.ocb', 'README.md'],
    'foo': ['foo_north_20030101_20031231.ocb',
            'foo_north_20010601_20110201_x.ocb',
            'foo_south_20030101_20031231.ocb', 'image_north_circle.ocb',
            'foo_north_20030101_20031231.eab'],
    'odd': ['foo_north_good_times.ocb', 'foo_north_20030101.ocb', 'foo.ocb',
            'foo_pole_20030101_20031231.ocb', 'files.py',
            'amp_north_radii.ocb.bak', 'foo_north_20030101_20031231.ocb'],
    'eab': ['image_north_circle.eab', 'wic_north_circle.eab',
            'amp_north_radii.eab', 'image_north_circle.ocb',
            'amp_south_radii.ocb']}


class FakePath(object):
    def __init__(self, names):
        self.names = names

    def isfile(self, p):
        return os.path.basename(p) in self.names

    def exists(self, p):
        return self.isfile(p) or p == '/boundaries'

    def isdir(self, p):
        return p == '/boundaries'

    def __getattr__(self, k):
        return getattr(os.path, k)


class FakeOS(object):
    """A listing of one directory."""

    def __init__(self, names):
        self.names = names
        self.path = FakePath(names)

    def listdir(self, *a):
        return list(self.names)

    def __getattr__(self, k):
        return getattr(os, k)


@contextlib.contextmanager
def listing(names):
    from ocbpy.boundaries import files
    old = files.os, files.get_boundary_directory
    files.os = FakeOS(names)
    files.get_boundary_directory = lambda: '/boundaries'
    try:
        yield
    finally:
        files.os, files.get_boundary_directory = old


def default(h, menu='image', inst='', hemi=1, bound='ocb', times='both'):
    from ocbpy.boundaries import files
    names = [n for i, n in enumerate(MENUS[menu])
             if h.decide(h.flag('has%d' % i))]
    day = 86400
    t0 = h.real('start', -3650 * day, 8900 * day) if times != 'end' else None
    t1 = h.real('end', -3650 * day, 8900 * day) if times != 'start' else None
    if times == 'none':
        t0 = t1 = None
    if times == 'both':
        h.assume(t0 <= t1)
    accept = GROUPS.get(inst, [inst]) if inst else [
        x for g in GROUPS.values() for x in g]
    good = []
    for n in names:
        m = MENU[n]
        if m is None or m[0] not in accept or m[1] != hemi or m[2] != bound:
            continue
        if times == 'both':
            if m[3] is None:
                continue
            lo = (m[3][0] - BASE).total_seconds()
            hi = (m[3][1] - BASE).total_seconds()
            if not h.decide(t0 <= hi) or not h.decide(t1 >= lo):
                continue
        good.append(n)
    rank = {n: ORDER.index(MENU[n][0]) if MENU[n][0] in ORDER else 9
            for n in good}
    best = [n for n in good if rank[n] == min(rank.values())]
    outs = []
    for order in (names, names[::-1], names[1:] + names[:1]):
        with listing(order):
            outs.append(files.get_default_file(
                None if t0 is None else instant(h, t0, BASE),
                None if t1 is None else instant(h, t1, BASE), hemi,
                instrument=inst, bound=bound))
    f, i = outs[0]
    if not good:
        h.check(f is None, 'no file if none is suitable')
    else:
        h.check(f is not None, 'a suitable file is found')
        h.check(os.path.basename(f) in good, 'the file is suitable')
        h.check(os.path.basename(f) in best,
                'the preferred instrument is chosen')
        h.check(os.path.dirname(f) == '/boundaries', 'full path')
        k = MENU[os.path.basename(f)][0]
        h.check(i == LONG.get(k, k), 'instrument of the file')
    for o in outs[1:]:
        h.check(o == outs[0], 'independent of the directory order')


def known(h, menu='image', bound='ocb'):
    """The listing describes exactly the boundary files."""
    from ocbpy.boundaries import files
    names = [n for i, n in enumerate(MENUS[menu])
             if h.decide(h.flag('has%d' % i))]
    with listing(names):
        got = files.get_boundary_files(bound=bound)
    want = [n for n in names if MENU[n] is not None and MENU[n][2] == bound]
    h.check(sorted(got) == sorted(want), 'files of this boundary')
    for n in want:
        m = MENU[n]
        h.check(got[n]['instrument'] == m[0], 'instrument')
        h.check(got[n]['hemisphere'] == m[1], 'hemisphere')
        if m[3] is None:
            h.check('stime' not in got[n], 'unknown time range')
        else:
            h.check(got[n]['stime'] == m[3][0], 'start time')
            if m[0] != 'dmsp-ssj':
                h.check(got[n]['etime'] == m[3][1], 'end time')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for menu in MENUS:
        for bound in ('ocb', 'eab'):
            add(known, menu=menu, bound=bound)
    for menu, insts in (('image', ('', 'image', 'si12', 'wic')),
                        ('all', ('', 'ampere', 'amp', 'dmsp-ssj', 'foo')),
                        ('dmsp', ('', 'dmsp-ssj')),
                        ('foo', ('', 'foo', 'image')),
                        ('odd', ('', 'foo'))):
        for inst in insts:
            for hemi in (1, -1):
                for times in ('both', 'none'):
                    add(default, menu=menu, inst=inst, hemi=hemi,
                        times=times)
    for menu in ('eab', 'all', 'foo'):
        for inst in ('', 'foo'):
            add(default, menu=menu, inst=inst, bound='eab')
    for times in ('start', 'end'):
        add(default, menu='all', times=times)
    return out
