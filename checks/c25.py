"""C25: SuperMAG output."""
import os
import datetime as dt

from checks.c17 import free_angle
from checks.writer import (START, blank, bounds, expect, lines, printed,
                           scratch, swapped, user)
from symx.harness import flat

BOUNDS = ('1-4 station values at 1-3 times with free field, latitude and '
          'local time in either hemisphere, NaN in any of the five used '
          'values, 1-2 boundary records with free times around them and free '
          'radii, typical latitude and normalised locations, every quality '
          'pattern; OCB, EAB and dual boundaries; the default scaling, none '
          'and a user function; a boundary passed in or loaded for the data '
          'period.')
OUTSIDE = ('Reading the SuperMAG file (C28), the normalised location (C01, '
           'C20) and the rotation of vectors (C14-C17), more records.')
ASSUMPTIONS = ('load_supermag_ascii_data is replaced by a loader that '
               'returns symbolic values (decided by C28).',
               'normal_coord and calc_vec_pole_angle are replaced by '
               'uninterpreted functions (decided by C01, C20, C15).')
FIELDS = ('BN', 'BE', 'BZ', 'MLAT', 'MLT')


def table(h, offs, hemis, nan):
    n = len(offs)
    d = {'DATETIME': [START + dt.timedelta(seconds=x) for x in offs],
         'NST': [offs.count(x) for x in offs],
         'SML': [-100 - 10 * i for i in range(n)],
         'SMU': [40 + i for i in range(n)],
         'STID': ['AB%d' % i for i in range(n)],
         'SZA': [h.real('sza%d' % i, 0, 180) for i in range(n)]}
    for k in FIELDS:
        d[k] = []
    for i in range(n):
        m = h.real('m%d' % i, 0.01, 50)
        d['BN'].append(m * 3)
        d['BE'].append(m * (-4 if i % 2 else 4))
        d['BZ'].append(h.real('bz%d' % i, -50, 50))
        d['MLAT'].append(h.real('mlat%d' % i, 50, 89) * hemis[i])
        d['MLT'].append(h.real('mlt%d' % i, 13, 23))
    for i, k in nan:
        d[k][i] = h.nan()
    rows = [{k: d[k][i] for k in d} for i in range(n)]
    np = h.np_()
    out = {k: h.arr(v) if k in FIELDS or k == 'SZA' else np.array(v)
           for k, v in d.items()}
    return out, rows


def write(h, cls='OCBoundary', hemi=1, offs=(0,), hemis=None, nb=1,
          good=(1, 1), tol=120, start=-1, scale='default', nan=(), ask=0,
          own=True, kw=''):
    import ocbpy
    from ocbpy import ocb_scaling
    from ocbpy.instruments import supermag
    hemis = hemis or [hemi] * len(offs)
    b, bt, rad, blat = bounds(h, cls, hemi, nb, good, start, offs,
                              simple=True)
    data, rows = table(h, list(offs), hemis, nan)
    gone = {i for i, k in nan}
    use = [i for i in range(len(offs)) if hemis[i] == hemi and i not in gone]
    match = expect(h, [offs[i] for i in use], bt, good, tol, start)
    # every station of one time uses the same record
    args = dict(max_sdiff=tol)
    if kw == 'merit':
        b.max_fom = 10.0
        args['max_merit'] = 4.0
    elif kw == 'attr':
        b.max_fom = 10.0
        args['fom'] = ('maxeq', 3.0)
    f = {'default': ocb_scaling.normal_curl_evar, 'none': None,
         'user': user}[scale]
    if scale != 'default':
        args['scale_func'] = f
    if ask:
        args['hemisphere'] = hemi
    loads = []

    class Loader(object):
        def __new__(cls_, *a, **k):
            loads.append((a, k))
            return b
    with scratch() as d, free_angle(h, True):
        out = os.path.join(d, 'out')
        with swapped(supermag, load_supermag_ascii_data=lambda *a, **k: (
                ['header'], data)):
            if own:
                supermag.supermag2ascii_ocb(blank(d), out, ocb=b, **args)
            else:
                with swapped(ocbpy, OCBoundary=Loader):
                    if len(set(hemis)) > 1 and not ask:
                        h.raises(
                            ValueError, lambda: supermag.supermag2ascii_ocb(
                                blank(d), out, ocbfile='f',
                                instrument='image', **args),
                            'both hemispheres')
                        return
                    supermag.supermag2ascii_ocb(blank(d), out, ocbfile='f',
                                                instrument='image', **args)
                a, k = loads[0]
                h.check(len(loads) == 1 and a == ('f',)
                        and k['instrument'] == 'image'
                        and k['hemisphere'] == hemi,
                        'boundaries of the hemisphere are loaded')
                h.check(k['stime'] <= START + dt.timedelta(
                    seconds=min(offs) - tol), 'loaded from early enough')
                h.check(k['etime'] >= START + dt.timedelta(
                    seconds=max(offs) + tol), 'loaded until late enough')
        text = lines(out)
        cols = ('#DATE TIME NST STID SML SMU SZA MLAT MLT BMAG BN BE BZ '
                'OCB_MLAT OCB_MLT OCB_BMAG OCB_BN OCB_BE OCB_BZ').split()
        h.check(text[0].split() == cols, 'header')
        h.check(text[-1] == '', 'complete lines')
        body = [x.split() for x in text[1:-1]]
        want = [(i, m) for i, m in zip(use, match) if m is not None]
        h.check(len(body) == len(want), 'one line for every matched value')
        for row, (i, m) in zip(body, want):
            w = rows[i]
            h.check(len(row) == len(cols), 'columns')
            h.check(' '.join(row[:2]) == str(w['DATETIME']), 'time')
            r = dict(zip(cols, row))
            h.check(r['NST'] == str(sum(offs[j] == offs[i] for j in use)),
                    'number of stations')
            for k in ('STID', 'SML', 'SMU'):
                h.check(r[k] == str(w[k]), 'column ' + k)
            for k in ('SZA',) + FIELDS:
                printed(h, r[k], w[k], 2, 'column ' + k)
            v = ocb_scaling.VectorData(
                0, m, w['MLAT'], w['MLT'], vect_n=w['BN'], vect_e=w['BE'],
                vect_z=w['BZ'], scale_func=f)
            v.set_ocb(b)
            for k, x in (('BMAG', v.vect_mag), ('OCB_MLAT', v.ocb_lat),
                         ('OCB_MLT', v.ocb_mlt), ('OCB_BMAG', v.ocb_mag),
                         ('OCB_BN', v.ocb_n), ('OCB_BE', v.ocb_e),
                         ('OCB_BZ', v.ocb_z)):
                printed(h, r[k], flat(x)[0], 2, 'column ' + k)


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        for hemi in (1, -1):
            add(write, cls=cls, hemi=hemi)
        add(write, cls=cls, nb=2, offs=(0, 0), scale='none')
        add(write, cls=cls, nb=2, offs=(0, 200), scale='none')
        add(write, cls=cls, nb=2, offs=(0, 90), start=0)
        add(write, cls=cls, scale='user')
        add(write, cls=cls, offs=(0, 60, 900), scale='none')
        add(write, cls=cls, offs=(0, 0), hemis=(-1, 1), ask=1)
        add(write, cls=cls, offs=(0, 60), hemis=(-1, -1))
        add(write, cls=cls, offs=(0, 0, 500), nan=((0, 'BE'),))
    for hemi in (1, -1):
        add(write, hemi=hemi, own=False)
        add(write, hemi=hemi, own=False, offs=(0, 40), hemis=(1, -1))
        add(write, hemi=hemi, own=False, offs=(0, 40), hemis=(1, -1), ask=1)
    for good in ((0, 1), (1, 0), (0, 0)):
        add(write, nb=2, good=good, offs=(0, 100), scale='none')
        add(write, nb=2, good=good, kw='merit', scale='none')
        add(write, nb=2, good=good, kw='attr', scale='none')
    for k in FIELDS:
        add(write, offs=(0, 0), nan=((1, k),))
        add(write, offs=(0, 100), nan=((0, k),), scale='none')
        add(write, nan=((0, k),))
    add(write, tol=0, offs=(0, 10), scale='none')
    add(write, tol=600, nb=2, offs=(0, 0, 900, 900), scale='none')
    if tier == 'thorough':
        add(write, nb=3, good=(1, 1, 1), offs=(0, 150), scale='none')
        add(write, nb=2, offs=(0, 0, 150, 150), nan=((1, 'BZ'),))
        add(write, cls='DualBoundary', nb=3, good=(1, 1, 1), offs=(0, 150),
            scale='none')
    return out
