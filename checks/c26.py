"""C26: vorticity output."""
import os
import datetime as dt

from checks.writer import (START, blank, bounds, expect, lines, printed,
                           scratch, swapped, user)

BOUNDS = ('1-3 observations with free vorticity, latitude and local time in '
          'either hemisphere, 1-2 boundary records with free times around '
          'them and free radii, typical latitude and normalised locations, '
          'every quality pattern; OCB, EAB and dual boundaries; the default '
          'scaling, none, and a user function; all columns or the default '
          'ones; a boundary passed in or loaded for the data period.')
OUTSIDE = ('Reading the vorticity file (C28), the normalised location itself '
           '(C01, C20), more records.')
ASSUMPTIONS = ('load_vorticity_ascii_data is replaced by a loader that '
               'returns symbolic values (decided by C28).',
               'normal_coord of the boundary is replaced by an uninterpreted '
               'function of record and position (decided by C01, C20).')


def table(h, offs, hemis, extra):
    n = len(offs)
    d = {'YEAR': [START.year] * n, 'VORTICITY': [], 'MLT': [],
         'CENTRE_MLAT': [],
         'DATETIME': [START + dt.timedelta(seconds=x) for x in offs]}
    for i in range(n):
        d['VORTICITY'].append(h.real('v%d' % i, -1000, 1000))
        d['MLT'].append(h.real('mlt%d' % i, 0, 24))
        d['CENTRE_MLAT'].append(h.real('mlat%d' % i, 50, 89) * hemis[i])
    if extra:
        d['AREA'] = [h.real('area%d' % i, 0, 100) for i in range(n)]
    rows = [{k: d[k][i] for k in d} for i in range(n)]
    np = h.np_()
    out = {k: np.array(v) if k in ('YEAR', 'DATETIME') else h.arr(v)
           for k, v in d.items()}
    return out, rows


def write(h, cls='OCBoundary', hemi=1, offs=(0,), hemis=None, nb=1,
          good=(1, 1), tol=120, start=-1, scale='default', extra=False,
          ask=0, own=True, kw='', same=False):
    import ocbpy
    from ocbpy import ocb_scaling
    from ocbpy.instruments import vort
    hemis = hemis or [hemi] * len(offs)
    b, bt, rad, blat = bounds(h, cls, hemi, nb, good, start, offs,
                               same=same)
    data, rows = table(h, offs, hemis, extra)
    use = [i for i in range(len(offs)) if hemis[i] == hemi]
    match = expect(h, [offs[i] for i in use], bt, good, tol, start)
    args = dict(max_sdiff=tol, save_all=extra)
    if kw == 'merit':
        b.max_fom = 10.0
        args['max_merit'] = 4.0
    elif kw == 'attr':
        b.max_fom = 10.0
        args['fom'] = ('maxeq', 3.0)
    if scale != 'default':
        args['scale_func'] = user if scale == 'user' else None
    if ask:
        args['hemisphere'] = hemi
    loads = []

    class Loader(object):
        def __new__(cls_, *a, **k):
            loads.append((a, k))
            return b
    with scratch() as d:
        out = os.path.join(d, 'out')
        with swapped(vort, load_vorticity_ascii_data=lambda *a, **k: data):
            if own:
                vort.vort2ascii_ocb(blank(d), out, ocb=b, **args)
            else:
                with swapped(ocbpy, OCBoundary=Loader):
                    if len(set(hemis)) > 1 and not ask:
                        h.raises(ValueError, lambda: vort.vort2ascii_ocb(
                            blank(d), out, ocbfile='f', instrument='image',
                            **args), 'both hemispheres')
                        return
                    vort.vort2ascii_ocb(blank(d), out, ocbfile='f',
                                        instrument='image', **args)
                a, k = loads[0]
                h.check(len(loads) == 1 and a == ('f',)
                        and k['instrument'] == 'image'
                        and k['hemisphere'] == hemi,
                        'boundaries of the hemisphere are loaded')
                first, last = min(offs), max(offs)
                h.check(k['stime'] <= START + dt.timedelta(
                    seconds=first - tol), 'loaded from early enough')
                h.check(k['etime'] >= START + dt.timedelta(
                    seconds=last + tol), 'loaded until late enough')
        if not use:
            h.check(not os.path.exists(out) or len(lines(out)) <= 2,
                    'nothing of the other hemisphere')
            return
        text = lines(out)
    head = text[0].split()
    cols = ['#DATE', 'TIME'] + ([k for k in data if k != 'DATETIME'] if extra
                                else []) + ['OCB_LAT', 'OCB_MLT', 'NORM_VORT']
    h.check(head == cols, 'header')
    h.check(text[-1] == '', 'complete lines')
    body = [x.split() for x in text[1:-1]]
    want = [(i, m) for i, m in zip(use, match) if m is not None]
    h.check(len(body) == len(want), 'one line for every matched observation')
    from checks.writer import number
    for row, (i, m) in zip(body, want):
        h.check(len(row) == len(cols), 'columns')
        h.check(' '.join(row[:2]) == str(rows[i]['DATETIME']), 'time')
        r = dict(zip(cols, row))
        if extra:
            for k in ('VORTICITY', 'MLT', 'CENTRE_MLAT', 'AREA'):
                printed(h, r[k], rows[i][k], 0, 'column ' + k)
            h.check(r['YEAR'] == str(START.year), 'column YEAR')
        la, lt, co = b.normal_coord.one(m, rows[i]['CENTRE_MLAT'],
                                        rows[i]['MLT'])
        printed(h, r['OCB_LAT'], la, 2, 'normalised latitude')
        printed(h, r['OCB_MLT'], lt, 2, 'normalised local time')
        u, s = rad[m] + co, 90 - blat
        v = rows[i]['VORTICITY']
        w = {'default': v * u * u / (s * s), 'none': v,
             'user': user(v, u, s)}[scale]
        printed(h, r['NORM_VORT'], w, 4, 'scaled vorticity')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    add(write, cls='DualBoundary')
    for cls in ('OCBoundary', 'EABoundary', 'DualBoundary'):
        eq = dict(same=True) if cls == 'DualBoundary' else {}
        for hemi in (1, -1):
            add(write, cls=cls, hemi=hemi, **eq)
        add(write, cls=cls, nb=2, **eq)
        add(write, cls=cls, nb=2, offs=(0, 0), scale='none')
        add(write, cls=cls, nb=2, offs=(0, 200), scale='none')
        add(write, cls=cls, nb=2, offs=(0, 90), start=0, scale='none')
        add(write, cls=cls, scale='user', **eq)
        add(write, cls=cls, extra=True, **eq)
        add(write, cls=cls, offs=(0, 60, 900), scale='none')
        add(write, cls=cls, offs=(0, 0), hemis=(-1, 1), ask=1, **eq)
        add(write, cls=cls, offs=(0, 60), hemis=(-1, 1), ask=1, extra=True,
            **eq)
        add(write, cls=cls, offs=(0, 60), hemis=(-1, -1))
    for hemi in (1, -1):
        add(write, hemi=hemi, own=False)
        add(write, hemi=hemi, own=False, offs=(0, 40), hemis=(1, -1))
        add(write, hemi=hemi, own=False, offs=(0, 40), hemis=(1, -1), ask=1)
    for good in ((0, 1), (1, 0), (0, 0)):
        add(write, nb=2, good=good, offs=(0, 100), scale='none')
        add(write, nb=2, good=good, kw='merit', scale='none')
        add(write, nb=2, good=good, kw='attr', scale='none')
    add(write, tol=0, offs=(0, 10), scale='none')
    add(write, tol=600, nb=2, offs=(0, 1000), extra=True, scale='none')
    if tier == 'thorough':
        add(write, nb=3, good=(1, 1, 1), offs=(0, 150), scale='none')
        add(write, nb=2, offs=(0, 150, 150), scale='none')
        add(write, cls='DualBoundary', nb=3, good=(1, 1, 1), offs=(0, 150),
            scale='none')
    return out
