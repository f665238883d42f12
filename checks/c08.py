"""C08: record cycling visits exactly the records meeting the criteria."""
import itertools

from checks.common import boundary, fill, other_record
from symx.harness import flat

BOUNDS = ('1-4 records with free figures of merit (one may be NaN) and free '
          'extra attributes (one may be NaN); start index -1..records+1; criteria: default '
          'limits, free minimum, maximum or both, and 0-2 of the five extra '
          'kinds with free thresholds; unknown attributes.')
OPS = {'min': lambda x, c: x > c, 'mineq': lambda x, c: x >= c,
       'max': lambda x, c: x < c, 'maxeq': lambda x, c: x <= c,
       'equal': lambda x, c: x == c}


def make(h, nrec, nan, dmin, dmax, crit, lims, cls, unknown, hemi, nanatt):
    recs = []
    for i in range(nrec):
        r = dict(other_record(i))
        r['fom'] = h.nan() if i == nan else h.real('fom%d' % i, -10, 10)
        for j in range(2):
            r['att%d' % j] = h.nan() if (i, j) == nanatt else h.real(
                'att%d_%d' % (j, i), -10, 10)
        recs.append(r)
    o = boundary(h, cls, hemi, hemi * 74.0, recs, -1)
    o.min_fom = -1e9 if dmin is None else h.real('dmin', -10, 10)
    o.max_fom = 1e9 if dmax is None else h.real('dmax', -10, 10)
    lo, hi = o.min_fom, o.max_fom
    kw = {}
    if 'l' in lims:
        kw['min_merit'] = lo = h.real('lo', -10, 10)
    if 'h' in lims:
        kw['max_merit'] = hi = h.real('hi', -10, 10)
    thr = []
    for j, op in enumerate(crit):
        t = h.real('thr%d' % j, -10, 10)
        kw['att%d' % j] = (op, t)
        thr.append((op, t))
    if unknown:
        kw['no_such_attribute'] = ('min', 1e9)
    good = []
    for i in range(nrec):
        f = recs[i]['fom']
        g = not h.is_nan(f)
        if g:
            g = h.decide(f >= lo) and h.decide(f <= hi)
        for j, (op, t) in enumerate(thr):
            g = g and (i, j) != nanatt and h.decide(
                OPS[op](recs[i]['att%d' % j], t))
        good.append(g)
    return o, kw, good


def step(h, nrec=2, start=-1, nan=None, dmin=None, dmax=None, crit=(),
         lims='', cls='OCBoundary', unknown=False, hemi=1, nanatt=None):
    o, kw, good = make(h, nrec, nan, dmin, dmax, crit, lims, cls, unknown,
                       hemi, nanatt)
    o.rec_ind = start
    o.get_next_good_ocb_ind(**kw)
    want = [i for i in range(nrec) if i > start and good[i]]
    if want:
        h.check(o.rec_ind == want[0], 'first later good record')
    else:
        h.check(o.rec_ind >= nrec, 'past the end without a good record')
    h.check(o.records == nrec, 'record count unchanged')


def listing(h, nrec=2, start=-1, nan=None, dmin=None, dmax=None, crit=(),
            lims='', cls='OCBoundary', unknown=False, hemi=1, nanatt=None):
    import ocbpy
    o, kw, good = make(h, nrec, nan, dmin, dmax, crit, lims, cls, unknown,
                       hemi, nanatt)
    o.rec_ind = start
    got = ocbpy.cycle_boundary.retrieve_all_good_indices(o, **kw)
    h.check(list(got) == [i for i in range(nrec) if good[i]],
            'exactly the good records in order')
    h.check(o.rec_ind == start, 'record index unchanged')


def defaults(h, inst='image', nrec=2):
    """limits that each instrument sets when its file format is chosen"""
    import ocbpy
    recs = [dict(other_record(i), fom=h.real('fom%d' % i, -10, 10))
            for i in range(nrec)]
    o = ocbpy.OCBoundary(filename=None, instrument=inst, hemisphere=1)
    fill(h, o, recs, -1)
    o.inst_defaults()
    lo, hi = {'image': (None, 5), 'ampere': (h.frac(15, 100), None),
              'dmsp-ssj': (3, None)}[inst]
    want = [i for i in range(nrec)
            if (lo is None or h.decide(recs[i]['fom'] >= lo))
            and (hi is None or h.decide(recs[i]['fom'] <= hi))]
    got = ocbpy.cycle_boundary.retrieve_all_good_indices(o)
    h.check(list(got) == want, 'default limits of ' + inst)


def tasks(tier):
    out = []

    def add(**k):
        for b in (step, listing):
            kk = dict(k)
            if b is listing and k.get('start', -1) not in (0, 1):
                kk['start'] = 0
            nm = b.__name__ + ' ' + ' '.join(
                '%s=%s' % (x, kk[x]) for x in sorted(kk))
            if nm not in [t[3] for t in out]:
                out.append((b, kk, {}, nm))
    big = 4 if tier == 'thorough' else 3
    for n in (1, 2, big):
        for s in range(-1, n + 2):
            add(nrec=n, start=s, dmin=1, dmax=1)
    for lims in ('l', 'h', 'lh'):
        for dm in (None, 1):
            add(nrec=2, start=-1, lims=lims, dmin=dm, dmax=dm)
            add(nrec=3, start=0, lims=lims, dmin=dm, dmax=dm)
    for op in OPS:
        for n, s in ((1, -1), (2, 0), (2, -1), (3, 0)):
            add(nrec=n, start=s, crit=(op,), dmin=1)
        add(nrec=2, start=-1, crit=(op,), dmin=1, nanatt=(0, 0))
    for a, b in itertools.product(OPS, OPS):
        add(nrec=2, start=-1, crit=(a, b), lims='l')
    for nan in (0, 1):
        add(nrec=2, start=-1, nan=nan, dmin=1, dmax=1, unknown=True)
        add(nrec=2, start=-1, nan=nan, lims='lh', crit=('min',), unknown=True)
    for cls in ('OCBoundary', 'EABoundary'):
        for hemi in (1, -1):
            add(nrec=2, start=-1, cls=cls, hemi=hemi, dmin=1, dmax=1,
                crit=('max',), unknown=True)
    for inst in ('image', 'ampere', 'dmsp-ssj'):
        out.append((defaults, dict(inst=inst, nrec=2), {}, 'defaults ' + inst))
    if tier == 'thorough':
        for a, b in itertools.product(OPS, OPS):
            add(nrec=3, start=-1, crit=(a, b), lims='lh')
    return out
