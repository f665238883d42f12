"""C09: matching data times to boundary times."""
import itertools

from checks.common import boundary, dual, instant, ladder, other_record

BOUNDS = ('1-3 boundary records (thorough 4) strictly ordered in time with '
          'free gaps, 1-3 data values (thorough 4) with free non-negative gaps '
          'and a free offset; every quality pattern; tolerance free (0-300 s) '
          'or 0; any start data index; start before the first record or at '
          'any good record; OCB, EAB and dual boundaries; single calls and '
          'complete matching loops.')
OUTSIDE = 'More records than stated; unordered times; non-integer tolerances.'


def setup(h, cls, nb, nd, good, tol, start, crit):
    bt = ladder(h, 'b', nb, strict=True,
                lo=4 if cls == 'DualBoundary' and crit else 0.0078125)
    dts = ladder(h, 'd', nd, first=(-400, 900))
    if tol is None:
        tol = h.integer('tol', 0, 300)
    recs = []
    for i in range(nb):
        r = dict(other_record(i), time=instant(h, bt[i]),
                 fom=2.0 if good[i] else 7.0, num_sectors=12)
        recs.append(r)
    if cls == 'DualBoundary':
        import ocbpy
        o = boundary(h, 'OCBoundary', 1, 74.0, recs, -1)
        e = boundary(h, 'EABoundary', 1, 64.0,
                     [dict(r, r=25.0) for r in recs], -1)
        if crit:
            d = ocbpy.DualBoundary(ocb=o, eab=e, max_delta=1)
        else:
            import numpy
            d, _ = dual(h, 1, extra=nb - 2 if nb > 2 else 0)
            d.dtime = h.np_().array([r['time'] for r in recs])
            d.records = nb
            d.ocb_ind, d.eab_ind = d.ocb_ind[:nb], d.eab_ind[:nb]
        o = d
    else:
        o = boundary(h, cls, 1, 74.0, recs, -1)
        o.max_fom = 5.0
    kw = dict(max_tol=tol)
    if crit == 'merit':
        kw['max_merit'] = 4.0
    elif crit == 'attr':
        kw['fom'] = ('maxeq', 3.0)
    o.rec_ind = start
    return o, bt, dts, tol, kw


def within(h, a, b, tol):
    return h.decide(abs(a - b) <= tol)


def one(h, cls='OCBoundary', nb=2, nd=2, good=(1, 1), tol=None, start=-1,
        idat=0, crit=''):
    import ocbpy
    o, bt, dts, tol, kw = setup(h, cls, nb, nd, good, tol, start, crit)
    times = [instant(h, x) for x in dts]
    got = ocbpy.match_data_ocb(o, times, idat=idat, **kw)
    judge(h, o, bt, dts, tol, good, start, idat, got, nb, nd, 'match')


def record(o, rec):
    return int(o.ocb_ind[rec]) if hasattr(o, 'set_good_ind') and \
        o.max_delta == 1 else int(rec)


def judge(h, o, bt, dts, tol, good, start, idat, got, nb, nd, lab):
    cand = [i for i in range(nb) if good[i] and i >= start]
    rec = o.rec_ind
    hit = got is not None and got < nd and rec < o.records
    h.check(not hit or len(cand) > 0, lab + ': no match without good records')
    if hit:
        rec = record(o, rec)
        h.check(rec in cand, lab + ': boundary record is a good one')
        h.check(idat <= got, lab + ': data index does not go back')
        d = abs(bt[rec] - dts[got])
        h.le(d, tol, lab + ': within the tolerance')
        for i in cand:
            if i > rec:
                h.le(d, abs(bt[i] - dts[got]), lab + ': no later record closer')
    for j in range(idat, int(got) if hit else nd):
        for i in cand:
            h.lt(tol, abs(bt[i] - dts[j]),
                 lab + ': skipped data have no boundary within the tolerance')
    return hit


def loop(h, cls='OCBoundary', nb=2, nd=2, good=(1, 1), tol=None, crit=''):
    """the matching loop of the data writers"""
    import ocbpy
    o, bt, dts, tol, kw = setup(h, cls, nb, nd, good, tol, -1, crit)
    times = [instant(h, x) for x in dts]
    ind, pairs, calls, ended = 0, [], 0, False
    while ind is not None and ind < nd and o.rec_ind < o.records:
        calls += 1
        if calls > nd + 1:
            break
        ind = ocbpy.match_data_ocb(o, times, idat=ind, **kw)
        if ind is not None and ind < nd and o.rec_ind < o.records:
            pairs.append((int(ind), record(o, o.rec_ind)))
            ind += 1
        elif ind is None or o.rec_ind < o.records:
            break
    h.check(calls <= nd + 1, 'loop: terminates')
    cand = [i for i in range(nb) if good[i]]
    done = [j for j, _ in pairs]
    h.check(done == sorted(set(done)), 'loop: each data value at most once')
    for j, i in pairs:
        h.check(i in cand, 'loop: boundary record is a good one')
        h.le(abs(bt[i] - dts[j]), tol, 'loop: within the tolerance')
        for k in cand:
            if k > i:
                h.le(abs(bt[i] - dts[j]), abs(bt[k] - dts[j]),
                     'loop: no later record closer')
    for j in range(nd):
        if j not in done:
            for i in cand:
                h.lt(tol, abs(bt[i] - dts[j]),
                     'loop: unmatched data have no boundary within tolerance')


def tasks(tier):
    out = []
    names = set()

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        if nm not in names:
            names.add(nm)
            out.append((body, k, dict(weight=w, budget=400), nm))
    big = 4 if tier == 'thorough' else 3
    for nb in range(1, big + 1):
        for good in itertools.product((0, 1), repeat=nb):
            for nd in range(1, big + 1):
                if nb + nd >= 6 and tier != 'thorough' and sum(good) < 2:
                    continue
                add(loop, nb * nd, nb=nb, nd=nd, good=good)
                for st in [-1] + [i for i in range(nb) if good[i]]:
                    if st in (-1, 0) or nd < 3:
                        add(one, nb * nd, nb=nb, nd=nd, good=good, start=st)
    for st, idat in ((-1, 1), (0, 1), (1, 1), (0, 2), (2, 0), (-1, 2),
                     (3, 0)):
        add(one, 4, nb=2, nd=2, start=st, idat=idat)
    for st in (-1, 0):
        add(one, 4, nb=2, nd=2, start=st, tol=0)
        add(loop, 4, nb=2, nd=2, tol=0)
    for crit in ('merit', 'attr'):
        for good in ((1, 1), (0, 1), (1, 0), (0, 0)):
            add(loop, 4, nb=2, nd=2, good=good, crit=crit)
            add(one, 4, nb=2, nd=2, good=good, crit=crit)
    add(loop, 4, cls='EABoundary', nb=2, nd=2, good=(0, 1))
    add(one, 4, cls='EABoundary', nb=2, nd=2, good=(1, 1))
    for nb in (2, 3):
        add(loop, 9, cls='DualBoundary', nb=nb, nd=2, good=(1,) * nb)
        for st in range(-1, nb):
            add(one, 9, cls='DualBoundary', nb=nb, nd=2, good=(1,) * nb,
                start=st)
    for good in ((1, 1), (0, 1), (1, 0), (0, 0)):
        add(loop, 9, cls='DualBoundary', nb=2, nd=2, good=good, crit='merit')
        add(one, 9, cls='DualBoundary', nb=2, nd=2, good=good, crit='merit')
    return out
