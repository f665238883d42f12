"""C10: dual boundaries pair only good, near-simultaneous records."""
import itertools

from checks.common import boundary, instant, ladder, other_record

BOUNDS = ('1-3 OCB and 1-3 EAB records (thorough 4) with free, strictly '
          'increasing times and a free offset between the series; every '
          'quality pattern; maximum separation free (1-300 s); default '
          'limits, minimum/maximum merit and attribute criteria given '
          'separately for each boundary; re-selection after another '
          'selection and from any record index.')
OUTSIDE = 'More records than stated; equal times within one series.'


def pairing(h, no=2, ne=2, og=(1, 1), eg=(1, 1), crit='', again=0, hemi=1):
    import ocbpy
    ot = ladder(h, 'o', no, strict=True)
    et = ladder(h, 'e', ne, first=(-400, 900), strict=True)
    delta = h.integer('delta', 1, 300)

    def recs(ts, good, base):
        return [dict(other_record(i), r=base + i, time=instant(h, ts[i]),
                     fom=(2.0 if good[i] else 7.0),
                     num_sectors=(12 if good[i] else 3))
                for i in range(len(ts))]
    o = boundary(h, 'OCBoundary', hemi, hemi * 74.0, recs(ot, og, 12.0), -1)
    e = boundary(h, 'EABoundary', hemi, hemi * 64.0, recs(et, eg, 22.0), -1)
    kw = {}
    if crit == '':
        o.max_fom = e.max_fom = 5.0
    elif crit == 'merit':
        o.max_fom = e.max_fom = 99.0
        kw = dict(ocb_max_merit=4.0, eab_max_merit=3.0)
    elif crit == 'low':
        # good is the larger figure of merit for the EAB only
        o.max_fom, e.max_fom = 5.0, 99.0
        e.fom = 9.0 - e.fom
        kw = dict(eab_min_merit=4.0)
    elif crit == 'attr':
        o.max_fom = e.max_fom = 99.0
        kw = dict(ocb_kwargs={'num_sectors': ('min', 5)},
                  eab_kwargs={'num_sectors': ('mineq', 12), 'nope': ('max', 0)})
    given = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}
    d = ocbpy.DualBoundary(ocb=o, eab=e, hemisphere=hemi, max_delta=delta)
    if crit or again:
        if again > 1:
            d.rec_ind = again - 3
        d.set_good_ind(**kw)
    for k in given:
        h.check(kw[k] == given[k], 'criteria dictionaries unchanged')
    prs = [(int(a), int(b)) for a, b in zip(d.ocb_ind, d.eab_ind)]
    h.check(len(d.ocb_ind) == d.records and len(d.eab_ind) == d.records
            and len(d.dtime) == d.records, 'one entry per pair')
    for k, (a, b) in enumerate(prs):
        h.check(bool(og[a]), 'OCB record meets its criteria')
        h.check(bool(eg[b]), 'EAB record meets its criteria')
        h.le(abs(ot[a] - et[b]), delta, 'pair within the maximum separation')
        h.check(d.dtime[k] == o.dtime[a], 'pair time is the OCB time')
        if k:
            h.check(prs[k - 1][0] <= a, 'OCB indices in order')
            h.check(prs[k - 1][1] < b, 'EAB indices increase')
    used = [b for _, b in prs]
    for b in range(ne):
        if eg[b] and b not in used:
            near = None
            for a in range(no):
                if og[a] and near is None and h.decide(
                        abs(ot[a] - et[b]) <= delta):
                    near = a
            if near is None:
                continue
            ok = [y for x, y in prs if x == near and h.decide(
                abs(ot[x] - et[y]) < abs(ot[x] - et[b]))]
            h.check(len(ok) > 0, 'an unpaired EAB has no OCB left for it')
    # pairs of an unused OCB and an unused EAB
    uo = [a for a, _ in prs]
    for a in range(no):
        for b in range(ne):
            if not (og[a] and eg[b]) or a in uo or b in used:
                continue
            if any((x < a) != (y < b) for x, y in prs):
                continue
            h.lt(delta, abs(ot[a] - et[b]), 'no further pair fits')
    h.check(int(d.rec_ind) == 0, 'at the first pair')
    if prs:
        h.check(int(o.rec_ind) == prs[0][0] and int(e.rec_ind) == prs[0][1],
                'both boundaries are at the first pair')
    else:
        h.check(o.rec_ind >= no and e.rec_ind >= ne,
                'no pair leaves no usable record')


def empty(h, which='both', hemi=1):
    """boundaries without records"""
    import ocbpy
    o = ocbpy.OCBoundary(filename=None, hemisphere=hemi, instrument='image')
    e = ocbpy.EABoundary(filename=None, hemisphere=hemi, instrument='image')
    rec = [dict(other_record(0), fom=h.real('fom', 0, 4))]
    if which == 'ocb':
        o = boundary(h, 'OCBoundary', hemi, hemi * 74.0, rec, -1)
    if which == 'eab':
        e = boundary(h, 'EABoundary', hemi, hemi * 64.0, rec, -1)
    d = ocbpy.DualBoundary(ocb=o, eab=e, hemisphere=hemi)
    h.check(d.records == 0, 'no pairs')
    h.check(d.rec_ind == 0, 'record index past the pairs')
    d.get_next_good_ind()
    out = d.normal_coord(h.real('lat', 1, 89) * hemi, h.real('mlt', 0, 20))
    for x in out:
        h.all_nan(x, 'fill values')


def tasks(tier):
    out, names = [], set()

    def add(body, w=1, **k):
        nm = body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))
        if nm not in names:
            names.add(nm)
            out.append((body, k, dict(weight=w, budget=600), nm))
    big = 4 if tier == 'thorough' else 3
    for no in range(1, big + 1):
        for ne in range(1, big + 1):
            if no + ne > 6:
                continue
            for og in itertools.product((0, 1), repeat=no):
                for eg in itertools.product((0, 1), repeat=ne):
                    if no + ne > 4 and tier != 'thorough' and \
                            sum(og) + sum(eg) < no + ne - 1:
                        continue
                    if tier == 'thorough' and no + ne > 5 and \
                            sum(og) + sum(eg) < no + ne - 2:
                        continue
                    add(pairing, no * ne * (sum(og) + sum(eg)), no=no, ne=ne,
                        og=og, eg=eg)
    for crit in ('merit', 'attr', 'low'):
        for og in ((1, 1), (0, 1), (1, 0)):
            for eg in ((1, 1), (0, 1), (1, 0), (0, 0)):
                add(pairing, 5, og=og, eg=eg, crit=crit)
    for again in (1, 2, 3, 4, 5):
        add(pairing, 5, og=(1, 1), eg=(1, 1), again=again, hemi=-1)
        add(pairing, 5, og=(0, 1), eg=(1, 1), again=again, crit='merit')
    for w in ('both', 'ocb', 'eab'):
        for hemi in (1, -1):
            add(empty, which=w, hemi=hemi)
    return out
