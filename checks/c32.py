"""C32: the dual record index keeps both boundaries on the same pair."""
import datetime as dt

from checks.common import T1, boundary, other_record
from symx.harness import flat

BOUNDS = ('Every sequence of up to 3 operations (thorough 4) out of assigning '
          'any index from -3 to 3 past the last pair, cycling, re-selecting '
          'the pairs with either quality limit, converting a position and '
          'moving one boundary alone, on dual boundaries of 0-3 pairs with '
          'unpaired records on both sides and every quality pattern; '
          'boundaries without data.')
OUTSIDE = ('More pairs; indices that are not integers; times other than one '
           'ladder (pairing itself is C10).')


def make(h, no, ne, sel=True, hemi=1):
    """Records at 10-minute steps; the EAB starts `ne - no` steps earlier."""
    import ocbpy

    def recs(n, shift, off, name, base):
        out = []
        for i in range(n):
            fom = 2.0
            if sel and h.decide(h.flag('%s%d' % (name, i))):
                fom = 4.0
            out.append(dict(other_record(i), r=base + i, fom=fom,
                            num_sectors=12, time=T1 + dt.timedelta(
                                seconds=600 * (i - shift) + off)))
        return out
    o = boundary(h, 'OCBoundary', hemi, hemi * 74.0, recs(no, 0, 0, 'o', 12.0),
                 -1)
    e = boundary(h, 'EABoundary', hemi, hemi * 64.0, recs(
        ne, max(ne - no, 0), 20, 'e', 22.0), -1)
    o.max_fom = e.max_fom = 5.0
    return ocbpy.DualBoundary(ocb=o, eab=e, hemisphere=hemi, max_delta=60)


def held(h, d, tag=''):
    """The invariant of the dual index."""
    n = d.records
    h.check(len(d.ocb_ind) == n and len(d.eab_ind) == n
            and len(d.dtime) == n, tag + 'one entry per pair')
    k = d.rec_ind
    if h.decide(k >= 0) and h.decide(k < n):
        for j in range(n):
            if h.decide(k == j):
                a, b = int(flat(d.ocb_ind)[j]), int(flat(d.eab_ind)[j])
                h.check(d.ocb.rec_ind == a, tag + 'OCB at its pair')
                h.check(d.eab.rec_ind == b, tag + 'EAB at its pair')
                h.check(abs((d.ocb.dtime[a] - d.eab.dtime[b]
                             ).total_seconds()) <= 60,
                        tag + 'records of one pair')
                h.check(d.dtime[j] == d.ocb.dtime[a], tag + 'time of pair')
    else:
        for b, nm in ((d.ocb, 'OCB'), (d.eab, 'EAB')):
            h.check((b.rec_ind < 0) | (b.rec_ind >= b.records) if h.sym else
                    (b.rec_ind < 0 or b.rec_ind >= b.records),
                    tag + nm + ' unusable')


OPS = ('set', 'next', 'select', 'tight', 'use', 'drift')


def history(h, no=3, ne=4, ops=3, sel=False, kinds=OPS):
    """Any sequence of operations keeps the invariant."""
    d = make(h, no, ne, sel)
    held(h, d, 'initially ')
    if d.records:
        h.check(d.rec_ind == 0, 'initially at the first pair')
    for i in range(ops):
        w = h.integer('op%d' % i, 0, len(kinds) - 1)
        op = kinds[-1]
        for j, o in enumerate(kinds[:-1]):
            if h.decide(w == j):
                op = o
                break
        if op == 'set':
            k = h.integer('k%d' % i, -3, d.records + 3)
            d.rec_ind = k
            h.check(d.rec_ind == k, 'index as assigned')
        elif op == 'next':
            old = d.rec_ind
            d.get_next_good_ind()
            if h.decide(old < d.records) and d.records:
                h.check(d.rec_ind == old + 1, 'cycling moves to the next')
            else:
                h.check(d.rec_ind == old, 'cycling stops past the last pair')
        elif op == 'select':
            d.set_good_ind()
        elif op == 'tight':
            d.set_good_ind(ocb_max_merit=3.0, eab_max_merit=3.0)
        elif op == 'use':
            d.normal_coord(80.0, 3.0)
            d.get_aacgm_boundary_lats(3.0, rec_ind=0)
        else:
            # a boundary moved on its own is brought back by the dual index
            d.ocb.rec_ind = 0
            d.eab.rec_ind = -1
            d.eab.get_next_good_ocb_ind()
            d.rec_ind = h.integer('k%d' % i, -2, d.records + 1)
        held(h, d, 'after %s ' % op)


def visit(h, no=3, ne=4):
    """Cycling visits each pair once and stops just past the last."""
    d = make(h, no, ne)
    start = h.integer('start', -2, 1)
    d.rec_ind = start
    seen = []
    for _ in range(d.records + 4):
        for j in range(d.records):
            if h.decide(d.rec_ind == j):
                seen.append((int(d.ocb.rec_ind), int(d.eab.rec_ind)))
                break
        else:
            if h.decide(d.rec_ind >= d.records):
                break
        held(h, d)
        d.get_next_good_ind()
    if d.records:
        h.check(d.rec_ind == d.records, 'stops just past the last pair')
    want = list(zip([int(x) for x in flat(d.ocb_ind)],
                    [int(x) for x in flat(d.eab_ind)]))
    first = max(0, int(start) if not h.sym else next(
        j for j in (-2, -1, 0, 1) if h.decide(start == j)))
    h.check(seen == want[first:], 'each pair is visited once')
    d.get_next_good_ind()
    held(h, d)


def empty(h, which='both'):
    import ocbpy
    kw = {}
    rec = [dict(other_record(0), time=T1, fom=2.0, num_sectors=12)]
    if which != 'ocb':
        kw['eab'] = ocbpy.EABoundary(filename=None)
    else:
        kw['eab'] = boundary(h, 'EABoundary', 1, 64.0, rec, 0)
    if which != 'eab':
        kw['ocb'] = ocbpy.OCBoundary(filename=None)
    else:
        kw['ocb'] = boundary(h, 'OCBoundary', 1, 74.0, rec, 0)
    d = ocbpy.DualBoundary(hemisphere=1, **kw)
    h.check(d.records == 0, 'no pairs')
    for i in range(2):
        if h.decide(h.flag('set%d' % i)):
            d.rec_ind = h.integer('k%d' % i, -3, 3)
        else:
            d.get_next_good_ind()
        for b in (d.ocb, d.eab):
            h.check(h.decide(b.rec_ind < 0) or h.decide(
                b.rec_ind >= b.records), 'unusable without data')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    ops = 3 if tier == 'quick' else 4
    for no, ne in ((2, 2), (3, 4), (4, 2), (1, 1)):
        if no == 3:
            add(history, no=no, ne=ne, ops=ops,
                kinds=('set', 'next', 'select', 'drift'))
            add(history, no=no, ne=ne, ops=2)
        else:
            add(history, no=no, ne=ne, ops=ops)
        add(visit, no=no, ne=ne)
    add(history, no=2, ne=2, ops=1 if tier == 'quick' else 2, sel=True)
    add(history, no=2, ne=3, ops=2, sel=True, kinds=('set', 'tight', 'next'))
    add(history, no=3, ne=3, ops=2, sel=True, kinds=('set', 'tight'))
    for which in ('both', 'ocb', 'eab'):
        add(empty, which=which)
    return out
