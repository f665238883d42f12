"""C24: DMSP file evaluation accepts the requested satellites and days."""
import datetime as dt

from checks.common import instant

BOUNDS = ('Any day within 25 years of 2005 in the file name, any start and '
          'end time within 50 years of it or none, any satellite number 0-99 '
          'written in the name and lists of 0-3 free numbers.')
OUTSIDE = ('Names that do not follow the documented pattern; dates are one '
           'symbolic calendar day whose text is read back by strptime.')
BASE = dt.datetime(2005, 1, 1)


def evaluate(h, nsat=2, start=True, end=True, kind='any'):
    from ocbpy.boundaries.dmsp_ssj_files import evaluate_dmsp_boundary_file
    d1, d0 = h.integer('tens', 0, 9), h.integer('units', 0, 9)
    sat = d1 * 10 + d0
    stext = h.digits(sat, 2, (d1, d0))
    if kind == 'any':
        n = h.integer('day', -9000, 9000)
        ftime = instant(h, n * 86400, BASE)
        dtext = ftime.strftime('%Y%m%d')
    else:
        # written digits of the day within one month
        y, m, last = {'jan': (2010, 1, 31), 'feb': (2012, 2, 29),
                      'feb1': (2011, 2, 28), 'dec': (2014, 12, 31)}[kind]
        e1, e0 = h.integer('dtens', 0, 3), h.integer('dunits', 0, 9)
        day = e1 * 10 + e0
        h.assume(day >= 1)
        h.assume(day <= last)
        n = (dt.datetime(y, m, 1) - BASE).days + day - 1
        dtext = '%04d%02d' % (y, m) + h.digits(day, 2, (e1, e0))
    s = h.const(1) * n * 86400
    t0 = h.real('start', -86400 * 18000, 86400 * 18000) if start else None
    t1 = h.real('end', -86400 * 18000, 86400 * 18000) if end else None
    for t in (t0, t1):
        # microsecond resolution, exact in the replay
        if t is not None and kind == 'near':
            h.assume(abs(t - s) <= 1)
    sats = [h.integer('sat%d' % k, 0, 99) for k in range(nsat)]
    name = '/some/dir/dmsp-f' + stext + '_ssj_precipitating-electrons-ions_' \
        + dtext + '_v1.1.4_boundaries.csv'
    # keep the directory free of underscores, as in the documented pattern
    got = evaluate_dmsp_boundary_file(
        name, None if t0 is None else instant(h, t0, BASE),
        None if t1 is None else instant(h, t1, BASE), sats)
    want = any([h.decide(x == sat) for x in sats])
    if want and start:
        want = h.decide(s >= t0)
    if want and end:
        want = h.decide(s < t1)
    h.check(bool(got) == bool(want), 'accepted exactly as requested')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__.strip('_') + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for start in (True, False):
        for end in (True, False):
            for nsat in (0, 1, 2, 3):
                add(evaluate, nsat=nsat, start=start, end=end)
            for kind in ('jan', 'feb', 'feb1', 'dec'):
                add(evaluate, nsat=1, start=start, end=end, kind=kind)
    return out
