"""C28: ASCII loaders."""
import datetime as dt
import os

from checks.writer import scratch
from symx import core
from symx.harness import flat

BOUNDS = ('SuperMAG: 1-3 blocks of 1-3 stations with or without either index '
          'line and any header; vorticity: 1-3 blocks of 0-2 entries, with '
          'or without header, needed or all columns; generic ASCII: 1-3 rows '
          'of 1-5 columns, header in the file or supplied, column types, '
          'separators and comments, and every supported kind of time. Every '
          'data value is a free number; fill values at every position.')
OUTSIDE = ('Blocks without stations, other index names, files without data '
           'rows; dates of a row are concrete while seconds of the day or '
           'year and hours are free.')
ASSUMPTIONS = ('numpy.genfromtxt splits lines into columns as documented.',
               'float() and int() of a written number give that number.')
FILL = 999999


def put(h, x):
    """Full-precision text of a number."""
    if h.sym and isinstance(x, core.SR):
        return format(x, 'd' if x.ty == 'i' else '.9f')
    return '%d' % x if isinstance(x, int) else repr(float(x))


def num(h, v, want, label):
    if want is None:
        h.check(h.is_nan(v), label + ' missing')
    elif h.is_nan(v):
        h.check(False, label)
    else:
        h.eq(v, want, label)


def save(d, text, name='data'):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    return p


def supermag(h, counts=(1,), index=(3,), fills=(), nhead=2):
    from ocbpy.instruments import supermag as mod
    head = ['line %d\n' % i for i in range(nhead)] + ['=' * 60 + '\n']
    text = ''.join(head)
    want = []
    cols = ('BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC', 'SZA')
    k = 0
    for b, n in enumerate(counts):
        t = dt.datetime(2004, 12, 31, 23, 58 + b % 2, 5 * b) + dt.timedelta(
            hours=b)
        text += t.strftime('%Y\t%m\t%d\t%H\t%M\t%S') + '\t%d\n' % n
        ind = {'SML': FILL, 'SMU': FILL}
        for j, key in enumerate(('SML', 'SMU')):
            if index[b % len(index)] & (1 << j):
                ind[key] = h.integer('%s%d' % (key, b), -5000, 5000)
                text += '%s\t%s\n' % (key, put(h, ind[key]))
        for s in range(n):
            row = dict(ind, DATETIME=t, NST=n, STID='S%d%d' % (b, s))
            words = [row['STID']]
            for c in cols:
                if (k, c) in fills:
                    row[c] = None
                    words.append('999999.0')
                else:
                    row[c] = h.real('%s%d' % (c, k), -900, 900)
                    words.append(put(h, row[c]))
            text += '\t'.join(words) + '\n'
            want.append(row)
            k += 1
    with scratch() as d:
        hd, out = mod.load_supermag_ascii_data(save(d, text))
    h.check(hd == head, 'header lines')
    for c in cols + ('SML', 'SMU', 'NST', 'STID', 'DATETIME', 'YEAR',
                     'MONTH', 'DAY', 'HOUR', 'MIN', 'SEC'):
        h.check(len(out[c]) == len(want), 'number of values of ' + c)
    parts = dict(YEAR='year', MONTH='month', DAY='day', HOUR='hour',
                 MIN='minute', SEC='second')
    for i, w in enumerate(want):
        for c in cols + ('SML', 'SMU'):
            num(h, flat(out[c])[i], w[c], c)
        h.check(str(out['STID'][i]) == w['STID'], 'STID')
        h.check(int(out['NST'][i]) == w['NST'], 'NST')
        h.check(out['DATETIME'][i] == w['DATETIME'], 'DATETIME')
        for c in parts:
            h.check(int(out[c][i]) == getattr(w['DATETIME'], parts[c]), c)


VKEYS = [['R1BM1', 'R1BM2', 'R2BM1', 'R2BM2', 'AREA', 'VORTICITY', 'MLT'],
         ['GFLG', 'CENTRE_GLAT', 'CENTRE_GLON', 'C1_GLAT', 'C1_GLON',
          'C2_GLAT', 'C2_GLON', 'C3_GLAT', 'C3_GLON', 'C4_GLAT', 'C4_GLON'],
         ['MFLG', 'CENTRE_MLAT', 'CENTRE_MLON', 'C1_MLAT', 'C1_MLON',
          'C2_MLAT', 'C2_MLON', 'C3_MLAT', 'C3_MLON', 'C4_MLAT', 'C4_MLON']]


def vorticity(h, counts=(1,), every=False, nhead=0):
    from ocbpy.instruments import vort as mod
    text = ''.join('# header %d\n' % i for i in range(nhead))
    want = []
    k = 0
    for b, n in enumerate(counts):
        day = dt.datetime(2000, 2, 28) + dt.timedelta(days=b)
        uth = h.real('uth%d' % b, 0, 23.999)
        text += '%d %d %d %s\n%d\n' % (day.year, day.month, day.day,
                                       put(h, uth), n)
        for e in range(n):
            row = dict(day=day, UTH=uth)
            for line in VKEYS:
                for c in line:
                    if c[1:] == 'FLG':
                        row[c] = len(line) % 2
                        continue
                    row[c] = h.real('%s_%d' % (c, k), -900, 900)
                text += ' '.join('%d' % row[c] if c[1:] == 'FLG' else
                                 put(h, row[c]) for c in line) + '\n'
            want.append(row)
            k += 1
    with scratch() as d:
        out = mod.load_vorticity_ascii_data(save(d, text), save_all=every)
    if not want:
        h.check(out is None, 'no data')
        return
    need = ['VORTICITY', 'MLT', 'CENTRE_MLAT']
    if every:
        need = [c for line in VKEYS for c in line if c[1:] != 'FLG']
    for c in need + ['YEAR', 'MONTH', 'DAY', 'UTH', 'DATETIME']:
        h.check(len(out[c]) == len(want), 'number of values of ' + c)
    for i, w in enumerate(want):
        for c in need + ['UTH']:
            num(h, flat(out[c])[i], w[c], c)
        for c in ('YEAR', 'MONTH', 'DAY'):
            h.check(int(out[c][i]) == getattr(w['day'], c.lower()), c)
        sec = (out['DATETIME'][i] - w['day']).total_seconds()
        # whole seconds
        h.check((sec <= w['UTH'] * 3600 + 1e-6)
                & (w['UTH'] * 3600 < sec + 1 + 1e-6), 'DATETIME')


def table(h, cols='ff', rows=2, fmt=None, dcols=None, ints=(), strs=(),
          sep=None, supplied=False, comments=None, nhead=1, own=False):
    """`cols` gives the content of every column: f number, i whole number,
    s word, D date, T time of day, B both, Y year, S seconds of year,
    O seconds of day."""
    from ocbpy.instruments import general as mod
    names = ['c%d%s' % (i, c) for i, c in enumerate(cols)]
    join = ' ' if sep is None else sep
    text = ''.join('header %d\n' % i for i in range(nhead - 1))
    if not supplied and nhead:
        text += ('' if not comments else '') + '#' + join.join(names) + '\n'
    elif nhead:
        text += 'last line\n'
    want = []
    for r in range(rows):
        t = dt.datetime(2001, 3, 9, 17, 0, 41) + dt.timedelta(
            hours=31 * r, minutes=7 * r)
        row, words = {}, []
        base, add = None, 0
        for n, c in zip(names, cols):
            if c == 'f':
                row[n] = h.real('%s_%d' % (n, r), -9000, 9000)
            elif c == 'i':
                row[n] = h.integer('%s_%d' % (n, r), -9000, 9000)
            elif c == 's':
                row[n] = 'word%d%s' % (r, 'x' * r)
            elif c == 'D':
                row[n] = t.strftime('%Y-%m-%d')
                base = dt.datetime(t.year, t.month, t.day)
            elif c == 'T':
                row[n] = t.strftime('%H:%M:%S')
                add = (t - dt.datetime(t.year, t.month, t.day)
                       ).total_seconds()
            elif c == 'B':
                row[n] = t.strftime('%Y%m%d-%H%M%S')
                base = t
            elif c == 'Y':
                row[n] = t.year
                base = dt.datetime(t.year, 1, 1)
            elif c == 'S':
                row[n] = add = h.integer('%s_%d' % (n, r), 0, 86400 * 364)
            elif c == 'O':
                row[n] = add = h.real('%s_%d' % (n, r), 0, 86399)
            words.append(row[n] if isinstance(row[n], str) else
                         put(h, row[n]))
        text += join.join(words) + '\n'
        want.append((row, base, add))
    kw = dict(hlines=nhead)
    given = dict(int_cols=list(ints), str_cols=list(strs),
                 datetime_cols=list(dcols) if dcols else [],
                 header=['#' + join.join(names)] if supplied else [])
    same = {k: list(v) for k, v in given.items()}
    if own:
        kw.update({k: v for k, v in given.items() if v})
    else:
        kw.update(given)
    if fmt:
        kw['datetime_fmt'] = fmt
    if sep:
        kw['hsplit'] = sep
    g = {}
    if sep:
        g['delimiter'] = sep
    if comments:
        g['comments'] = comments
    if g:
        kw['gft_kwargs'] = g
    keep = dict(g)
    with scratch() as d:
        head, out = mod.load_ascii_data(save(d, text), **kw)
    h.check(given == same and g == keep, 'arguments unchanged')
    h.check([x.strip() for x in head[len(head) - nhead:]]
            == [x.strip() for x in text.split('\n')[:nhead]], 'header lines')
    for n, c in zip(names, cols):
        h.check(len(out[n]) == rows, 'number of values of ' + c)
        col = flat(out[n]) if c in 'fiSO' else list(out[n])
        for i, (row, base, add) in enumerate(want):
            if isinstance(row[n], str):
                h.check(str(col[i]) == row[n], 'text of column ' + c)
            else:
                h.eq(col[i], row[n], 'value of column ' + c)
    if dcols:
        h.check(len(out['datetime']) == rows, 'number of times')
        for i, (row, base, add) in enumerate(want):
            sec = (out['datetime'][i] - base).total_seconds()
            h.check(abs(sec - add) <= 1e-5, 'time of the row')
    h.check(set(out) == set(names) | ({'datetime'} if dcols else set()),
            'columns')


def tasks(tier):
    out = []

    def add(body, **k):
        out.append((body, k, {}, body.__name__ + ' ' + ' '.join(
            '%s=%s' % (x, k[x]) for x in sorted(k))))
    for counts in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 3, 2)):
        for index in ((3,), (0,), (1, 2), (3, 0), (0, 3)):
            if len(counts) >= len(index) or index == (3,):
                add(supermag, counts=counts, index=index)
    add(supermag, nhead=0)
    add(supermag, nhead=30, counts=(1, 1))
    for c in ('BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC', 'SZA'):
        add(supermag, counts=(2, 2), fills=((1, c),))
        add(supermag, counts=(1,), fills=((0, c),))
    add(supermag, counts=(1, 1), fills=((0, 'BN'), (0, 'BE'), (0, 'BZ'),
                                        (1, 'SZA'), (1, 'DEC')))
    for counts in ((1,), (2,), (0,), (0, 1), (1, 0), (1, 1), (2, 1),
                   (1, 0, 2)):
        add(vorticity, counts=counts)
    for counts in ((1,), (2, 1), (1, 0, 1)):
        add(vorticity, counts=counts, every=True)
    add(vorticity, nhead=1, counts=(1, 1))
    add(vorticity, nhead=3)
    for rows in (1, 2, 3):
        add(table, rows=rows)
        add(table, rows=rows, cols='f')
        add(table, rows=rows, cols='fisf', ints=(1,), strs=(2,))
        add(table, rows=rows, cols='ffff', sep=',')
        add(table, rows=rows, cols='DTff', fmt='%Y-%m-%d %H:%M:%S',
            dcols=(0, 1), strs=(0, 1))
        add(table, rows=rows, cols='fDfT', fmt='%Y-%m-%d %H:%M:%S',
            dcols=(1, 3), strs=(1, 3))
        add(table, rows=rows, cols='TfD', fmt='%Y-%m-%d %H:%M:%S',
            dcols=(2, 0), strs=(0, 2))
        add(table, rows=rows, cols='fBf', fmt='%Y%m%d-%H%M%S', dcols=(1,),
            strs=(1,))
        add(table, rows=rows, cols='YSf', fmt='YEAR SOY', dcols=(0, 1))
        add(table, rows=rows, cols='fYS', fmt='YEAR SOY', dcols=(1, 2))
        add(table, rows=rows, cols='SfYi', fmt='YEAR SOY', dcols=(2, 0),
            ints=(3,))
        add(table, rows=rows, cols='DOf', fmt='%Y-%m-%d SOD', dcols=(0, 1),
            strs=(0,))
        add(table, rows=rows, cols='fff', supplied=True, nhead=0)
        add(table, rows=rows, cols='ff', supplied=True, nhead=2)
        add(table, rows=rows, cols='ff', nhead=3)
        add(table, rows=rows, cols='ff', comments='%', own=True)
        add(table, rows=rows, cols='iiii', ints=(0, 1, 2, 3))
        add(table, rows=rows, cols='sf', strs=(0,), own=True)
        add(table, rows=rows, cols='DTf', fmt='%Y-%m-%d %H:%M:%S',
            dcols=(0, 1), own=True)
    if tier == 'thorough':
        for index in ((0,), (1,), (2,), (3,), (0, 3, 1)):
            add(supermag, counts=(2, 3, 1, 2), index=index)
        add(vorticity, counts=(3, 0, 2, 1), every=True)
        for rows in (4, 6):
            add(table, rows=rows, cols='fDfTiis', dcols=(1, 3), strs=(1, 3, 6),
                ints=(4, 5), fmt='%Y-%m-%d %H:%M:%S')
            add(table, rows=rows, cols='fffSYff', dcols=(4, 3),
                fmt='YEAR SOY')
    seen = {}
    for x in out:
        seen[x[3]] = x
    return list(seen.values())
