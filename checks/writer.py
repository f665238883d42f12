"""Shared parts of the checks of the file writers."""
import contextlib
import datetime as dt
import os
import shutil
import tempfile

from checks.common import boundary, dual, instant, ladder, other_record
from symx import core
from symx.harness import flat

START = dt.datetime(2007, 3, 2, 2, 45, 0)


def number(h, s):
    """Value of a printed number."""
    if h.sym:
        x = core.number_text(s)
        if x is not None:
            return x
    v = float(s)
    return h.nan() if v != v else v


def printed(h, s, want, dec, label):
    """The text shows `want` with at least `dec` decimals."""
    if h.is_nan(want):
        h.check(s == 'nan', label)
        return
    x = number(h, s)
    if h.is_nan(x):
        h.check(False, label)
        return
    if h.sym:
        t = core.TOKENS.get(s.lstrip('+-'))
        if t is not None:
            sp = t[2]
            d = int(sp[1:-1]) if sp[:1] == '.' and sp[1:-1].isdigit() else 17
            h.check(d >= dec, label + ' precision')
            h.eq(x, want, label)
            return
    d = len(s.partition('.')[2]) if '.' in s else 0
    if 'e' in s:
        d = 17
    want = float(want) if not h.sym else want
    tol = 0.5 * 10.0 ** -min(d, 12) + 1e-9 * (1 if h.sym else
                                              1 + abs(want))
    h.check(d >= dec or (d >= 1 and not h.sym and dec > 15) or
            abs(float(s)) == 0.0 or dec == 0, label + ' precision')
    h.check((x - want <= tol) & (want - x <= tol) if h.sym else
            abs(x - want) <= tol, label)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='writer')
    try:
        yield d
    finally:
        shutil.rmtree(d)


@contextlib.contextmanager
def swapped(mod, **kw):
    old = {k: getattr(mod, k) for k in kw}
    for k, v in kw.items():
        setattr(mod, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


class Located(object):
    """An arbitrary normalised location for every record and position."""

    def __init__(self, h, b, hemi):
        self.h, self.b, self.hemi = h, b, hemi
        self.dual = hasattr(b, 'ocb')
        self.table = []

    def one(self, rec, lat, lt):
        h = self.h
        if h.is_nan(lat) or h.is_nan(lt):
            return [h.nan()] * 3
        for r, a, b, out in self.table:
            if r == rec and h.aacgm.same(a, lat) and h.aacgm.same(b, lt, 24):
                return out
        out = (h.real(h.name('nlat'), 50, 90) * self.hemi,
               h.real(h.name('nmlt'), 0, 24), h.real(h.name('ncorr'), -2, 4))
        self.table.append((rec, lat, lt, out))
        return out

    def __call__(self, lat, lt, coords='magnetic', height=350.0,
                 method='ALLOWTRACE', **kw):
        h, np = self.h, self.h.np_()
        assert coords == 'magnetic'
        rec = int(self.b.rec_ind)
        x = np.broadcast_arrays(*[np.asarray(a) for a in (lat, lt)])
        out = [self.one(rec, a, b) for a, b in zip(*[flat(y) for y in x])]
        sh = x[0].shape
        cols = [h.arr([o[i] for o in out]).reshape(sh) if sh else out[0][i]
                for i in range(3)]
        if self.dual:
            cols.insert(2, cols[0])
        return tuple(cols)


def bounds(h, cls, hemi, nb, good, start, offs, simple=False, first=(-300, 300),
           same=False):
    """A boundary with free record times; (boundary, seconds, radii)."""
    bt = ladder(h, 'b', nb, first=first, strict=True, hi=700)
    blat = h.real('blat', 60, 80)
    tm = [instant(h, x, START) for x in bt]
    if cls == 'DualBoundary':
        b, info = dual(h, hemi, extra=max(nb - 2, 0))
        b.ocb.boundary_lat = blat * hemi
        rad = [h.real('r%d' % k, 5, 30) for k in range(nb)]
        r = list(b.ocb.r)
        if same:
            # the record of the pair is not distinguished by its radius
            rad = rad[:1] * nb
            r = rad[:1] * len(r)
        for k in range(nb):
            r[k + 1] = rad[k]
        b.ocb.r = h.arr(r)
        if simple:
            b.ocb.r_cent = b.ocb.r_cent * 0
            b.ocb.phi_cent = b.ocb.phi_cent * 0
        b.records = nb
        b.dtime = h.np_().array(tm)
        b.ocb_ind, b.eab_ind = b.ocb_ind[:nb], b.eab_ind[:nb]
    else:
        recs = []
        rad = [h.real('r%d' % k, 5, 30) for k in range(nb)]
        for k in range(nb):
            recs.append(dict(other_record(k), time=tm[k], r=rad[k],
                             fom=2.0 if good[k] else 7.0))
            if simple:
                recs[k].update(rcent=0.0, phi=0.0)
        b = boundary(h, cls, hemi, blat * hemi, recs, -1)
        b.max_fom = 5.0
    b.rec_ind = start
    b.normal_coord = Located(h, b, hemi)
    return b, bt, rad, blat


def expect(h, offs, bt, good, tol, start):
    """Matched record of every data time, or None."""
    out = []
    for x in offs:
        best = None
        for k in range(max(start, 0), len(bt)):
            if not good[k]:
                continue
            dk = abs(bt[k] - x)
            if not h.decide(dk <= tol):
                continue
            if best is None:
                best = k
            else:
                h.assume(dk != abs(bt[best] - x))
                if h.decide(dk < abs(bt[best] - x)):
                    best = k
        out.append(best)
    return out


def user(x, unscaled, scaled):
    return x * 3 + unscaled * 0.25 - scaled * 0.5


def lines(path):
    with open(path, encoding='utf-8') as f:
        return f.read().split('\n')


def blank(d, name='in'):
    """An input file that the patched loader does not read."""
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write('placeholder\n')
    return p
