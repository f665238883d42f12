"""Shared builders for the harnesses."""
import datetime as dt

from symx import core, npshim

T0 = dt.datetime(2005, 6, 20, 3, 17, 42, 500000)
T1 = dt.datetime(2011, 12, 3, 14, 5, 8)


class UFunc(object):
    """Uninterpreted function of one array argument and keyword constants.

    Equal arguments (modulo `period`) and keywords give equal results;
    different ones are unrelated.  Serves as a user-supplied radius function.
    """

    def __init__(self, h, name, lo, hi, period=24):
        self.h, self.name, self.lo, self.hi = h, name, lo, hi
        self.period = period
        self.table = []
        self.calls = 0

    def one(self, x, kw):
        h = self.h
        if h.is_nan(x):
            return core.NAN
        x = core.lift(x) if h.sym else float(x)
        for k, y, out in self.table:
            if k == kw and h.aacgm.same(x, y, self.period):
                return out
        out = h.real(h.name(self.name), self.lo, self.hi)
        self.table.append((kw, x, out))
        return out

    def __call__(self, x, **kw):
        self.calls += 1
        kw = tuple(sorted((k, repr(v)) for k, v in kw.items()))
        if isinstance(x, npshim._nd):
            vals = list((x.raw if isinstance(x, npshim.SArr) else x)
                        .reshape(-1))
            out = [self.one(v, kw) for v in vals]
            if x.ndim == 0:
                return self.h.arr(out[0]) if self.h.sym else \
                    npshim.np.float64(out[0])
            return self.h.arr(out).reshape(x.shape)
        return self.one(x, kw)


def boundary(h, cls, hemi, blat, recs, rec_ind=0, **kw):
    """A boundary object holding the given records.

    recs: list of dicts with time, phi, rcent, r, rfunc, kwargs, fom, ...
    """
    import ocbpy
    c = getattr(ocbpy, cls)
    o = c(filename=None, instrument='image', hemisphere=hemi,
          boundary_lat=74.0 if hemi > 0 else -74.0, **kw)
    o.boundary_lat = blat
    fill(h, o, recs, rec_ind)
    return o


def fill(h, o, recs, rec_ind=0):
    np = h.np_()
    o.filename = 'symbolic'
    o.records = len(recs)
    o.dtime = np.array([r.get('time', T0) for r in recs])
    o.phi_cent = h.arr([r['phi'] for r in recs])
    o.r_cent = h.arr([r['rcent'] for r in recs])
    o.r = h.arr([r['r'] for r in recs])
    rf = np.full(shape=(len(recs),), fill_value=None, dtype=object)
    rk = np.full(shape=(len(recs),), fill_value=None, dtype=object)
    import ocbpy
    for i, r in enumerate(recs):
        rf[i] = r.get('rfunc', ocbpy.ocb_correction.circular)
        rk[i] = r.get('kwargs', {})
    o.rfunc, o.rfunc_kwargs = rf, rk
    skip = ('time', 'phi', 'rcent', 'r', 'rfunc', 'kwargs')
    for k in (recs[0] if recs else {}):
        if k not in skip:
            setattr(o, k, h.arr([r[k] for r in recs]))
    o.rec_ind = rec_ind


def cap(h, i, D=False, ang=None):
    """Symbolic geometry of record i: (record dict, phi half-turns)."""
    g = h.angle('phi%s' % i, -1, 1)
    d = h.real('rcent%s' % i, 0, 20)
    r = h.real('r%s' % i, 1, 40)
    return dict(phi=g * 180, rcent=d, r=r), g


def other_record(i):
    """A concrete record that must not influence the result."""
    return dict(phi=33.0 + 17 * i, rcent=3.5 + i, r=11.25 + i)


def shapes(tier):
    return ['0', '1', '2'] if tier == 'quick' else ['0', '1', '2', '3']


def dual(h, hemi, orec=None, erec=None, ind=1, ol=74.0, el=64.0, extra=0,
         max_delta=60, off=10):
    """A dual boundary with two or more pairs.

    The OCB has an unpaired record in front and the EAB two, so that pair k
    joins OCB record k+1 and EAB record k+2.  `orec` and `erec` are the
    geometries of pair `ind`.
    """
    import ocbpy
    npair = 2 + extra
    tm = [T1 + dt.timedelta(seconds=600 * (i + 1)) for i in range(npair)]
    orecs, erecs = [], []
    for i in range(npair + 1):
        r = dict(other_record(i))
        if orec is not None and i == ind + 1:
            r.update(orec)
        r.update(time=T1 if i == 0 else tm[i - 1], fom=2.0, num_sectors=12)
        orecs.append(r)
    for i in range(npair + 2):
        r = dict(other_record(i), r=21.5 + i)
        if erec is not None and i == ind + 2:
            r.update(erec)
        t = (T1 - dt.timedelta(seconds=900 - 100 * i) if i < 2 else
             tm[i - 2] + dt.timedelta(seconds=off))
        r.update(time=t, fom=2.0, num_sectors=12)
        erecs.append(r)
    o = boundary(h, 'OCBoundary', hemi, hemi * 74.0, orecs, -1)
    e = boundary(h, 'EABoundary', hemi, hemi * 64.0, erecs, -1)
    o.boundary_lat = ol * hemi
    e.boundary_lat = el * hemi
    d = ocbpy.DualBoundary(eab=e, ocb=o, hemisphere=hemi, max_delta=max_delta)
    d.rec_ind = ind
    return d, dict(npair=npair, ocb=ind + 1, eab=ind + 2, times=tm)


def instant(h, sec, base=T0):
    """The datetime `sec` seconds after `base`."""
    from symx import times
    if h.sym:
        return times.STime(core.lift(sec) + core.lift(times.secs_of(base)))
    return base + dt.timedelta(microseconds=int(round(float(sec) * 1e6)))


def ladder(h, name, n, first=(0, 0), strict=False, hi=400,
           lo=0.0078125):
    """n ordered instants (seconds) with free gaps."""
    out = []
    for i in range(n):
        if i == 0:
            t = h.real(name + '0', *first) if first[0] != first[1] else \
                h.const(first[0])
        else:
            t = out[-1] + h.real('%sgap%d' % (name, i),
                                 lo if strict else 0, hi)
        out.append(t)
    return out
