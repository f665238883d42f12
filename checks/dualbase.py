"""Common parts of the dual-boundary harnesses."""
from checks.common import UFunc, cap, dual
from symx.harness import flat


class Case(object):
    """A dual boundary with symbolic geometry and the oracle for it."""

    # geometry: 'zero' centres on the pole (the boundary latitudes are free at
    # every MLT through the correction functions), 'merid' centres on the
    # meridian of the positions, 'conc' 'pyth' numeric
    # centres off that meridian
    def __init__(self, h, hemi, ind=1, const=False, corr=True, sym_lat=True,
                 geo='zero', **kw):
        self.h, self.hemi = h, hemi
        if geo == 'full':
            orec, self.gO = cap(h, 'O')
            erec, self.gE = cap(h, 'E')
        elif geo == 'zero':
            self.gO, self.gE = h.frac(1, 6), h.frac(-1, 2)
            orec = dict(phi=30.0, rcent=0.0, r=h.real('rO', 1, 40))
            erec = dict(phi=-90.0, rcent=0.0, r=h.real('rE', 1, 40))
        elif geo == 'merid':
            self.gO, self.gE = h.frac(1, 2), h.frac(-1, 2)
            orec = dict(phi=90.0, rcent=h.real('dO', 0, 20, ex=True),
                        r=h.real('rO', 1, 40))
            erec = dict(phi=-90.0, rcent=h.real('dE', 0, 20, ex=True),
                        r=h.real('rE', 1, 40))
        elif geo == 'pyth':
            # rational radii at right angles to the centres
            self.gO, self.gE = h.frac(1, 2), h.frac(-1, 2)
            orec = dict(phi=90.0, rcent=5.0, r=11.75)
            erec = dict(phi=-90.0, rcent=7.0, r=25.5)
            const = True
        else:
            self.gO, self.gE = h.frac(1, 6), h.frac(4, 3)
            orec = dict(phi=30.0, rcent=4.0, r=13.5)
            erec = dict(phi=240.0, rcent=2.5, r=24.0)
        if const:
            self.rfO = lambda x, **k: x * 0 + 1.25
            self.rfE = lambda x, **k: x * 0 - 0.5
        elif corr:
            self.rfO = UFunc(h, 'co', -0.5, 5)
            self.rfE = UFunc(h, 'ce', -0.5, 5)
        else:
            import ocbpy
            self.rfO = self.rfE = ocbpy.ocb_correction.circular
        self.kO, self.kE = {'a': 1}, {'b': 2}
        if not corr and not const:
            self.kO = self.kE = {}
        orec.update(rfunc=self.rfO, kwargs=self.kO)
        erec.update(rfunc=self.rfE, kwargs=self.kE)
        self.O, self.E = orec, erec
        if sym_lat:
            self.ol = h.real('ol', 70, 85)
            self.el = h.real('el', 50, 69)
        else:
            self.ol, self.el = h.const(74.0), h.const(64.0)
        self.d, self.info = dual(h, hemi, orec, erec, ind=ind, ol=self.ol,
                                 el=self.el, **kw)
        self.ind = ind

    def corrO(self, mlt):
        return self.rfO(mlt, **self.kO)

    def radius(self, rec, g, R, f):
        """Co-latitude of a boundary at half-turn f (pole inside it)."""
        h = self.h
        h.assume(rec['rcent'] < R)
        c, s = h.cs(f)
        cp, sp = h.cs(g)
        d = rec['rcent']
        return d * (c * cp + s * sp) + h.sqrt(
            R * R - (d * (s * cp - c * sp)) * (d * (s * cp - c * sp)))

    def bounds(self, mlt, f):
        """AACGM latitudes (absolute) of the OCB and EAB at the MLT."""
        h = self.h
        RO = self.O['r'] + self.rfO(mlt, **self.kO)
        RE = self.E['r'] + self.rfE(mlt, **self.kE)
        bO = 90 - self.radius(self.O, self.gO, RO, f)
        bE = 90 - self.radius(self.E, self.gE, RE, f)
        h.assume(bE < bO)
        h.assume(bE > 0)
        return bO, bE

    def region(self, L, bO, bE, region):
        h = self.h
        if region == 'pole':
            h.assume(L >= bO)
            h.assume(L < 90)
        elif region == 'mid':
            h.assume(L < bO)
            h.assume(L >= bE)
        else:
            h.assume(L < bE)
            h.assume(L > 0)

    def want(self, L, bO, bE, region, alone):
        """Expected dual-boundary latitude (absolute)."""
        if region == 'pole':
            return alone * self.hemi
        if region == 'mid':
            return self.ol + (L - bO) * (self.ol - self.el) / (bO - bE)
        return self.el * L / bE
