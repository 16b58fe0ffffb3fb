"""Lensing maps from the convergence."""
import itertools
import math
import numpy as np
import glass.healpix as gh
import glass.lensing as L
from symxp.engine import Case

FUNCTIONS = ["glass.lensing.from_convergence", "glass.lensing.shear_from_convergence"]
BOUNDS = ("mode limits 0 to 5 (8 thorough) and the default for resolutions 1, 2, 4; symbolic complex modes, symbolic maps and pixel windows; every "
          "combination of requested outputs, with and without pixel window correction")
ASSUMPTIONS = ["the harmonic transforms and pixel windows are external: arbitrary modes, positive windows, arbitrary output maps"]


class Transforms:
    def __init__(self, h, nside):
        self.h, self.nside, self.calls, self.modes = h, nside, [], None
        for f in ("map2alm", "alm2map", "alm2map_spin", "almxfl", "pixwin", "get_nside"):
            h.stub(gh, f, getattr(self, f))

    def get_nside(self, m):
        self.h.fact(m.shape[-1] == 12 * self.nside ** 2, "resolution of the given map")
        return self.nside

    def map2alm(self, maps, *, lmax=None, pol=True, use_pixel_weights=False):
        h = self.h
        self.calls.append(("map2alm", maps + 0))
        self.lmax = 3 * self.nside - 1 if lmax is None else int(lmax)
        h.fact(use_pixel_weights is True, "transform uses pixel weights")
        n = (self.lmax + 1) * (self.lmax + 2) // 2
        self.modes = h.arr("re", n, -2, 2) + 1j * h.arr("im", n, -2, 2)
        return self.modes + 0

    def ells(self, n):
        lmax = int((math.isqrt(8 * n + 1) - 3) // 2)
        return [l for m in range(lmax + 1) for l in range(m, lmax + 1)]

    def almxfl(self, alm, fl, *, inplace=False):
        h = self.h
        ix = self.ells(alm.shape[0])
        f = h.xp.stack([h.xp.asarray(fl[l] if l < fl.shape[0] else 0.0) for l in ix])
        r = alm * f
        if inplace:
            alm[...] = r
            return alm
        return r

    def pixwin(self, nside, *, lmax=None, pol=False, xp=None):
        h = self.h
        h.fact(nside == self.nside, "pixel window of the given resolution")
        lm = 3 * nside - 1 if lmax is None else int(lmax)
        if not hasattr(self, "p0"):
            self.p0, self.p2 = h.arr("p0", lm + 1, 0.25, 1), h.arr("p2", lm + 1, 0.25, 1)
        return (self.p0 + 0, self.p2 + 0) if pol else self.p0 + 0

    def out(self, k):
        return self.h.arr(f"map{len(self.calls)}.{k}", 3, -1, 1)

    def alm2map(self, alms, nside, *, inplace=False, lmax=None, pixwin=False, pol=True):
        self.h.fact(not pixwin, "no pixel window applied by the transform")
        m = self.out(0)
        self.calls.append(("alm2map", alms + 0, nside, lmax, m))
        return m

    def alm2map_spin(self, alms, nside, spin, lmax):
        m = [self.out(0), self.out(1)]
        self.calls.append(("alm2map_spin", alms[0] + 0, nside, lmax, m, spin, alms[1] + 0))
        return m


def modes(h, t, got, fac, label):
    ix = t.ells(t.modes.shape[0])
    want = h.xp.stack([t.modes[i] * fac[l] for i, l in enumerate(ix)])
    h.same(tuple(got.shape), tuple(want.shape), label + ": number of modes")
    h.eq(got, want, label)


def root(h, k):
    return h.xp.sqrt(h.const(np.array([float(k)])))[0] if k > 0 else h.num(0.0)


def run(h, nside, lmax, potential, deflection, shear, discretized):
    t = Transforms(h, nside)
    kappa = h.const(np.zeros(12 * nside ** 2))
    for p in (0, 5):
        kappa[p] = h.real(f"k{p}", -1, 1)
    keep = kappa + 0
    kw = {} if discretized is None else dict(discretized=discretized)
    out = L.from_convergence(kappa, *(() if lmax is None else (lmax,)), potential=potential, deflection=deflection, shear=shear, **kw)
    h.fact(isinstance(out, tuple), "tuple of maps")
    h.same(len(out), potential + deflection + shear, "number of maps")
    h.eq(kappa, keep, "convergence unchanged")
    if not out:
        return
    lm = 3 * nside - 1 if lmax is None else lmax
    h.same(t.lmax, lm, "mode limit")
    h.eq(t.calls[0][1], keep, "transform of the given convergence")
    h.same(sum(c[0] == "map2alm" for c in t.calls), 1, "one forward transform")
    ells = range(lm + 1)
    psi = [h.num(0.0) if l == 0 else h.num(-2.0) / (l * (l + 1)) for l in ells]
    alp = [psi[l] * root(h, l * (l + 1)) for l in ells]
    gam = [alp[l] * root(h, (l - 1) * (l + 2)) / 2 for l in ells]
    if discretized is not False:
        if shear:
            gam = [g * t.p2[l] / t.p0[l] for l, g in enumerate(gam)]
    res = list(out)

    def find(m, spin):
        """the transform whose output was returned"""
        for c in t.calls[1:]:
            ok = c[0] == ("alm2map" if spin == 0 else "alm2map_spin") and (spin == 0 or c[5] == spin)
            if ok:
                o = c[4] if spin == 0 else c[4][0] + 1j * c[4][1]
                h.eq(m, o, f"spin-{spin} map is the transform")
                h.same((int(c[2]), 3 * nside - 1 if c[3] is None else int(c[3])), (nside, lm), "resolution and mode limit of the transform")
                if spin:
                    h.eq(c[6], h.const(np.zeros(c[6].shape[0])), "no B-modes")
                return c[1]
        h.fact(False, f"spin-{spin} transform missing")
    if potential:
        modes(h, t, find(res.pop(0), 0), psi, "modes of the potential")
    if deflection:
        modes(h, t, find(res.pop(0), 1), alp, "modes of the deflection")
    if shear:
        modes(h, t, find(res.pop(0), 2), gam, "modes of the shear")


def old(h, nside, lmax, discretized):
    t = Transforms(h, nside)
    kappa = h.arr("k", 12 * nside ** 2, -1, 1) if nside == 1 else h.const(np.zeros(12 * nside ** 2))
    keep = kappa + 0
    kw = {} if discretized is None else dict(discretized=discretized)
    out = L.shear_from_convergence(kappa, *(() if lmax is None else (lmax,)), **kw)
    h.same(len(out), 2, "two components")
    lm = 3 * nside - 1 if lmax is None else lmax
    c = [c for c in t.calls if c[0] == "alm2map_spin"]
    h.same((len(c), c[0][5], int(c[0][2]), int(c[0][3])), (1, 2, nside, lm), "one spin-2 transform")
    h.eq(out[0], c[0][4][0], "first component")
    h.eq(out[1], c[0][4][1], "second component")
    gam = [h.num(0.0)] + [-1 * root(h, (l - 1) * (l + 2)) * root(h, l * (l + 1)) / (l * (l + 1)) for l in range(1, lm + 1)]
    if discretized is not False:
        gam = [g * t.p2[l] / t.p0[l] for l, g in enumerate(gam)]
    modes(h, t, c[0][1], gam, "modes of the shear")
    h.eq(c[0][6], h.const(np.zeros(c[0][6].shape[0])), "no B-modes")
    h.eq(kappa, keep, "convergence unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=400)
    cs = []
    for nside, lmax in [(1, None), (1, 0), (1, 1), (2, 3), (2, 5), (1, 4)] + ([(2, None), (4, 8), (2, 7), (4, None)] if big else []):
        for p, d, s in itertools.product((False, True), repeat=3):
            for disc in (None, True, False) if s else (None,):
                cs.append(Case(f"maps-{nside}-{lmax}-{p:d}{d:d}{s:d}-{disc}", run,
                               dict(nside=nside, lmax=lmax, potential=p, deflection=d, shear=s, discretized=disc), **o))
        for disc in (None, True, False):
            cs.append(Case(f"shear-{nside}-{lmax}-{disc}", old, dict(nside=nside, lmax=lmax, discretized=disc), **o))
    return cs
