"""Intrinsic alignments."""
import numpy as np
import glass.galaxies as G
from symxp.engine import Case

FUNCTIONS = ["glass.galaxies._kappa_ia_nla"]
BOUNDS = "maps of 1 to 3 pixels and shapes (2, 2), symbolic amplitude, redshifts, luminosities, exponents and cosmology; default parameters"
ASSUMPTIONS = ["positive growth factor, Hubble parameter and critical density"]


class Cosmo:
    def __init__(self, h):
        self.h_, self.calls = h, []
        self.h = h.real("h", 0.5, 1)
        self.critical_density0 = h.real("rho", 0.5, 8) * 1e11
        self.D = h.real("D", 0.25, 1)
        self.Omega_m0 = h.real("om", 0, 1)

    def growth_factor(self, z):
        self.calls.append(z)
        return self.D


def run(h, shape, names):
    delta = h.arr("d", shape, -1, 4)
    keep = delta + 0
    z = h.real("zeff", 0, 3)
    a = h.real("a", -5, 5)
    p = dict(z0=0.0, eta=0.0, lbar=0.0, l0=1e-9, beta=0.0)
    kw = {}
    for n in names:
        if n in ("eta", "beta"):
            kw[n] = h.real(n, -3, 3)
        elif n in ("eta2", "beta2"):
            kw[n[:-1]] = 2.0
        else:
            kw[n] = h.real(n, 0 if n == "z0" else 0.125, 4)
    p.update(kw)
    c = Cosmo(h)
    out = G._kappa_ia_nla(delta, z, a, c, **kw)
    h.same(tuple(out.shape), tuple(keep.shape), "shape of the map")
    h.true(len(c.calls) >= 1, "growth factor used")
    for q in c.calls:
        h.eq(q, z, "growth factor at the effective redshift")
    amp = -1 * a * (5e-14 / c.h ** 2 * c.critical_density0) * c.Omega_m0 / c.D
    if "eta" in kw:
        amp = amp * ((1 + z) / (1 + p["z0"])) ** p["eta"]
    if "beta" in kw or "lbar" in kw:
        amp = amp * (p["lbar"] / p["l0"]) ** p["beta"]
    h.eq(out, keep * amp, "non-linear alignment")
    h.eq(delta, keep, "density contrast unchanged")


def cases(tier):
    o = dict(timeout=60)
    cs = []
    for s in (1, 3, (2, 2)):
        for names in ((), ("z0",), ("eta2",), ("eta",), ("z0", "eta"), ("z0", "eta2"), ("lbar",), ("lbar", "beta"), ("lbar", "l0", "beta2"), ("lbar", "l0", "beta"),
                      ("z0", "eta", "lbar", "l0", "beta")):
            cs.append(Case(f"nla-{s}-{'-'.join(names)}".replace(" ", ""), run, dict(shape=s, names=names), **o))
    return cs
