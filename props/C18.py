"""Weight functions of shells."""
import glass.shells as S
from symxp.engine import Case
from .common import Func

FUNCTIONS = ["glass.shells.DistanceWeight.__call__", "glass.shells.VolumeWeight.__call__", "glass.shells.DensityWeight.__call__"]
BOUNDS = "redshift arrays of 0 to 4 entries and shapes (), (2, 2); every value of every cosmology function"
ASSUMPTIONS = ["the Hubble function and the Hubble distance are not zero"]


class Cosmo:
    def __init__(self, h):
        self.h = h
        self.f = {k: Func(h, k, lo, 9) for k, lo in (("E", 0.1), ("T", -9), ("O", -9))}
        self.hubble_distance = h.real("dH", 0.1, 9)
        self.critical_density0 = h.real("rho", -9, 9)

    def H_over_H0(self, z): return self.f["E"](z)
    def transverse_comoving_distance(self, z, z2=None):
        self.h.fact(z2 is None, "distance from the observer")
        return self.f["T"](z)
    def Omega_m(self, z): return self.f["O"](z)
    def comoving_distance(self, z, z2=None): raise AssertionError("transverse distance is needed")


def run(h, kind, shape):
    c = Cosmo(h)
    z = h.arr("z", shape, 0, 9)
    keep = z + 0
    w = {"distance": S.DistanceWeight, "volume": S.VolumeWeight, "density": S.DensityWeight}[kind](c)
    h.fact(w.cosmo is c, "cosmology kept")
    out = w(z)
    h.same(tuple(out.shape), tuple(z.shape), "one weight per redshift")
    need = {"distance": "E", "volume": "ET", "density": "ETO"}[kind]
    for k in need:
        h.fact(len(c.f[k].calls) >= 1, f"function {k} evaluated")
        for a, _ in c.f[k].calls:
            h.eq(a, keep, f"function {k} evaluated at the redshifts")
    # one evaluation of each function defines the value (the functions give the same values again)
    E = c.f["E"].calls[0][1]
    want = 1 / E
    if kind != "distance":
        T = c.f["T"].calls[0][1] / c.hubble_distance
        want = T * T / E
    if kind == "density":
        want = want * c.f["O"].calls[0][1] * c.critical_density0
    h.eq(out, want, "weight formula")
    h.eq(z, keep, "redshifts unchanged")


def cases(tier):
    return [Case(f"{k}-{s}".replace(" ", ""), run, dict(kind=k, shape=s)) for k in ("distance", "volume", "density")
            for s in ((), (0,), (1,), (4,), (2, 2))]
