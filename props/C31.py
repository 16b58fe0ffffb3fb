"""Photometric redshifts."""
import numpy as np
import glass.galaxies as G
from symxp.engine import Case, FakeRNG
from .common import Draws, flat

FUNCTIONS = ["glass.galaxies.gaussian_phz", "glass.rng.Generator.normal"]
BOUNDS = ("scalars and arrays of 1 to 3 galaxies, scalar or array errors, default, scalar and array bounds, all symbolic; up to 3 rounds of draws "
          "(4 thorough), every pattern of acceptance and rejection")
ASSUMPTIONS = ["normal draws are arbitrary between -5 and 5 standard deviations; histories with more rejections are outside the bound"]


class Rounds(FakeRNG):
    """ends the history after too many rounds"""

    def __init__(self, h, n):
        super().__init__(h)
        self.left = n

    def _draw(self, *a, **k):
        if self.left == 0:
            self.h.assume(False)
        self.left -= 1
        return super()._draw(*a, **k)


def bound(h, name, spec, lo, hi):
    if spec is None or isinstance(spec, float):
        return spec
    if spec == "scalar":
        return h.real(name, lo, hi)
    return h.arr(name, spec, lo, hi)


def run(h, sz, ss, lower, upper, rounds):
    z = h.real("z", 0, 3) if sz is None else h.arr("z", sz, 0, 3)
    s = h.real("s", 0.03125, 1) if ss is None else h.arr("s", ss, 0.03125, 1)
    lo, up = bound(h, "lo", lower, -1, 3), bound(h, "up", upper, 0, 4)
    rng = Rounds(h, rounds)
    kw = {}
    if lo is not None:
        kw["lower"] = lo
    if up is not None:
        kw["upper"] = up
    l0, u0 = 0.0 if lo is None else lo, up
    dims = np.broadcast_shapes(sz or (), ss or ())
    if up is not None:
        h.assume(h.xp.all(h.xp.asarray(l0) < h.xp.asarray(u0)))
    kz, ks = z + 0, s + 0
    out = G.gaussian_phz(z, s, rng=rng, xp=h.xp, **kw)
    h.same(tuple(out.shape), dims, "one redshift per galaxy")
    d = Draws(h, rng, kinds=("normal", "standard_normal"))
    zs, ss_ = (flat(h, h.xp.broadcast_to(h.xp.asarray(x), dims)) for x in (kz, ks))
    ls = flat(h, h.xp.broadcast_to(h.xp.asarray(l0), dims))
    us = None if u0 is None else flat(h, h.xp.broadcast_to(h.xp.asarray(u0), dims))
    n = len(zs)
    for i, x in enumerate(flat(h, out)):
        h.true(x >= ls[i], "not below the lower bound")
        if us is not None:
            h.true(x <= us[i], "not above the upper bound")
        f = lambda q: zs[i] + (1 + zs[i]) * ss_[i] * q
        q = d.take(x, f)
        if q is not None:
            h.eq(x, f(q), "normal draw around the true redshift")
        # the first round has one draw per galaxy
        first = f(d.us[i])
        ok = first >= ls[i]
        if us is not None:
            ok = ok & (first <= us[i])
        if h.branch(ok):
            h.eq(x, first, "an accepted draw is kept")
    h.eq(z, kz, "true redshifts unchanged")
    h.eq(s, ks, "errors unchanged")


def invalid(h, kind):
    z = h.arr("z", 2, 0, 3)
    rng = Rounds(h, 3)
    if kind == "order":
        lo, up = h.real("lo", -1, 3), h.real("up", -1, 3)
        h.assume(lo >= up)
    elif kind == "order-default":
        lo, up = None, h.real("up", -1, 0)
    elif kind == "order-array":
        lo, up = h.arr("lo", 2, -1, 3), h.arr("up", 2, -1, 3)
        h.assume((lo[0] >= up[0]) | (lo[1] >= up[1]))
    elif kind == "order-mixed":
        lo, up = h.real("lo", -1, 3), h.arr("up", 2, -1, 3)
        h.assume((lo >= up[0]) | (lo >= up[1]))
    elif kind == "shape":
        lo, up = h.const(np.zeros(3)), h.const(np.ones(2))
    elif kind == "shape-z":
        lo, up = h.const(np.zeros(3)), h.const(np.ones(3))
    elif kind == "shape-lower":
        lo, up = h.const(np.zeros(3)), None
    elif kind == "shape-upper":
        lo, up = None, h.const(np.ones(3))
    h.raises(ValueError, lambda: G.gaussian_phz(z, 0.125, lower=lo, upper=up, rng=rng), "bounds are rejected")


def scalar_invalid(h):
    lo, up = h.real("lo", -1, 3), h.real("up", -1, 3)
    h.assume(lo >= up)
    h.raises(ValueError, lambda: G.gaussian_phz(h.real("z", 0, 1), 0.125, lower=lo, upper=up, rng=Rounds(h, 3), xp=h.xp), "bounds are rejected")


def cases(tier):
    big = tier != "quick"
    R = 3 if not big else 4
    o = dict(timeout=150 if not big else 1500, max_paths=6000)
    cs = []
    for lo, up in ((None, None), ("scalar", None), (None, "scalar"), ("scalar", "scalar")):
        cs.append(Case(f"scalar-{lo}-{up}", run, dict(sz=None, ss=None, lower=lo, upper=up, rounds=R), **o))
        cs.append(Case(f"one-{lo}-{up}", run, dict(sz=(1,), ss=None, lower=lo, upper=up, rounds=R), **o))
        cs.append(Case(f"two-{lo}-{up}", run, dict(sz=(2,), ss=None, lower=lo, upper=up, rounds=R if big else 2), **o))
    cs.append(Case("two-3", run, dict(sz=(2,), ss=None, lower=None, upper=None, rounds=3), **o))
    cs.append(Case("three", run, dict(sz=(3,), ss=None, lower=None, upper=None, rounds=2), **o))
    cs.append(Case("z-scalar", run, dict(sz=None, ss=(2,), lower=None, upper=1.5, rounds=2), **o))
    cs.append(Case("broadcast", run, dict(sz=(2, 1), ss=(2,), lower=None, upper=None, rounds=2), **o))
    cs.append(Case("sigma-array", run, dict(sz=(2,), ss=(2,), lower=None, upper="scalar", rounds=2), **o))
    cs.append(Case("array-bounds", run, dict(sz=(2,), ss=None, lower=(2,), upper=(2,), rounds=2), **o))
    cs.append(Case("array-lower", run, dict(sz=(2,), ss=None, lower=(2,), upper=None, rounds=2), **o))
    cs.append(Case("array-upper", run, dict(sz=(2,), ss=None, lower=None, upper=(2,), rounds=2), **o))
    cs.append(Case("array-upper-scalar-lower", run, dict(sz=(2,), ss=None, lower="scalar", upper=(2,), rounds=2), **o))
    cs.append(Case("negative-lower", run, dict(sz=(2,), ss=None, lower=-1.0, upper=2.0, rounds=2), **o))
    for k in ("order", "order-default", "order-array", "order-mixed", "shape", "shape-z", "shape-lower", "shape-upper"):
        cs.append(Case(f"invalid-{k}", invalid, dict(kind=k), **o))
    cs.append(Case("invalid-scalar", scalar_invalid, **o))
    return cs
