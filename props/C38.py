"""Tomographic redshift distributions."""
import math
import numpy as np
import glass.observations as O
from symxp.engine import Case
from .common import flat

FUNCTIONS = ["glass.observations.tomo_nz_gausserr", "glass._array_api_utils.XPAdditions.vectorize"]
BOUNDS = ("1 to 3 symbolic redshifts (4 thorough) with symbolic densities, 1 to 3 symbolic bins (4 thorough), contiguous, overlapping, empty or open-ended; symbolic error")
ASSUMPTIONS = ["the error function is an odd, strictly increasing function with values between -1 and 1", "redshifts are not negative, the error is positive"]


def inputs(h, n):
    z = h.arr("z", n, 0, 4)
    nz = h.arr("nz", n, 0, 3)
    s = h.real("sigma0", 0.0078125, 1)
    return z, nz, s


def erf(h, x):
    if h.sym:
        from symxp.array import elem
        from symxp.scalar import e_erf
        return h.scalar(e_erf(elem(x)))
    return math.erf(float(x))


def prob(h, z, s, lo, hi):
    """unnormalised probability and norm"""
    w = 2 ** 0.5 * s * (1 + z)
    return erf(h, (z - lo) / w) - erf(h, (z - hi) / w), 1 + erf(h, z / w)


def formula(h, n, m, kind="free"):
    z, nz, s = inputs(h, n)
    if kind == "contiguous":
        e = [h.real(f"e{i}", 0, 4) for i in range(m + 1)]
        for a, b in zip(e[:-1], e[1:]):
            h.assume(a <= b)
        bins = list(zip(e[:-1], e[1:]))
    else:
        bins = [(h.real(f"lo{i}", 0, 4), h.real(f"hi{i}", 0, 5)) for i in range(m)]
        for a, b in bins:
            h.assume(a <= b)
    kz, kn, ks = z + 0, nz + 0, s + 0
    out = O.tomo_nz_gausserr(z, nz, s, bins)
    h.same(tuple(out.shape), (m, n), "one distribution per bin")
    for k, (a, b) in enumerate(bins):
        for i in range(n):
            p, t = prob(h, kz[i], ks, a, b)
            h.eq(out[k, i] * t, p * kn[i], "total times the truncated Gaussian probability")
            h.true(out[k, i] >= -1e-12, "probability is not negative")
            h.true(out[k, i] <= kn[i] + 1e-12, "probability is at most one")
    if kind == "contiguous" and m > 1:
        one = O.tomo_nz_gausserr(z, nz, s, [(bins[0][0], bins[-1][1])])
        for i in range(n):
            t = 0.0
            for k in range(m):
                t = t + out[k, i]
            h.eq(t, one[0, i], "contiguous bins add up")
    h.eq(z, kz, "arguments unchanged")
    h.eq(nz, kn, "arguments unchanged")


def complete(h, n, m):
    z, nz, s = inputs(h, n)
    e = [0.0] + [h.real(f"e{i}", 0, 4) for i in range(m - 1)] + [math.inf]
    for a, b in zip(e[1:-2], e[2:-1]):
        h.assume(a <= b)
    out = O.tomo_nz_gausserr(z, nz, s, list(zip(e[:-1], e[1:])))
    h.same(tuple(out.shape), (m, n), "one distribution per bin")
    for i in range(n):
        t = 0.0
        for k in range(m):
            t = t + out[k, i]
        h.eq(t, nz[i], "bins over all positive redshifts recover the total")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120 if not big else 1500, max_paths=2000)
    cs = []
    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        for m in (1, 2, 3) if not big else (1, 2, 3, 4):
            cs.append(Case(f"free-{n}-{m}", formula, dict(n=n, m=m), **o))
            cs.append(Case(f"contiguous-{n}-{m}", formula, dict(n=n, m=m, kind="contiguous"), **o))
            cs.append(Case(f"complete-{n}-{m}", complete, dict(n=n, m=m), **o))
    return cs
