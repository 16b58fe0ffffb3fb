"""Tomographic redshift bins."""
import numpy as np
import glass.observations as O
from symxp.engine import Case
from .common import flat
from .C14 import lininterp

FUNCTIONS = ["glass.observations.fixed_zbins", "glass.observations.equal_dens_zbins", "glass.arraytools.cumulative_trapezoid", "glass._array_api_utils.XPAdditions.interp"]
BOUNDS = ("fixed bins: symbolic range, 1 to 6 bins (9 thorough) or a symbolic size with up to 5 bins (8 thorough); equal-density bins: distributions of 2 to 4 "
          "nodes (5 thorough) with symbolic redshifts and densities, including ranges of zero density, 1 to 4 bins (6 thorough)")
ASSUMPTIONS = ["ranges and sizes are positive; densities are not negative and not zero everywhere",
               "exact arithmetic: in floating point a range that is a multiple of the size up to rounding may be covered up to rounding"]
TOL = 1e-9


def pairs(h, bins):
    out = []
    for b in bins:
        h.same(len(b), 2, "bins are pairs of edges")
        out.append((b[0], b[1]))
    return out


def number(h, n):
    lo, hi = h.real("zmin", 0, 2), h.real("zmax", 0, 4)
    h.assume(lo < hi)
    bins = pairs(h, O.fixed_zbins(lo, hi, nbins=n, xp=h.xp))
    h.same(len(bins), n, "requested number of bins")
    for i, (a, b) in enumerate(bins):
        h.eq(a, lo + (hi - lo) * i / n, "equal bins from the minimum")
        h.eq(b, lo + (hi - lo) * (i + 1) / n, "equal bins to the maximum")
    for i in range(n - 1):
        h.eq(bins[i][1], bins[i + 1][0], "bins are contiguous")


def size(h, most, exact):
    lo, dz = h.real("zmin", 0, 2), h.real("dz", 0.125, 2)
    hi = lo + exact * dz if exact else h.real("zmax", 0, 4)
    h.assume(hi - lo >= 1e-6)
    h.assume(hi - lo <= most * dz)
    bins = pairs(h, O.fixed_zbins(lo, hi, dz=dz, xp=h.xp))
    h.fact(len(bins) > 0, "there are bins")
    if not bins:
        return
    h.eq(bins[0][0], lo, "bins start at the minimum")
    for a, b in bins:
        h.eq(b - a, dz, "bins have the requested size")
    for x, y in zip(bins[:-1], bins[1:]):
        h.eq(x[1], y[0], "bins are contiguous")
    h.true(bins[-1][1] >= hi - TOL, "bins cover the maximum")
    h.true(bins[-1][0] < hi + TOL, "no bin beyond the maximum")
    if exact and h.sym:
        h.same(len(bins), exact, "no empty extra bin")


def fixed(h, lo, hi, dz, n):
    """plain numbers (floating point as used)"""
    bins = pairs(h, O.fixed_zbins(lo, hi, dz=dz, xp=h.xp))
    h.same(len(bins), n, "no empty extra bin")
    x = h.real("x", lo, hi)
    inside = False
    for a, b in bins:
        inside = inside | ((a <= x + TOL) & (x <= b + TOL))
    h.true(inside, "every redshift is in a bin")


def invalid(h, both):
    lo, hi = h.real("zmin", 0, 1), h.real("zmax", 1.125, 2)
    kw = dict(nbins=2, dz=h.real("dz", 0.125, 1)) if both else {}
    h.raises(ValueError, lambda: O.fixed_zbins(lo, hi, xp=h.xp, **kw), "exactly one of number and size")


def dens(h, n, nbins, zfix=False, zero=()):
    if zfix:
        z = h.const(np.array([0.0, 0.5, 1.25, 1.5, 2.0, 3.0])[:n])
    else:
        z = h.arr("z", n, 0, 4)
        for i in range(n - 1):
            h.assume(z[i] < z[i + 1])
    nz = [h.real(f"n{i}", 0, 2) if i not in zero else h.num(0.0) for i in range(n)]
    nza = h.xp.stack([h.xp.asarray(v) for v in nz])
    zl = [z[i] for i in range(n)]
    cdf = [0.0]
    for i in range(n - 1):
        cdf.append(cdf[-1] + (zl[i + 1] - zl[i]) * (nz[i] + nz[i + 1]) / 2)
    h.assume(cdf[-1] > (0 if h.sym else 1e-6))
    kz, kn = z + 0, nza + 0
    bins = pairs(h, O.equal_dens_zbins(z, nza, nbins))
    h.same(len(bins), nbins, "requested number of bins")
    edges = [bins[0][0]] + [b for _, b in bins]
    for x, y in zip(bins[:-1], bins[1:]):
        h.eq(x[1], y[0], "bins are contiguous")
    if not zero:
        positive = h.branch((nz[0] + nz[1] > 0) & (nz[-1] + nz[-2] > 0))
    else:
        positive = 0 not in zero or 1 not in zero
    if positive:
        h.eq(edges[0], zl[0], "bins start with the distribution")
        h.eq(edges[-1], zl[-1], "bins end with the distribution")
    for e in edges:
        h.true(e >= zl[0] - TOL, "bins inside the range of the distribution")
        h.true(e <= zl[-1] + TOL, "bins inside the range of the distribution")
    for i in range(nbins):
        h.true(edges[i] <= edges[i + 1] + TOL, "edges do not decrease")
    for i, e in enumerate(edges):
        # cumulative distribution at the edge, in each interval that holds the edge
        for k in range(n - 1):
            c = (e >= zl[k]) & (e <= zl[k + 1])
            if h.branch(c):
                lhs = cdf[k] * (zl[k + 1] - zl[k]) + (e - zl[k]) * (cdf[k + 1] - cdf[k])
                h.eq(lhs * nbins, cdf[-1] * i * (zl[k + 1] - zl[k]), "equal shares of the cumulative distribution")
                break
        else:
            h.fact(not h.sym, "edge lies in an interval")
    h.eq(z, kz, "arguments unchanged")
    h.eq(nza, kn, "arguments unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150 if not big else 1500, max_paths=3000)
    cs = []
    for n in range(1, 7 if not big else 10):
        cs.append(Case(f"number-{n}", number, dict(n=n), **o))
        cs.append(Case(f"size-exact-{n}", size, dict(most=n, exact=n), **o))
    cs.append(Case("size", size, dict(most=5 if not big else 8, exact=0), **o))
    for lo, hi, dz, n in ((0.0, 1.0, 0.1, 10), (0.0, 0.3, 0.1, 3), (0.0, 1.0, 0.3, 4), (0.1, 0.7, 0.2, 3), (0.0, 2.0, 1.0, 2), (0.2, 1.1, 0.3, 3), (0.0, 0.25, 1.0, 1)):
        cs.append(Case(f"fixed-{lo}-{hi}-{dz}", fixed, dict(lo=lo, hi=hi, dz=dz, n=n), **o))
    for b in (True, False):
        cs.append(Case(f"invalid-{b}", invalid, dict(both=b), **o))
    for n in (2, 3, 4) if not big else (2, 3, 4, 5):
        for m in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 6):
            cs.append(Case(f"density-{n}-{m}", dens, dict(n=n, nbins=m, zfix=n > 3), **o))
    for zero in ((1, 2), (0, 1), (2, 3), (0, 1, 3)):
        cs.append(Case(f"density-gap-{zero}".replace(" ", ""), dens, dict(n=4, nbins=2, zfix=True, zero=zero), **o))
        cs.append(Case(f"density-gap-{zero}-3".replace(" ", ""), dens, dict(n=4, nbins=3, zfix=True, zero=zero), **o))
    return cs
