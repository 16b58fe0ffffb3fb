"""Tophat windows."""
import glass.shells as S
from symxp.engine import Case
from .common import Func, trapz, caught

FUNCTIONS = ["glass.shells.tophat_windows", "glass.shells.RadialWindow", "glass._array_api_utils.XPAdditions.trapezoid"]
BOUNDS = ("1 to 3 bins (4 thorough) with symbolic edges, symbolic grid spacing with at most 3 grid points per bin (5 for a single bin), "
          "arbitrary positive weight function values")
ASSUMPTIONS = ["the weight function returns finite positive values"]


def run(h, nb, weighted, maxn, zero):
    dz = h.real("dz", 1e-4, 1)
    zb = h.arr("z", nb + 1, 0, 0 if zero else 10, increasing=(0.01, 3))
    for i in range(nb):
        h.assume(zb[i + 1] - zb[i] <= (maxn + 0.49) * dz)
    keep = zb + 0
    wf = Func(h, "w", 0.1, 9) if weighted else None
    ws, warns = caught(lambda: S.tophat_windows(zb, dz, wf) if weighted else S.tophat_windows(zb, dz))
    h.same(len(ws), nb, "one window per bin")
    starts_at_zero = zero or h.branch(keep[0] == 0)
    h.fact(bool(len(warns)) == (not starts_at_zero), "warning exactly if the first edge is not zero")
    if weighted:
        h.same(len(wf.calls), nb, "weight evaluated once per window")
    for k, w in enumerate(ws):
        a, b = keep[k], keep[k + 1]
        n = w.za.shape[0]
        h.fact(n >= 2, "at least two grid points")
        h.same(tuple(w.wa.shape), (n,), "weights match the grid")
        h.eq(w.za[0], a, "window starts at the lower edge")
        h.eq(w.za[n - 1], b, "window ends at the upper edge")
        for i in range(n):
            h.eq(w.za[i] - a, (b - a) * i / (n - 1), "uniform grid")
        if n > 2:
            h.le((n - 1.5) * dz, b - a, "spacing not much finer than requested")
        h.le(b - a, (n + 1.0) * dz if n > 2 else 2.5 * dz, "spacing not much coarser than requested")
        if weighted:
            h.eq(wf.calls[k][0], w.za, "weight evaluated on the grid")
            h.eq(w.wa, wf.calls[k][1], "window carries the weight")
        else:
            for i in range(n):
                h.eq(w.wa[i], h.num(1.0), "window is one")
        num, den = trapz([w.wa[i] * w.za[i] for i in range(n)], w.za), trapz(w.wa, w.za)
        h.eq(w.zeff * den, num, "effective redshift is the weighted mean")
        h.le(a, w.zeff, "effective redshift within the bin (lower)")
        h.le(w.zeff, b, "effective redshift within the bin (upper)")
    h.eq(zb, keep, "edges unchanged")


def bad(h):
    h.raises(ValueError, lambda: S.tophat_windows(h.arr("a", (2, 2), 0, 1)), "two-dimensional edges are rejected")
    h.raises(ValueError, lambda: S.tophat_windows(h.arr("b", 1, 0, 1)), "a single edge is rejected")
    h.raises(ValueError, lambda: S.tophat_windows(h.arr("c", 0, 0, 1)), "no edges are rejected")
    h.raises(ValueError, lambda: S.tophat_windows(h.arr("d", (), 0, 1)), "zero-dimensional edges are rejected")


def cases(tier):
    big = tier != "quick"
    cs = [Case("invalid", bad)]
    for nb, maxn in ((1, 3), (1, 5 if not big else 8), (2, 3), (3, 2)) + (((4, 2), (2, 5)) if big else ()):
        for weighted in (False, True):
            for zero in (True, False):
                cs.append(Case(f"tophat-{nb}bins-n{maxn}-{'w' if weighted else '1'}-{'zero' if zero else 'free'}", run,
                               dict(nb=nb, weighted=weighted, maxn=maxn, zero=zero), timeout=100, max_paths=4000))
    return cs
