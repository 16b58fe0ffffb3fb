"""Triangular and cubic windows."""
import glass.shells as S
from symxp.engine import Case
from .common import Func, caught

FUNCTIONS = ["glass.shells.linear_windows", "glass.shells.cubic_windows", "glass.shells.RadialWindow"]
BOUNDS = ("1 to 3 windows with symbolic nodes, symbolic grid spacing with at most 3 grid points per interval (5 for a single window), "
          "arbitrary weight function values")
ASSUMPTIONS = ["the weight function returns finite values"]


def shape(kind, x):
    return x if kind == "linear" else x * x * (3 - 2 * x)


def run(h, kind, nw, weighted, maxn, zero):
    f = S.linear_windows if kind == "linear" else S.cubic_windows
    dz = h.real("dz", 1e-4, 1)
    zg = h.arr("z", nw + 2, 0, 0 if zero else 10, increasing=(0.01, 3))
    for i in range(nw + 1):
        h.assume(zg[i + 1] - zg[i] <= (maxn + 0.49) * dz)
    keep = zg + 0
    wf = Func(h, "w", -9, 9) if weighted else None
    ws, warns = caught(lambda: f(zg, dz, wf) if weighted else f(zg, dz))
    h.same(len(ws), nw, "one window per inner node")
    h.fact(bool(len(warns)) == (not (zero or h.branch(keep[0] == 0))), "warning exactly if the first node is not zero")
    if weighted:
        h.same(len(wf.calls), nw, "weight evaluated once per window")
    for k, w in enumerate(ws):
        a, b, c = keep[k], keep[k + 1], keep[k + 2]
        n = w.za.shape[0]
        h.same(tuple(w.wa.shape), (n,), "weights match the grid")
        h.eq(w.zeff, b, "effective redshift is the node")
        h.eq(w.za[0], a, "starts at the lower node")
        h.eq(w.za[n - 1], c, "ends at the upper node")
        if weighted:
            h.eq(wf.calls[k][0], w.za, "weight evaluated on the grid")
        mid = 0
        for i in range(n):
            z = w.za[i]
            if i:
                h.true(w.za[i - 1] < z, "strictly increasing grid")
            if h.branch(z <= b):
                mid = i
                # value * (interval)^p avoids division
                want = shape(kind, (z - a) / (b - a))
            else:
                want = shape(kind, (c - z) / (c - b))
            if weighted:
                want = want * wf.calls[k][1][i]
            h.eq(w.wa[i], want, "window follows its shape")
        h.eq(w.za[mid], b, "middle node is a grid point")
        for lo, hi, m in ((a, b, mid), (b, c, n - 1 - mid)):
            h.fact(m >= 1, "at least one step per interval")
            if m > 1:
                h.le((m - 0.5) * dz, hi - lo, "spacing not much finer than requested")
            h.le(hi - lo, (m + 2.0) * dz if m > 1 else 2.5 * dz, "spacing not much coarser than requested")
        for lo, cnt, off, width in ((a, mid, 0, b - a), (b, n - 1 - mid, mid, c - b)):
            for i in range(cnt + 1):
                h.eq(w.za[off + i] - lo, width * i / cnt, "uniform grid within the interval")
    h.eq(zg, keep, "nodes unchanged")


def bad(h):
    a, b, c, d = h.arr("a", (3, 3), 0, 1), h.arr("b", 2, 0, 1), h.arr("c", 0, 0, 1), h.arr("d", (), 0, 1)
    for f in (S.linear_windows, S.cubic_windows):
        h.raises(ValueError, lambda: f(a), "two-dimensional nodes are rejected")
        h.raises(ValueError, lambda: f(b), "two nodes are rejected")
        h.raises(ValueError, lambda: f(c), "no nodes are rejected")
        h.raises(ValueError, lambda: f(d), "zero-dimensional nodes are rejected")


def cases(tier):
    big = tier != "quick"
    cs = [Case("invalid", bad)]
    for kind in ("linear", "cubic"):
        for nw, maxn in ((1, 3), (1, 5 if not big else 7), (2, 2)) + (((2, 4), (3, 3)) if big else ((3, 1),)):
            for weighted in (False, True):
                for zero in (True, False):
                    cs.append(Case(f"{kind}-{nw}windows-n{maxn}-{'w' if weighted else '1'}-{'zero' if zero else 'free'}", run,
                                   dict(kind=kind, nw=nw, weighted=weighted, maxn=maxn, zero=zero), timeout=100, max_paths=4000))
    return cs
