"""Restriction of a function to a window."""
import glass.shells as S
from symxp.engine import Case

FUNCTIONS = ["glass.shells.restrict", "glass.arraytools.ndinterp", "glass._array_api_utils.XPAdditions.interp"]
BOUNDS = ("function grids of 1 to 3 symbolic redshifts and window grids of 2 to 3 symbolic redshifts in every relative order including ties "
          "(4 each with partly fixed grids), symbolic values, leading axes (), (2,), (2, 1)")
ASSUMPTIONS = ["grids are strictly increasing"]


def lininterp(h, x, xs, ys, out):
    """piecewise linear interpolant, out(side) beyond the ends"""
    n = len(xs)
    if h.branch(x < xs[0]):
        return out(0)
    if h.branch(x > xs[n - 1]):
        return out(1)
    for i in range(n - 1):
        if h.branch(x <= xs[i + 1]):
            if h.branch(x == xs[i]):
                return ys[i]
            if h.branch(x == xs[i + 1]):
                return ys[i + 1]
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[n - 1]


def run(h, nz, nw, lead, zgrid=None, wgrid=None):
    z = h.arr("z", nz, 0, 5, increasing=(0.01, 3)) if zgrid is None else h.const(zgrid)
    za = h.arr("a", nw, 0, 5, increasing=(0.01, 3)) if wgrid is None else h.const(wgrid)
    wa = h.arr("w", nw, 0, 3)
    f = h.arr("f", lead + (nz,), -3, 3)
    kz, ka, kf, kw = z + 0, za + 0, f + 0, wa + 0
    w = S.RadialWindow(za, wa, 1.0)
    zr, fr = S.restrict(z, f, w)
    # expected grid: union of the window grid and the inner part of the function grid
    pts = [ka[i] for i in range(nw)]
    for i in range(nz):
        x = kz[i]
        if h.branch(x > ka[0]) and h.branch(x < ka[nw - 1]):
            if not any(h.branch(x == ka[j]) for j in range(nw)):
                pts.append(x)
    h.same(tuple(zr.shape), (len(pts),), "size of the union grid")
    m = zr.shape[0]
    for i in range(m - 1):
        h.true(zr[i] < zr[i + 1], "sorted without duplicates")
    for p in pts:
        h.true(_any(h, [zr[i] == p for i in range(m)]), "every grid point is present")
    h.same(tuple(fr.shape), lead + (m,), "shape of the restriction")
    fl = h.xp.reshape(fr, (-1, m)) if 0 not in lead else []
    fs = h.xp.reshape(kf, (-1, nz)) if 0 not in lead else []
    for r in range(len(fl) if not hasattr(fl, "shape") else fl.shape[0]):
        for i in range(m):
            a = lininterp(h, zr[i], kz, fs[r], lambda s: h.num(0.0))
            b = lininterp(h, zr[i], ka, kw, lambda s: h.num(0.0))
            h.eq(fr[r, i] if len(lead) == 1 else fl[r, i], a * b, "product of the interpolated functions")
    h.eq(z, kz, "function grid unchanged")
    h.eq(f, kf, "function unchanged")
    h.eq(za, ka, "window grid unchanged")
    h.eq(wa, kw, "window unchanged")


def _any(h, cs):
    r = cs[0]
    for c in cs[1:]:
        r = r | c
    return r


def bad(h):
    w = S.RadialWindow(h.arr("a", 2, 0, 1, increasing=(0.1, 1)), h.arr("w", 2, 0, 1), 0.5)
    z, f = h.arr("z", (2, 2)), h.arr("f", (2, 2))
    h.raises(ValueError, lambda: S.restrict(z, f, w), "two-dimensional grid is rejected")
    z0 = h.arr("z0", ())
    h.raises(ValueError, lambda: S.restrict(z0, f, w), "zero-dimensional grid is rejected")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=5000)
    cs = [Case("invalid", bad)]
    for nz, nw in ((1, 2), (2, 2), (1, 3), (2, 3), (3, 2)) + (((3, 3),) if big else ()):
        cs.append(Case(f"free-{nz}-{nw}", run, dict(nz=nz, nw=nw, lead=()), **o))
    for lead in ((2,), (2, 1)):
        cs.append(Case(f"lead-{lead}".replace(" ", ""), run, dict(nz=2, nw=2, lead=lead), **o))
    cs.append(Case("fixed-window", run, dict(nz=3 if not big else 4, nw=4, lead=(), wgrid=[0.25, 0.5, 1.0, 1.5]), **o))
    cs.append(Case("fixed-function", run, dict(nz=4, nw=3 if not big else 4, lead=(), zgrid=[0.25, 0.5, 1.0, 1.5]), **o))
    return cs
