"""Uniform redshift and distance grids."""
import glass.shells as S
import numpy as np
from symxp.engine import Case
from .common import Func

FUNCTIONS = ["glass.shells._uniform_grid", "glass.shells.redshift_grid", "glass.shells.distance_grid"]
BOUNDS = "symbolic range, 1 to 6 steps (9 thorough), or a symbolic step size with up to 6 steps (9 thorough)"
ASSUMPTIONS = ["step sizes are positive and the maximum is above the minimum; exact arithmetic (the number of points of a grid whose range is "
               "a multiple of the step may differ by the last point in floating point)"]


class Cosmo:
    def __init__(self, h, a, b, x, y):
        self.h, self.m, self.inv = h, ((a, x), (b, y)), Func(h, "inv", 0, 9)

    def comoving_distance(self, z, z2=None):
        for a, x in self.m:
            if self.h.branch(z == a):
                return self.h.xp.asarray(x)
        self.h.fact(False, "distance of an end of the range")
        return self.h.xp.asarray(self.m[0][1])

    def inv_comoving_distance(self, x):
        return self.inv(x)


def check(h, g, a, b, num, step):
    n = g.shape[0]
    h.same(len(g.shape), 1, "one-dimensional grid")
    h.eq(g[0], a, "starts at the minimum")
    if num is not None:
        h.same(n, num + 1, "number of steps")
        for i in range(n):
            h.eq(g[i] - a, (b - a) * i / num, "equal steps up to the maximum")
    else:
        for i in range(n):
            h.eq(g[i] - a, step * i, "spacing")
        h.le(b, g[n - 1], "covers the maximum")
        h.le(g[n - 1], b + step, "at most one step beyond the maximum")


def grid(h, mode, N, kind):
    a = h.real("a", 0, 5)
    b = a + h.real("d", 0.01, 5)
    kw, step = {}, None
    xp = h.xp
    if mode == "num":
        kw["num"] = N
    else:
        step = h.real("s", 0.001, 5)
        kw["dz" if kind == "redshift" else "dx"] = step
    if kind == "redshift":
        if mode == "step":
            h.assume(b - a <= (N + 0.5) * step)
        g = S.redshift_grid(a, b, xp=xp, **kw)
        check(h, g, a, b, N if mode == "num" else None, step)
    else:
        x = h.real("x", 0, 5)
        y = x + h.real("e", 0.01, 5)
        if mode == "step":
            h.assume(y - x <= (N + 0.5) * step)
        c = Cosmo(h, a, b, x, y)
        r = S.distance_grid(c, a, b, **kw)
        h.same(len(c.inv.calls), 1, "one inversion")
        check(h, c.inv.calls[0][0], x, y, N if mode == "num" else None, step)
        h.eq(r, c.inv.calls[0][1], "redshifts of the distances")


def args(h):
    a, b = 0.0, 1.0
    one = h.real("one", 0.1, 1)
    c = Cosmo(h, a, b, h.real("x", 0, 1), h.real("y", 2, 3))
    h.raises(ValueError, lambda: S.redshift_grid(a, b, xp=h.xp), "neither step nor number")
    h.raises(ValueError, lambda: S.redshift_grid(a, b, dz=one, num=3, xp=h.xp), "both step and number")
    h.raises(ValueError, lambda: S.distance_grid(c, a, b), "neither step nor number (distance)")
    h.raises(ValueError, lambda: S.distance_grid(c, a, b, dx=one, num=3), "both step and number (distance)")


def cases(tier):
    big = tier != "quick"
    cs = [Case("arguments", args)]
    for kind in ("redshift", "distance"):
        for N in range(1, 10 if big else 7):
            cs.append(Case(f"{kind}-num{N}", grid, dict(mode="num", N=N, kind=kind)))
        cs.append(Case(f"{kind}-step", grid, dict(mode="step", N=9 if big else 6, kind=kind), timeout=100))
    return cs
