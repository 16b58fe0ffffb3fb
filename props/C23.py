"""Bias models and effective bias."""
import numpy as np
import glass.points as P
import glass.shells as S
from symxp.engine import Case
from .common import trapz
from .C14 import lininterp, _any

FUNCTIONS = ["glass.points.linear_bias", "glass.points.loglinear_bias", "glass.points.effective_bias", "glass.arraytools.trapezoid_product"]
BOUNDS = ("arrays of up to 3 contrasts and shapes (2, 2); bias functions of 2 or 3 and windows of 2 or 3 symbolic redshifts in every relative "
          "order with overlapping ranges (4 with fixed grids)")
ASSUMPTIONS = ["density contrasts above -1 for the log-linear model", "the window has a positive integral"]


def linear(h, sd, sb):
    d = h.arr("d", sd, -5, 5)
    b = h.real("b", -5, 5) if sb == "scalar" else h.arr("b", sb, -5, 5)
    kd = d + 0
    out = P.linear_bias(d, b)
    h.eq(out, kd * b, "linear bias")
    h.eq(d, kd, "contrast unchanged")


def loglinear(h, sd, sb):
    d = h.arr("d", sd, -1, 5, lo_open=True)
    b = h.real("b", -3, 3) if sb == "scalar" else h.arr("b", sb, -3, 3)
    kd = d + 0
    kb = b + 0
    out = P.loglinear_bias(d, b)
    xp = h.xp
    h.same(tuple(out.shape), np.broadcast_shapes(sd, () if sb == "scalar" else sb), "shape")
    h.eq(out + 1, xp.exp(kb * xp.log(1 + kd)), "log-linear bias")
    h.true(xp.all(out > -1), "contrast stays above -1")
    h.eq(d, kd, "contrast unchanged")
    h.eq(b, kb, "bias unchanged")


def integer_power(h, b, n):
    d = h.arr("d", n, -1, 5, lo_open=True)
    kd = d + 0
    out = P.loglinear_bias(d, b)
    for i in range(n):
        w = h.num(1.0)
        for _ in range(abs(b)):
            w = w * (1 + kd[i])
        if b < 0:
            h.eq((out[i] + 1) * w, h.num(1.0), "power of the density")
        else:
            h.eq(out[i] + 1, w, "power of the density")


def effective(h, nz, nw, const, zg=None, wg=None):
    z = h.arr("z", nz, 0, 4, increasing=(0.01, 3)) if zg is None else h.const(zg)
    za = h.arr("a", nw, 0, 4, increasing=(0.01, 3)) if wg is None else h.const(wg)
    wa = h.arr("w", nw, 0, 3)
    if const:
        c = h.real("c", -3, 3)
        bz = h.xp.stack([h.xp.asarray(c)] * nz)
        h.assume(z[0] <= za[0])
        h.assume(z[nz - 1] >= za[nw - 1])
    else:
        bz = h.arr("b", nz, -3, 3)
        h.assume(z[0] < za[nw - 1])
        h.assume(z[nz - 1] > za[0])
    den = trapz(wa, za)
    h.assume(den >= 0.01)
    keep = [x + 0 for x in (z, bz, za, wa)]
    w = S.RadialWindow(za, wa, 1.0)
    out = P.effective_bias(z, bz, w)
    for x, k in zip((z, bz, za, wa), keep):
        h.eq(x, k, "inputs unchanged")
    if const:
        h.eq(out, c, "constant bias")
        return
    # union grid over the common range
    lo = z[0] if h.branch(z[0] >= za[0]) else za[0]
    hi = z[nz - 1] if h.branch(z[nz - 1] <= za[nw - 1]) else za[nw - 1]
    pts = [za[i] for i in range(nw)] + [z[i] for i in range(nz)]
    pts = [p for p in pts if h.branch(p >= lo) and h.branch(p <= hi)]
    pts = _sort(h, pts)
    y = [lininterp(h, p, z, bz, lambda s: h.num(0.0)) * lininterp(h, p, za, wa, lambda s: h.num(0.0)) for p in pts]
    h.eq(out * den, trapz(y, pts), "weighted average over the common range")


def _sort(h, pts):
    out = []
    for p in pts:
        i = 0
        dup = False
        while i < len(out):
            if h.branch(p == out[i]):
                dup = True
                break
            if h.branch(p < out[i]):
                break
            i += 1
        if not dup:
            out.insert(i, p)
    return out


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=6000)
    cs = []
    for sd, sb in (((3,), "scalar"), ((3,), (3,)), ((2, 2), "scalar"), ((2, 2), (2, 1)), ((0,), "scalar"), ((3,), ())):
        cs.append(Case(f"linear-{sd}-{sb}".replace(" ", ""), linear, dict(sd=sd, sb=sb)))
        cs.append(Case(f"loglinear-{sd}-{sb}".replace(" ", ""), loglinear, dict(sd=sd, sb=sb)))
    for b in (0, 1, 2, 3, -1, -2):
        cs.append(Case(f"power-{b}", integer_power, dict(b=b, n=2)))
    for nz, nw in ((2, 2), (2, 3), (3, 2)) + (((3, 3),) if big else ()):
        for const in (True, False):
            cs.append(Case(f"effective-{nz}-{nw}-{const}", effective, dict(nz=nz, nw=nw, const=const), **o))
    cs.append(Case("effective-fixed-window", effective, dict(nz=3, nw=4, const=False, wg=[0.25, 0.5, 1.0, 1.75]), **o))
    cs.append(Case("effective-fixed-bias", effective, dict(nz=4, nw=3, const=False, zg=[0.25, 0.5, 1.0, 1.75]), **o))
    cs.append(Case("effective-fixed", effective, dict(nz=5, nw=4, const=False, zg=[0.0, 0.25, 0.5, 1.0, 1.75], wg=[0.125, 0.5, 0.75, 1.5]), **o))
    return cs
