"""Resampled shapes."""
import math
import numpy as np
import glass.shapes as S
from symxp.engine import Case
from .common import flat

FUNCTIONS = ["glass.shapes.resample_shapes", "glass.rng.Generator.uniform"]
BOUNDS = ("1 to 3 symbolic complex shapes (4 thorough; one with others fixed for several shapes and a reduced-shear variance) in shapes (n,), (1, 2), (2, 1), symbolic variances from zero to the shape variance, larger and "
          "both variances, symbolic phases")
ASSUMPTIONS = ["not all shapes are zero where a variance is compensated"]


def run(h, shape, kind):
    n = int(np.prod(shape, dtype=int))
    re, im = h.arr("re", shape, -1, 1), h.arr("im", shape, -1, 1)
    if kind == "g" and n > 1:
        im[(0,) * len(shape)] = 0.0
        for i in list(np.ndindex(*shape))[1:]:
            re[i], im[i] = 0.25, 0.5
    eps = re + 1j * im
    keep = eps + 0
    m2 = [re[i] * re[i] + im[i] * im[i] for i in np.ndindex(*shape)]
    vare = sum(m2[1:], m2[0]) / n
    kw = {}
    if kind != "plain":
        h.assume(vare >= 0.0625)
        if kind == "zero-gamma":
            v = 0.0
        elif kind == "zero-g":
            v = 0.0
        else:
            v = h.real("v", 0, 1)
            h.assume(v <= vare)
        kw = {"vargamma": v} if kind in ("gamma", "zero-gamma") else {"varg": v}
    rng = h.rng()
    out = S.resample_shapes(eps, rng=rng, **kw)
    h.same(tuple(out.shape), tuple(shape), "shape of the result")
    us = []
    for what, info, r in rng.log:
        h.fact(what in ("uniform", "random"), "phases are uniform draws")
        us += flat(h, info["u"] if what == "uniform" else r)
    h.same(len(us), n, "one phase per shape")
    h.eq(eps, keep, "shapes unchanged")
    o = flat(h, out)
    xp = h.xp
    q2 = [xp.real(x) * xp.real(x) + xp.imag(x) * xp.imag(x) for x in o]
    # phases
    for x, u, p2 in zip(o, us, q2):
        a = u * (2 * h.pi() if h.sym else 2 * math.pi)
        h.eq(xp.real(x) * xp.sin(a), xp.imag(x) * xp.cos(a), "phase is the uniform draw")
        h.true(xp.real(x) * xp.cos(a) + xp.imag(x) * xp.sin(a) >= -1e-9, "direction of the phase")
    if kind in ("plain", "zero-gamma", "zero-g"):
        for p, q in zip(m2, q2):
            h.eq(q, p, "modulus is kept")
        return
    # a common factor
    for i in range(n):
        for j in range(i + 1, n):
            h.eq(q2[i] * m2[j], q2[j] * m2[i], "common factor of the moduli")
    w = sum(q2[1:], q2[0]) / n
    if kind == "gamma":
        h.eq(w, vare - v, "mean squared modulus reduced by the shear variance")
    else:
        e4 = sum([q * q for q in q2[1:]], q2[0] * q2[0]) / n
        h.eq(v + (1 - 2 * v) * w + v * e4, vare, "variance relation of the reduced shear")


def rejected(h, kind):
    eps = h.arr("re", 2, -1, 1) + 1j * h.arr("im", 2, -1, 1)
    keep = eps + 0
    if kind == "both":
        for a, b in ((0.125, 0.125), (0.0, 0.0), (0.0, 0.25), (h.real("v", 0, 1), h.real("w", 0, 1))):
            h.raises(ValueError, lambda: S.resample_shapes(eps, varg=a, vargamma=b, rng=h.rng()), "both variances")
        return
    v = h.real("v", 0, 2)
    xp = h.xp
    vare = xp.sum(xp.real(eps) * xp.real(eps) + xp.imag(eps) * xp.imag(eps)) / 2
    h.assume(v > vare)
    h.raises(ValueError, lambda: S.resample_shapes(eps, rng=h.rng(), **{kind: v}), "variance larger than that of the shapes")
    h.eq(eps, keep, "shapes unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120 if not big else 1200, max_paths=2000)
    cs = []
    for kind in ("plain", "gamma", "zero-gamma", "zero-g", "g"):
        for s in ((1,), (2,), (1, 2), (2, 1), (3,)) + (((4,),) if big else ()):
            if kind == "g" and s != (1,) and not big and s != (2,):
                continue
            cs.append(Case(f"{kind}-{s}".replace(" ", ""), run, dict(shape=s, kind=kind), **o))
    for k in ("both", "varg", "vargamma"):
        cs.append(Case(f"rejected-{k}", rejected, dict(kind=k), **o))
    return cs
