"""Axis ratios of projected ellipsoids."""
import math
import numpy as np
import glass.shapes as S
from symxp.engine import Case
from .common import flat

FUNCTIONS = ["glass.shapes.triaxial_axis_ratio", "glass.rng.Generator.uniform"]
BOUNDS = ("1 or 2 ellipsoids (4 thorough), scalar and array axis ratios of every broadcast of (), (1,), (2,), (2, 1), given or derived sizes, symbolic axis "
          "ratios and viewing directions")
ASSUMPTIONS = ["axis ratios 1 >= zeta >= xi > 0"]


def run(h, sz, sx, size, fix=None):
    xi = h.real("xi", 0.0625, 1) if sx is None else h.arr("xi", sx, 0.0625, 1)
    zeta = h.real("zeta", 0.0625, 1) if sz is None else h.arr("zeta", sz, 0.0625, 1)
    if fix == "oblate":
        zeta = h.num(1.0)
    elif fix == "prolate":
        zeta = xi
    elif fix == "sphere":
        zeta = xi = h.num(1.0)
    h.assume(h.xp.all(h.xp.asarray(zeta) >= h.xp.asarray(xi)))
    kz, kx = zeta + 0, xi + 0
    rng = h.rng()
    kw = {} if size is None else dict(size=size)
    q = S.triaxial_axis_ratio(zeta, xi, rng=rng, xp=h.xp, **kw)
    dims = np.broadcast_shapes(sz or (), sx or ()) if size is None else size if isinstance(size, tuple) else (size,)
    h.same(tuple(q.shape), dims, "one axis ratio per ellipsoid")
    us = []
    for what, info, r in rng.log:
        h.fact(what in ("uniform", "random"), "directions are uniform draws")
        us.append(flat(h, info["u"] if what == "uniform" else r))
    h.same([len(u) for u in us], [int(np.prod(dims, dtype=int))] * 2, "one direction per ellipsoid")
    zs, xs = (flat(h, h.xp.broadcast_to(h.xp.asarray(v), dims)) for v in (kz, kx))
    for i, x in enumerate(flat(h, q)):
        c = 2 * us[0][i] - 1
        f = us[1][i] * (2 * h.pi() if h.sym else 2 * math.pi)
        cp, sp = h.xp.cos(f), h.xp.sin(f)
        s2 = 1 - c * c
        z2, x2 = zs[i] * zs[i], xs[i] * xs[i]
        # squared semi-axes of the outline have this sum and product
        tr = 1 + z2 + x2 - (s2 * cp * cp + z2 * s2 * sp * sp + x2 * c * c)
        det = s2 * cp * cp * z2 * x2 + s2 * sp * sp * x2 + c * c * z2
        q2 = x * x
        r = h.xp.sqrt(h.xp.abs(tr * tr - 4 * det)) if not h.sym else h.xp.sqrt(h.xp.asarray(tr * tr - 4 * det))
        h.eq(q2 * (tr + r), tr - r, "axis ratio of the projected ellipse")
        h.true(x >= 0, "axis ratio is not negative")
        if not h.sym:
            # for all outlines, these follow from the identity above: see the case "lemma"
            h.true(q2 <= 1 + 1e-9, "axis ratio at most one")
            h.true(q2 >= x2 - 1e-9, "axis ratio at least that of the minor axis")
    h.eq(zeta, kz, "axis ratios unchanged")
    h.eq(xi, kx, "axis ratios unchanged")


def lemma(h):
    """facts about the outlines of all ellipsoids, in terms of cos(theta)^2, cos(phi)^2 and the squared axis ratios"""
    w, v, z2, x2 = h.real("w", 0, 1), h.real("v", 0, 1), h.real("z2", 2**-8, 1), h.real("x2", 2**-8, 1)
    h.assume(h.xp.asarray(z2 >= x2))
    tr = 1 + z2 + x2 - ((1 - w) * v + z2 * (1 - w) * (1 - v) + x2 * w)
    det = (1 - w) * v * z2 * x2 + (1 - w) * (1 - v) * x2 + w * z2
    h.true(det * (1 + x2) * (1 + x2) >= x2 * tr * tr, "outline no flatter than the minor axis")
    h.true(tr * tr >= 4 * det, "outline is an ellipse")
    h.true(tr > 0, "outline is not empty")
    # an axis ratio with q^2 (tr + r) = tr - r, where r = sqrt(tr^2 - 4 det)
    t, r = h.real("t", 0, 3), h.real("r", 0, 3)
    h.assume(h.xp.asarray(t > 0))
    d, q2 = (t * t - r * r) / 4, (t - r) / (t + r)
    h.assume(h.xp.asarray(d * (1 + x2) * (1 + x2) >= x2 * t * t))
    h.true(q2 <= 1, "axis ratio at most one")
    h.true(q2 >= x2, "axis ratio at least that of the minor axis")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150 if not big else 1500, max_paths=600)
    cs = [Case("lemma", lemma), Case("scalar", run, dict(sz=None, sx=None, size=None), **o)]
    for f in ("oblate", "prolate", "sphere"):
        cs.append(Case(f, run, dict(sz=None, sx=None, size=None, fix=f), **o))
    for sz, sx, size in (((1,), None, None), (None, (1,), None), ((1,), (1,), None), (None, None, 1), (None, None, (1,)), (None, None, (1, 1)),
                         ((2,), (2,), None), (None, (2,), None), (None, None, 2), ((2,), None, (2,)), ((2, 1), (1,), None), ((1,), (1,), (2,)),
                         ((2,), (2,), (1, 2))):
        cs.append(Case(f"shape-{sz}-{sx}-{size}".replace(" ", ""), run, dict(sz=sz, sx=sx, size=size), **o))
    return cs
