"""Uniform positions on the sphere."""
import math
import numpy as np
import glass.points as P
from symxp.engine import Case

FUNCTIONS = ["glass.points.uniform_positions", "glass._array_api_utils.xp_additions.degrees", "glass._array_api_utils.xp_additions.ndindex",
             "glass.rng.Generator"]
BOUNDS = "densities of shape (), (1,), (2,), (3,), (2, 2), (1, 2), (0,); up to 2 points per population (3 thorough), every combination of counts"
ASSUMPTIONS = ["the generator is arbitrary within the documented ranges of its draws; uniform draws are affine in one elementary draw of [0, 1)"]
AREA = 4 * (180 * 60) ** 2 / math.pi


def flat(h, x):
    x = h.xp.reshape(h.xp.asarray(x), (-1,))
    return [x[i] for i in range(x.shape[0])]


def const(h, x):
    """value of x if it does not depend on anything symbolic"""
    from symxp.scalar import S
    x = x.a.reshape(-1)[0] if hasattr(x, "a") else x
    return None if isinstance(x, S) else float(x)


def run(h, shape, top, kind):
    rng = h.rng(poisson_max=top)
    if shape is None:
        ngal = h.real("ngal", 0, 9)
        if kind == "python":
            ngal = 2.5
    else:
        ngal = h.arr("ngal", shape, 0, 9)
    dims = shape or ()
    keep = ngal + 0
    kw = dict(xp=h.xp) if shape is None else {}
    out = list(P.uniform_positions(ngal, rng=rng, **kw))
    h.same(len(out), int(np.prod(dims, dtype=int)), "one set of positions per density")
    # the draws that were made
    us, counts, lams = [], [], []
    for what, info, r in rng.log:
        if what == "poisson":
            counts += flat(h, r)
            lams += flat(h, info["lam"])
        elif what in ("uniform", "random"):
            us += flat(h, info["u"] if what == "uniform" else r)
        else:
            h.fact(False, f"positions drawn from {what}")
    for l, g in zip(lams, flat(h, keep)):
        h.eq(l, g * AREA, "mean number of positions")
    h.same(len(counts), len(out), "one Poisson draw per population")
    used = set()

    def match(vals):
        """the unused draw u with val - s * u constant for one (val, s)"""
        for q, u in enumerate(us):
            if q in used:
                continue
            for v, s, off in vals:
                c = const(h, v - s * u)
                if c is not None and abs(c / off - round(c / off)) < 1e-9 * 180 / off:
                    used.add(q)
                    return u, s, round(c / off) * off
        return None
    n = 0
    for k, (lon, lat, count) in zip(np.ndindex(*dims), out):
        c = counts[n]
        n += 1
        if dims:
            h.same(tuple(count.shape), dims, "counts have the shape of the densities")
            for j in np.ndindex(*dims):
                h.eq(count[j], c if j == k else 0, "count of the population")
        else:
            h.eq(count, c, "count")
        h.eq(lon.shape[0], c, "number of longitudes")
        h.eq(lat.shape[0], c, "number of latitudes")
        h.same((len(lon.shape), len(lat.shape)), (1, 1), "columns of positions")
        for j in range(lon.shape[0]):
            m = match([(lon[j], 360, 180), (lon[j], -360, 180)])
            h.fact(m is not None, "longitude uniform over the circle in a draw of its own")
            h.true((lon[j] >= -360) & (lon[j] <= 360), "longitude in degrees")
            z = h.xp.sin(lat[j] * (math.pi / 180 if not h.sym else h.pi() / 180))
            m2 = match([(z, 2, 1), (z, -2, 1)])
            h.fact(m2 is not None, "sine of the latitude uniform in a draw of its own")
            h.true((lat[j] >= -90) & (lat[j] <= 90), "latitude between the poles")
            if m2 is not None:
                h.eq(z, m2[1] * m2[0] + m2[2], "sine of the latitude")
                h.true((m2[2] == -1) if m2[1] == 2 else (m2[2] == 1), "sine of the latitude between -1 and 1")
    h.same(len(used), len(us), "every draw is used once")


def cases(tier):
    top = 2 if tier == "quick" else 3
    o = dict(timeout=60, max_paths=3000)
    cs = [Case("scalar", run, dict(shape=None, top=3, kind="sym"), **o), Case("python", run, dict(shape=None, top=3, kind="python"), **o)]
    for s in ((), (1,), (2,), (0,), (3,), (1, 2), (2, 1), (2, 2)):
        cs.append(Case(f"shape-{s}".replace(" ", ""), run, dict(shape=s, top=1 if s == (2, 2) and tier == "quick" else top, kind=""), **o))
    return cs
