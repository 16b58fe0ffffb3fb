"""Redshifts sampled from distributions."""
import numpy as np
import glass.galaxies as G
import glass.shells as S
from symxp.engine import Case
from .common import Draws, flat, caught

FUNCTIONS = ["glass.galaxies.redshifts_from_nz", "glass.galaxies.redshifts", "glass.galaxies._draw_nz", "glass.arraytools.cumulative_trapezoid",
             "glass.arraytools.broadcast_leading_axes", "glass._array_api_utils.xp_additions.interp", "glass.rng.Generator.uniform"]
BOUNDS = ("distributions of 2 to 4 nodes (5 thorough) with symbolic densities and symbolic or fixed redshifts, ranges of zero density; up to 3 samples; "
          "populations of shape (), (2,), (3,), (2, 2), (2, 1) x (1, 2) with symbolic counts 0 to 2 and distributions of their own")
ASSUMPTIONS = ["densities are not negative and not zero everywhere; uniform draws are arbitrary in [0, 1)"]


def inverse(h, u, z, f):
    """value whose normalised cumulative is u"""
    n = len(z)
    c = [h.num(0.0)]
    for i in range(n - 1):
        c.append(c[-1] + (z[i + 1] - z[i]) * (f[i] + f[i + 1]) / 2)
    t = u * c[-1]
    for i in range(n - 1):
        if iszero_step(h, f[i], f[i + 1]):
            continue
        if h.branch(t <= c[i + 1]) or i == n - 2:
            if not h.branch(c[i + 1] > c[i]):
                continue
            return z[i] + (t - c[i]) / (c[i + 1] - c[i]) * (z[i + 1] - z[i])
    return z[n - 1]


def iszero_step(h, a, b):
    from .common import iszero
    return iszero(a) and iszero(b)


def check(h, x, u, z, f):
    n = len(z)
    c = [h.num(0.0)]
    for i in range(n - 1):
        c.append(c[-1] + (z[i + 1] - z[i]) * (f[i] + f[i + 1]) / 2)
    t = u * c[-1]
    h.true((x >= z[0] - 1e-9) & (x <= z[n - 1] + 1e-9), "redshift within the range of the distribution")
    if n == 2:
        h.eq((x - z[0]) * c[1], t * (z[1] - z[0]), "cumulative at the redshift is the uniform draw")
        return
    for i in range(n - 1):
        if h.branch((t > c[i]) & (t < c[i + 1])):
            h.eq((x - z[i]) * (c[i + 1] - c[i]), (t - c[i]) * (z[i + 1] - z[i]), "cumulative at the redshift is the uniform draw")
            h.true((x >= z[i] - 1e-9) & (x <= z[i + 1] + 1e-9), "redshift in the interval of the cumulative")
            return
    # the draw is exactly a value of the cumulative at a node: a node with that cumulative
    ok = None
    for i in range(n):
        e = (x >= z[i] - 1e-9) & (x <= z[i] + 1e-9) & (t <= c[i]) & (t >= c[i])
        ok = e if ok is None else ok | e
    if h.sym:
        h.true(ok, "redshift at a node of that cumulative")


def grid(h, n, zfix, name=""):
    return h.arr("z" + name, n, 0, 5, increasing=(0.0625, 2)) if zfix is None else h.const(np.asarray(zfix, dtype=float))


def single(h, n, zfix, zeros, count, form):
    z = grid(h, n, zfix)
    n = z.shape[0]
    f = h.const(np.zeros(n))
    for i in range(n):
        if i not in zeros:
            f[i] = h.real(f"f{i}", 0.0625 if zeros else 0, 4)
    if not zeros:
        h.assume(h.xp.sum(f) >= 0.125)
    kz, kf = z + 0, f + 0
    rng = h.rng()
    if form == "window":
        out, ws = caught(lambda: G.redshifts(count, S.RadialWindow(z, f, 0.5), rng=rng))
        h.same(len(ws), 0, "no warning for windows")
    elif form == "array":
        out = G.redshifts_from_nz(h.const(np.array(count)), z, f, rng=rng, warn=False)
    else:
        out, ws = caught(lambda: G.redshifts_from_nz(count, z, f, rng=rng, **({} if form == "warn" else {"warn": False})))
        h.same(len(ws) > 0, form == "warn", "warning unless suppressed")
    h.same(tuple(out.shape), (count,), "number of redshifts")
    d = Draws(h, rng)
    zs, fs = flat(h, kz), flat(h, kf)
    for x in flat(h, out):
        u = d.take(x, lambda u: inverse(h, u, zs, fs))
        if u is not None:
            check(h, x, u, zs, fs)
    d.all_used()
    h.eq(z, kz, "redshifts unchanged")
    h.eq(f, kf, "distribution unchanged")


def pops(h, sc, sz, sf, top, fixed):
    if fixed is None:
        cnt = h.arr("n", sc, 0, top, dtype=int)
    else:
        cnt = h.const(np.asarray(fixed).reshape(sc))
    dims = np.broadcast_shapes(sc, sz, sf)
    m = 2 if fixed is None else 3
    zg = np.array([0.0, 1.0, 2.0])[:m]
    z = h.const(np.stack([zg + 4.0 * i for i in range(int(np.prod(sz, dtype=int)))]).reshape(sz + (m,)))
    f = h.arr("f", sf + (m,), 0.25, 2)
    rng = h.rng()
    out = G.redshifts_from_nz(cnt, z, f, rng=rng, warn=False)
    d = Draws(h, rng)
    xs = flat(h, out)
    pos = 0
    for k in np.ndindex(*dims):
        pick = lambda s: tuple(0 if a == 1 else b for a, b in zip(s, k[len(dims) - len(s):]))
        c = int(cnt[pick(sc)])
        zs, fs = flat(h, z[pick(sz)]), flat(h, f[pick(sf)])
        for _ in range(c):
            if pos >= len(xs):
                break
            x = xs[pos]
            u = d.take(x, lambda u: inverse(h, u, zs, fs))
            if u is not None:
                check(h, x, u, zs, fs)
            pos += 1
    tot = sum(int(np.broadcast_to(0, ())) + int(cnt[tuple(0 if a == 1 else b for a, b in zip(sc, k[len(dims) - len(sc):]))]) for k in np.ndindex(*dims))
    h.same(len(xs), tot, "one redshift per requested sample")
    d.all_used()


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100 if not big else 900, max_paths=5000)
    cs = [Case("free-2", single, dict(n=2, zfix=None, zeros=(), count=2, form=""), **o),
          Case("free-3", single, dict(n=3, zfix=None, zeros=(), count=1, form=""), **o),
          Case("fixed-4", single, dict(n=4, zfix=[0.0, 0.5, 2.0, 2.5], zeros=(), count=1, form=""), **o),
          Case("fixed-3", single, dict(n=3, zfix=[0.25, 0.5, 2.0], zeros=(), count=2, form="array"), **o),
          Case("gap", single, dict(n=5, zfix=[0.0, 1.0, 2.0, 3.0, 4.0], zeros=(2, 3), count=1, form=""), **o),
          Case("gap-free", single, dict(n=5, zfix=None, zeros=(2, 3), count=1, form=""), **o),
          Case("start", single, dict(n=4, zfix=[0.0, 1.0, 2.0, 3.0], zeros=(0, 1), count=1, form=""), **o),
          Case("end", single, dict(n=4, zfix=[0.0, 1.0, 2.0, 3.0], zeros=(2, 3), count=1, form=""), **o),
          Case("none", single, dict(n=3, zfix=[0.0, 1.0, 2.0], zeros=(), count=0, form=""), **o),
          Case("warn", single, dict(n=2, zfix=None, zeros=(), count=1, form="warn"), **o),
          Case("window", single, dict(n=3, zfix=None, zeros=(), count=1, form="window"), **o),
          Case("window-2", single, dict(n=2, zfix=None, zeros=(), count=3, form="window"), **o)]
    if big:
        cs += [Case("free-4", single, dict(n=4, zfix=None, zeros=(), count=1, form=""), **o),
               Case("free-3-2", single, dict(n=3, zfix=None, zeros=(), count=2, form=""), **o),
               Case("fixed-5", single, dict(n=5, zfix=[0.0, 0.5, 2.0, 2.5, 3.0], zeros=(), count=2, form=""), **o)]
    for sc, sz, sf, top, fixed in (((2,), (), (), 2, None), ((2,), (), (2,), 1, None), ((), (2,), (2,), 1, None), ((2,), (2,), (), 2, [0, 2]),
                                   ((2, 2), (), (), 1, None), ((2, 1), (1, 2), (2,), 1, [1, 1]), ((3,), (3,), (3,), 2, [1, 0, 1]),
                                   ((), (), (2,), 2, [1]), ((2, 2), (2,), (2, 2), 2, [1, 0, 0, 1])):
        cs.append(Case(f"pops-{sc}-{sz}-{sf}-{fixed}".replace(" ", ""), pops, dict(sc=sc, sz=sz, sf=sf, top=top, fixed=fixed), **o))
    return cs
