"""Visibility masks of galactic and ecliptic stripes."""
import numpy as np
import glass
import glass.healpix as H
from symxp.engine import Case
from .C44 import FACES, own, isnp

FUNCTIONS = ["glass.observations.vmap_galactic_ecliptic", "glass.healpix.query_strip", "glass.healpix.Rotator.rotate_map_pixel", "glass.healpix.nside2npix"]
BOUNDS = ("resolutions 1 to 4 (12 to 192 pixels), stripes with symbolic ends, with up to four pixels symbolically inside or outside each stripe, "
          "and arbitrary (symbolic) rotated maps, on three faces of the array library")
ASSUMPTIONS = ["healpy.query_strip returns indices of pixels and healpy.Rotator.rotate_map_pixel returns a map of the same size; both are otherwise arbitrary"]


def stripes(h, nside, free):
    """a strip query with symbolic members; records the calls"""
    calls = []
    n = 12 * nside**2

    def query(ns, theta1, theta2, inclusive=False, nest=False, **k):
        h.same((int(ns), bool(inclusive), bool(nest), k), (nside, False, False, {}), "resolution and flags of the query")
        j = len(calls)
        ix = [i for i in range(n) if (i % 5 == j and i not in free)]
        for i in free:
            if h.branch(h.int(f"in{j}_{i}", 0, 1) == 1):
                ix.append(i)
        ix = sorted(ix)
        calls.append((theta1, theta2, ix))
        return np.asarray(ix, dtype=int)
    h.stub(H.healpy, "query_strip", query)
    return calls


def pair(h, name, kind):
    a, b = h.real(name + "0", 0, 3), h.real(name + "1", 0, 3)
    if kind == "tuple":
        return (a, b), a, b
    if kind == "list":
        return [a, b], a, b
    v = h.xp.stack([h.xp.asarray(a), h.xp.asarray(b)])
    return v, a, b


def strip(h, nside, free, dtype, kind, withxp):
    """mask of exactly the pixels of the stripe, in the requested type"""
    calls = stripes(h, nside, free)
    th, a, b = pair(h, "t", kind)
    kw = {"dtype": getattr(h.xp, dtype)} if dtype else {}
    if withxp:
        kw["xp"] = h.xp
    m = H.query_strip(nside, th, **kw)
    h.same(len(calls), 1, "one query")
    h.true(calls[0][0] == a, "first end of the stripe")
    h.true(calls[0][1] == b, "second end of the stripe")
    h.same(tuple(m.shape), (12 * nside**2,), "one entry per pixel")
    if withxp:
        own(h, m)
    h.same(np.dtype(str(m.dtype).split(".")[-1]), np.dtype(dtype or "int64"), "type of the mask")
    ix = set(calls[0][2])
    for i in range(12 * nside**2):
        want = 1 if i in ix else 0
        h.fact(bool(m[i] == want), "mask of the pixel")


def vmap(h, nside, free, kinds, withxp=True):
    """stripes and rotations in their order"""
    calls = stripes(h, nside, free)
    rots = []
    n = 12 * nside**2

    class Rotator:
        def __init__(self, rot=None, coord=None, **k):
            h.same((rot, k), (None, {}), "only coordinate systems are rotated")
            self.coord = coord

        def rotate_map_pixel(self, m):
            h.fact(isnp(h, m), "map is an array of the reference library")
            r = h.arr(f"rot{len(rots)}", n, 0, 1, face=getattr(h.xp, "_numpy_face", None) if h.sym else None)
            if not h.sym:
                r = np.asarray(r).copy()
            rots.append((self.coord, m + 0, r + 0))
            return r
    h.stub(H.healpy, "Rotator", Rotator)
    ga, g0, g1 = pair(h, "g", kinds[0])
    ec, e0, e1 = pair(h, "e", kinds[1])
    out = glass.vmap_galactic_ecliptic(nside, ga, ec, **({"xp": h.xp} if withxp else {}))
    h.same((len(calls), len(rots)), (2, 2), "two stripes, two rotations")
    h.true(calls[0][0] == g0, "galactic stripe")
    h.true(calls[0][1] == g1, "galactic stripe")
    h.true(calls[1][0] == e0, "ecliptic stripe")
    h.true(calls[1][1] == e1, "ecliptic stripe")
    h.same(["".join(r[0]) for r in rots], ["GC", "CE"], "frames of the rotations")
    if withxp:
        own(h, out)
    h.same(tuple(out.shape), (n,), "one entry per pixel")
    inside = [set(c[2]) for c in calls]
    h.eq(h.xp.asarray(rots[0][1]), h.const([0.0 if i in inside[0] else 1.0 for i in range(n)]), "galactic stripe is zero, all else one")
    mid = h.xp.asarray(rots[0][2])
    h.eq(h.xp.asarray(rots[1][1]), mid * h.const([0.0 if i in inside[1] else 1.0 for i in range(n)]), "ecliptic stripe of the rotated map is zero, all else unchanged")
    h.eq(out, h.xp.asarray(rots[1][2]), "rotated map is returned")


def pairs(h, gal, ecl):
    """stripes that are not a pair of numbers are rejected, before any map is made"""
    stripes(h, 1, ())
    mk = lambda n, nm: tuple(h.real(f"{nm}{i}", 0, 3) for i in range(n))
    which = "galactic" if gal != 2 else "ecliptic"
    h.raises(TypeError, lambda: glass.vmap_galactic_ecliptic(1, mk(gal, "g"), mk(ecl, "e"), xp=h.xp), "not a pair of numbers", match=which)


def sizes(h):
    """number of pixels"""
    for k in range(9):
        ns = 2**k
        h.same((H.nside2npix(ns), H.npix2nside(12 * ns * ns)), (12 * ns * ns, ns), "number of pixels of the resolution")


def defaults(h):
    """default stripes"""
    calls = stripes(h, 1, ())

    class Rotator:
        def __init__(self, rot=None, coord=None, **k):
            pass

        def rotate_map_pixel(self, m):
            return m
    h.stub(H.healpy, "Rotator", Rotator)
    glass.vmap_galactic_ecliptic(1, xp=h.xp)
    h.same([tuple(float(v) for v in c[:2]) for c in calls], [(30.0, 90.0), (20.0, 80.0)], "documented default stripes")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=2000)
    cs = []
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")
    for f, face in FACES.items():
        for nside, free in ((1, (0, 3, 11)), (1, (4,)), (2, (0, 47)), (4, (100,)), (1, ())):
            for dt in (None, "float64", "float32", "int32", "bool"):
                for kind in ("tuple", "list", "array"):
                    if f != "np" and dt == "bool":
                        continue
                    cs.append(Case(nm(f, "strip", nside, len(free), dt, kind), strip, dict(nside=nside, free=free, dtype=dt, kind=kind, withxp=True), face=face, **o))
        for nside, free in ((1, (0, 5)), (1, ()), (2, (47,)), (1, (11,))) + (((1, (1, 4, 8)), (4, (0,)), (8, (3,))) if big else ()):
            for kinds in (("tuple", "list"), ("array", "tuple")):
                if f != "np" and "array" in kinds:     # (documented as tuples)
                    continue
                cs.append(Case(nm(f, "vmap", nside, len(free), free[:1], *kinds), vmap, dict(nside=nside, free=free, kinds=kinds), face=face, **o))
        for g, e in ((0, 2), (1, 2), (3, 2), (2, 0), (2, 1), (2, 3), (4, 2), (2, 5)):
            cs.append(Case(nm(f, "pairs", g, e), pairs, dict(gal=g, ecl=e), face=face, **o))
        cs.append(Case(nm(f, "defaults"), defaults, face=face, **o))
    cs.append(Case("strip-noxp", strip, dict(nside=1, free=(2,), dtype="float64", kind="tuple", withxp=False), **o))
    cs.append(Case("vmap-noxp", vmap, dict(nside=1, free=(2,), kinds=("tuple", "tuple"), withxp=False), **o))
    cs.append(Case("sizes", sizes, **o))
    return cs
