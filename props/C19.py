"""Positions sampled from number counts per pixel, in batches."""
import numpy as np
import glass.healpix as gh
import glass.points as P
from symxp.engine import Case
from .common import stack

FUNCTIONS = ["glass.points.positions_from_delta", "glass.points._sample_galaxies_per_pixel", "glass.points._broadcast_inputs",
             "glass.points._sample_number_galaxies"]
BOUNDS = ("maps of 12 and 3072 pixels (4 internal groups of 1000); up to 5 pixels with symbolic counts 0 to 2 (0 to 3 thorough) next to group "
          "boundaries and the ends of the map, other counts fixed; symbolic batch sizes 1 to 7 or one fixed; populations (), (2,), (2, 1), (1, 2)")
ASSUMPTIONS = ["the position of a point inside its pixel is external (healpix.randang); the Poisson draw returns the symbolic counts"]


class Counts:
    """Poisson draws with prescribed counts, population by population"""

    def __init__(self, h, pops):
        self.h, self.pops, self.k = h, pops, 0

    def poisson(self, lam=1.0, size=None):
        npix = lam.shape[-1]
        m = int(np.prod(lam.shape[:-1], dtype=int))
        rows = []
        for _ in range(m):
            self.h.fact(self.k < len(self.pops), "one Poisson draw per population")
            rows.append(self.pops[self.k % len(self.pops)])
            self.k += 1
        r = rows[0] + 0 if m == 1 else self.h.xp.stack(rows)
        return self.h.xp.reshape(r, lam.shape)


def run(h, npix, dims, base, free, top, batch):
    pops = []
    n = int(np.prod(dims, dtype=int))
    for k in range(n):
        c = h.const(np.asarray(base[k % len(base)], dtype=np.int64))
        for i in free:
            c[i] = h.int(f"n{k}_{i}", 0, top)
        pops.append(c)
    b = h.int("batch", 1, batch[1]) if isinstance(batch, tuple) else batch
    rng = Counts(h, pops)
    pix = []
    nside = int(np.sqrt(npix // 12))

    def randang(ns, ipix, *, lonlat=False, **k):
        h.fact(ns == nside and lonlat is True, "positions in degrees at the resolution of the map")
        i0 = [int(ipix[j]) for j in range(ipix.shape[0])]
        s = len(pix)
        pix.extend(i0)
        lon = h.const(np.asarray([float(s + j) + 0.25 for j in range(len(i0))]))
        lat = h.const(np.asarray([-float(s + j) - 0.5 for j in range(len(i0))]))
        return lon, lat
    h.stub(gh, "randang", randang)
    delta = h.const(np.zeros(npix))
    ngal = h.const(np.ones(dims)) if dims else 1.0
    got = {k: [] for k in np.ndindex(*dims)}
    total = {k: 0 for k in np.ndindex(*dims)}
    used = 0
    for lon, lat, count in P.positions_from_delta(ngal, delta, rng=rng, batch=b):
        m = lon.shape[0]
        h.same(tuple(lat.shape), tuple(lon.shape), "longitudes and latitudes come in pairs")
        ids = [int(float(lon[j]) - 0.25) for j in range(m)]
        h.same([int(-float(lat[j]) - 0.5) for j in range(m)], ids, "longitudes and latitudes belong together")
        h.same(sorted(ids), list(range(used, used + m)), "sampled positions are yielded once")
        used += m
        if dims:
            h.same(tuple(count.shape), dims, "shape of the count")
            nz = [k for k in np.ndindex(*dims) if int(count[k])]
            h.fact(len(nz) == 1 or m == 0, "one population per batch")
            k = nz[0] if nz else None
            c = int(count[k]) if nz else 0
        else:
            k, c = (), int(count)
        h.same(c, m, "reported count")
        ps = [pix[i] for i in ids]
        if m and k is not None:
            got[k] += ps
            total[k] += c
            if not h.branch(b >= m):
                h.same(len(set(ps)), 1, "only a single pixel exceeds the batch size")
    h.same(used, len(pix), "all sampled positions are yielded")
    for q, k in enumerate(np.ndindex(*dims)):
        want = []
        for i in range(npix):
            c = pops[q][i]
            c = int(c) if not h.sym else _known(h, c, top)
            want += [i] * c
        h.same(sorted(got[k]), want, "every galaxy in its own pixel exactly once")
        h.same(total[k], len(want), "counts add up")
    h.same(rng.k, n, "one draw per population")


def _known(h, c, top):
    import operator
    return operator.index(c)


def cases(tier):
    big = tier != "quick"
    cs = []
    z12 = [0] * 12
    pat = [2, 0, 0, 1, 3, 0, 1, 0, 0, 0, 1, 0]
    o = dict(timeout=200 if big else 100, max_paths=8000)
    top = 3 if big else 2
    for name, base, free in (("zeros", z12, (0, 5, 11)), ("pattern", pat, (0, 6, 11)), ("middle", pat, (3, 4, 5)), ("end", pat, (9, 10, 11))):
        cs.append(Case(f"small-{name}", run, dict(npix=12, dims=(), base=[base], free=free, top=top, batch=("b", 7)), **o))
    for bt in (1, 2, 5):
        cs.append(Case(f"small-five-batch{bt}", run, dict(npix=12, dims=(), base=[z12], free=(0, 1, 5, 10, 11), top=2, batch=bt), **o))
    for dims in ((2,), (2, 1), (1, 2), (1,)):
        cs.append(Case(f"populations-{dims}".replace(" ", ""), run, dict(npix=12, dims=dims, base=[z12, pat], free=(2, 11), top=2, batch=("b", 4)), **o))
    for fill, places in (("none", {}), ("some", {5: 2, 1500: 1, 3000: 3}), ("dense", {i: 1 for i in range(990, 1012)})):
        base = [places.get(i, 0) for i in range(3072)]
        for free in ((999, 1000), (998, 1001), (1999, 2000), (0, 3071), (2999, 3000), (500, 2500)):
            if not big and fill == "dense" and free[0] > 1000:
                continue
            cs.append(Case(f"groups-{fill}-{free[0]}-{free[1]}", run, dict(npix=3072, dims=(), base=[base], free=free, top=top, batch=("b", 4 if fill != "dense" else 30)), **o))
    for free in ((999, 1000, 1001), (0, 1999, 2000)):
        cs.append(Case(f"groups-three-{free[1]}", run, dict(npix=3072, dims=(), base=[[0] * 3072], free=free, top=2, batch=("b", 3)), **o))
    return cs
