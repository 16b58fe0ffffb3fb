"""Observed shears of galaxies."""
import numpy as np
import glass.galaxies as G
import glass.healpix as gh
from symxp.engine import Case

FUNCTIONS = ["glass.galaxies.galaxy_shear"]
BOUNDS = ("catalogues of 0 to 4 galaxies with symbolic pixels (3 pixels), ellipticities and maps, and of 9,999 to 20,001 galaxies with symbolic "
          "ellipticities and map values next to the boundaries of internal groups of 10,000")
ASSUMPTIONS = ["the pixel of a position is external (healpix.ang2pix): an arbitrary function of longitude and latitude", "convergence below 1",
               "intrinsic ellipticity and reduced shear with 1 + conj(g) e away from zero"]


def run(h, n, npix, reduced, free, top):
    # position j is known by its coordinates
    table = {}
    lon, lat = np.arange(n) * 0.015625 - 100.0, np.arange(n) * -0.00390625 + 40.0
    pix = []
    for j in range(n):
        p = int(h.int(f"p{j}", 0, top)) if free is None else (j * 7 + 3) % npix
        table[(float(lon[j]), float(lat[j]))] = p
        pix.append(p)

    def ang2pix(nside, theta, phi, *, lonlat=False, **k):
        h.fact(12 * int(nside) ** 2 == npix, "resolution of the maps")
        h.fact(lonlat is True, "positions in degrees")
        o = []
        for a, b in zip(np.asarray(theta.a if hasattr(theta, "a") else theta, dtype=float), np.asarray(phi.a if hasattr(phi, "a") else phi, dtype=float)):
            h.fact((float(a), float(b)) in table, "longitude and latitude belong to one galaxy")
            o.append(table.get((float(a), float(b)), 0))
        return h.const(np.asarray(o, dtype=np.int64))
    h.stub(gh, "ang2pix", ang2pix)
    if free is None:
        sym = range(top + 1)
    else:
        sym = sorted({pix[j] for j in free if j < n})
    base = np.arange(npix)
    kap, g1, g2 = h.const(base / 1024 * 0.25), h.const(0.125 - base / 512), h.const(base / 2048 - 0.0625)
    for p in sym:
        kap[p], g1[p], g2[p] = h.real(f"k{p}", -1, 0.5), h.real(f"g{p}", -0.25, 0.25), h.real(f"s{p}", -0.25, 0.25)
    eb = (np.arange(n) % 16 / 64 - 0.125) + 1j * (np.arange(n) % 8 / 64)
    eps = h.const(eb.astype(complex))
    for j in range(n) if free is None else [j for j in free if j < n]:
        eps[j] = h.real(f"e{j}", -0.5, 0.5) + 1j * h.real(f"f{j}", -0.5, 0.5)
    keep = [x + 0 for x in (eps, kap, g1, g2)]
    kw = {} if reduced is None else dict(reduced_shear=reduced)
    out = G.galaxy_shear(h.const(lon), h.const(lat), eps, kap, g1, g2, **kw)
    h.same(tuple(out.shape), (n,), "one shear per galaxy")
    ek, kk, ak, bk = keep
    for j in range(n):
        if free is not None and n > 100 and min(abs(j - f) for f in free) > 3 and j % 97:
            continue
        p = pix[j]
        e, g = ek[j], ak[p] + 1j * bk[p]
        if reduced is not False:
            g = g / (1 - kk[p])
            want = (e + g) / (1 + h.xp.conj(h.xp.asarray(g)) * e)
        else:
            want = e + g
        h.eq(out[j], want, "observed shear of the galaxy")
    for a, b, w in zip((eps, kap, g1, g2), keep, ("ellipticities", "convergence", "first shear component", "second shear component")):
        if n < 100:
            h.eq(a, b, w + " unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=300 if not big else 2000, max_paths=3000)
    cs = []
    for red in (None, True, False):
        for n in (0, 1, 2, 3) + ((4,) if big else ()):
            cs.append(Case(f"small-{n}-{red}", run, dict(n=n, npix=12, reduced=red, free=None, top=2 if n < 3 else 1), **o))
        cs.append(Case(f"map-48-{red}", run, dict(n=5, npix=48, reduced=red, free=[1, 4], top=0), **o))
    for n, free in ((9999, [0, 9998]), (10000, [0, 9999]), (10001, [0, 9999, 10000]), (20001, [9999, 10000, 19999, 20000])) + \
            (((30000, [10000, 20000, 29999]), (20000, [10000, 19999])) if big else ()):
        for red in (True, False):
            cs.append(Case(f"long-{n}-{red}", run, dict(n=n, npix=12, reduced=red, free=free, top=0), **o))
    return cs
