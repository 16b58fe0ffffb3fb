"""Displacements and deflections of points on the sphere."""
import math
import numpy as np
import glass.points as P
import glass.lensing as L
from symxp.engine import Case
from .common import stack

FUNCTIONS = ["glass.points.displace", "glass.points.displacement", "glass.lensing.deflect", "glass._array_api_utils.xp_additions.radians",
             "glass._array_api_utils.xp_additions.degrees"]
BOUNDS = ("one or two points with symbolic longitude, latitude (full range with both poles) and displacement (both components from -4 to 4), complex "
          "and two-component input; points at the poles, along the meridian and the equator, zero displacements, opposite points; pairs of positions")
ASSUMPTIONS = ["exact trigonometry (the trigonometric functions are atoms with their algebraic laws and ranges)"]


def rad(h, x):
    return x * (h.pi() / 180 if h.sym else math.pi / 180)


def vec(h, a, b, label):
    """compare vectors of unit size"""
    h.eq(stack(h, list(a)), stack(h, list(b)), label)


def oracle(h, lon, lat, a1, a2, lon2, lat2, sign, zero=False):
    xp = h.xp
    r = xp.hypot(xp.asarray(a1), xp.asarray(a2))
    s, c = xp.sin(rad(h, lat)), xp.cos(rad(h, lat))
    if zero:
        cg = sg = 0.0
    else:
        cg, sg = a1 / r, a2 / r
    cr, sr = xp.cos(r), xp.sin(r)
    d = sign * rad(h, lon2 - lon)
    s2, c2 = xp.sin(rad(h, lat2)), xp.cos(rad(h, lat2))
    vec(h, (s2, c2 * xp.cos(d), c2 * xp.sin(d)), (cr * s + sr * cg * c, cr * c - sr * cg * s, sr * sg), "position after displacement")
    h.true((lat2 >= -90 - 1e-9) & (lat2 <= 90 + 1e-9), "latitude between the poles")


def run(h, fn, n, form, kind):
    lons, lats, a1s, a2s = [], [], [], []
    for i in range(n):
        lon = h.real(f"lon{i}", -360, 360)
        lat = h.real(f"lat{i}", -90, 90)
        x, y = h.real(f"x{i}", -4, 4), h.real(f"y{i}", -4, 4)
        if kind == "pole":
            lat = h.num(90.0) if i == 0 else h.num(-90.0)
        elif kind == "south":
            lat = h.num(-90.0)
        elif kind == "equator":
            lat = h.num(0.0)
        elif kind == "meridian":
            y = h.num(0.0)
        elif kind == "east":
            x = h.num(0.0)
        elif kind == "zero":
            x, y = h.num(0.0), h.num(0.0)
        if kind in ("general", "pole", "south", "equator"):
            h.assume(x * x + y * y > 0)
        if kind == "meridian":
            h.assume((x > 0) | (x < 0))
        if kind == "east":
            h.assume((y > 0) | (y < 0))
        lons.append(lon); lats.append(lat); a1s.append(x); a2s.append(y)
    lon, lat, x, y = (stack(h, v) for v in (lons, lats, a1s, a2s))
    alpha = x + 1j * y if form == "complex" else h.xp.stack([x, y])
    keep = (lon + 0, lat + 0, alpha + 0)
    f, sign = (P.displace, 1) if fn == "displace" else (L.deflect, -1)
    lon2, lat2 = f(lon, lat, alpha)
    h.same((tuple(lon2.shape), tuple(lat2.shape)), ((n,), (n,)), "one position per point")
    for i in range(n):
        oracle(h, lons[i], lats[i], a1s[i], a2s[i], lon2[i], lat2[i], sign, kind == "zero")
    if kind == "zero":
        h.eq(lon2, lon, "zero displacement keeps the longitude")
        h.eq(lat2, lat, "zero displacement keeps the latitude")
    h.eq(lon, keep[0], "longitudes unchanged")
    h.eq(lat, keep[1], "latitudes unchanged")
    h.eq(alpha, keep[2], "displacements unchanged")


def between(h, n, kind, back):
    xp = h.xp
    ps = []
    for i in range(n):
        a, b = h.real(f"lat{i}", -90, 90), h.real(f"tolat{i}", -90, 90)
        l, m = h.real(f"lon{i}", -360, 360), h.real(f"tolon{i}", -360, 360)
        if kind == "same":
            b, m = a, l
        elif kind == "opposite":
            b, m = -a, l + 180
        elif kind == "meridian":
            m = l
        elif kind == "from-pole":
            a = h.num(90.0)
        elif kind == "to-pole":
            b = h.num(-90.0)
        elif kind == "equator":
            a, b = h.num(0.0), h.num(0.0)
        ps.append((l, a, m, b))
    l, a, m, b = (stack(h, [p[k] for p in ps]) for k in range(4))
    al = P.displacement(l, a, m, b)
    h.same(tuple(al.shape), (n,), "one displacement per pair")
    for i in range(n):
        li, ai, mi, bi = ps[i]
        x, y = xp.real(al[i]), xp.imag(al[i])
        r = xp.hypot(x, y)
        sa, ca, sb, cb = (f(rad(h, v)) for v in (ai, bi) for f in (xp.sin, xp.cos))
        sg, cg = xp.sin(rad(h, mi - li)), xp.cos(rad(h, mi - li))
        h.true((r >= 0) & (r <= math.pi + 1e-9), "distance between 0 and pi")
        vec(h, (xp.cos(r), xp.sin(r) * x, xp.sin(r) * y), (sa * sb + ca * cb * cg, r * (ca * sb - sa * cb * cg), r * cb * sg),
            "distance and bearing")
    if back:
        lon2, lat2 = P.displace(l, a, al)
        for i in range(n):
            li, ai, mi, bi = ps[i]
            s2, c2 = xp.sin(rad(h, lat2[i])), xp.cos(rad(h, lat2[i]))
            d = rad(h, lon2[i] - li)
            sb, cb = xp.sin(rad(h, bi)), xp.cos(rad(h, bi))
            sg, cg = xp.sin(rad(h, mi - li)), xp.cos(rad(h, mi - li))
            vec(h, (s2, c2 * xp.cos(d), c2 * xp.sin(d)), (sb, cb * cg, cb * sg), "displacing reaches the other position")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=200 if not big else 1500, max_paths=500)
    cs = []
    for fn in ("displace", "deflect"):
        for kind in ("general", "pole", "south", "equator", "meridian", "east", "zero"):
            for form in ("complex", "pair"):
                cs.append(Case(f"{fn}-{kind}-{form}", run, dict(fn=fn, n=1, form=form, kind=kind), **o))
        cs.append(Case(f"{fn}-two", run, dict(fn=fn, n=2, form="pair", kind="equator" if not big else "general"), **o))
    for kind in ("general", "same", "opposite", "meridian", "from-pole", "to-pole", "equator"):
        cs.append(Case(f"between-{kind}", between, dict(n=1, kind=kind, back=False), **o))
        if kind not in ("general", "meridian"):     # these follow from the laws of the displacement and of displacing, proved separately
            cs.append(Case(f"back-{kind}", between, dict(n=1, kind=kind, back=True), **o))
    return cs
