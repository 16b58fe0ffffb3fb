"""Analytic redshift distributions."""
import numpy as np
import glass.observations as O
from symxp.engine import Case
from .common import trapz, flat

FUNCTIONS = ["glass.observations.gaussian_nz", "glass.observations.smail_nz"]
BOUNDS = ("2 to 4 symbolic redshifts (6 thorough), parameters of shape (), (1,), (2,), (2, 1) x (2,), all symbolic (exponents symbolic, or fixed integers and halves "
          "down to z = 0), no, symbolic and zero normalisation")
ASSUMPTIONS = ["redshifts increase", "exp, log and powers are atoms with their algebraic laws"]


def grid(h, n, lo=0.0, face=None):
    z = h.arr("z", n, lo, 4)
    for i in range(n - 1):
        h.assume(z[i] < z[i + 1])
    return z


def par(h, name, shp, lo, hi):
    return h.real(name, lo, hi) if shp is None else h.arr(name, shp, lo, hi)


def check(h, z, n, out, dims, norm, f):
    h.same(tuple(out.shape), (*dims, n), "parameter axes lead")
    o = h.xp.reshape(out, (-1, n))
    zs = [z[i] for i in range(n)]
    for k in range(int(np.prod(dims, dtype=int))):
        fs = [f(k, x) for x in zs]
        t = trapz(fs, zs)
        for i in range(n):
            h.eq(o[k, i] * t, fs[i] * norm, "proportional to the formula, with the given norm")
        h.eq(trapz([o[k, i] for i in range(n)], zs), norm, "integral is the norm")


def norms(h, norm):
    if norm == "symbolic":
        v = h.real("norm", -2, 5)
        return dict(norm=v), v + 0
    return ({}, 1) if norm is None else (dict(norm=norm), norm)


def gauss(h, n, sm, ss, norm):
    z = grid(h, n)
    m, s = par(h, "mean", sm, -1, 3), par(h, "sigma", ss, 0.125, 2)
    kz, km, ks = z + 0, m + 0, s + 0
    kw, nv = norms(h, norm)
    dims = np.broadcast_shapes(sm or (), ss or ())
    ms, sl = (flat(h, h.xp.broadcast_to(h.xp.asarray(v), dims)) for v in (km, ks))
    out = O.gaussian_nz(z, m, s, **kw)
    check(h, kz, n, out, dims, nv, lambda k, x: h.xp.exp(h.xp.asarray(-(x - ms[k]) * (x - ms[k]) / (2 * sl[k] * sl[k]))))
    h.eq(z, kz, "arguments unchanged")
    h.eq(m, km, "arguments unchanged")
    h.eq(s, ks, "arguments unchanged")


def gauss2(h):
    """two-dimensional redshifts: one distribution per row"""
    z = h.arr("z", (2, 2), 0, 4)
    for r in range(2):
        h.assume(z[r, 0] < z[r, 1])
    m, s = h.arr("mean", (2,), -1, 3), h.real("sigma", 0.125, 2)
    out = O.gaussian_nz(z, m, s)
    h.same(tuple(out.shape), (2, 2, 2), "parameter axes lead")
    for k in range(2):
        for r in range(2):
            f = [h.xp.exp(h.xp.asarray(-(z[r, i] - m[k]) * (z[r, i] - m[k]) / (2 * s * s))) for i in range(2)]
            t = trapz(f, [z[r, 0], z[r, 1]])
            for i in range(2):
                h.eq(out[k, r, i] * t, f[i], "proportional to the formula, with the given norm")


def smail(h, n, shapes, norm, exps=None, lo=0.0625):
    z = grid(h, n, lo)
    zm = par(h, "mode", shapes[0], 0.125, 3)
    if exps is None:
        a, b = par(h, "alpha", shapes[1], 0.25, 3), par(h, "beta", shapes[2], 0.25, 3)
    else:
        a, b = (h.const(np.asarray(e, dtype=float)) if np.ndim(e) else e for e in exps)
    kz, kzm, ka, kb = z + 0, zm + 0, a + 0, b + 0
    kw, nv = norms(h, norm)
    dims = np.broadcast_shapes(*[s or () for s in shapes])
    ms, al, bl = (flat(h, h.xp.broadcast_to(h.xp.asarray(v), dims)) for v in (kzm, ka, kb))
    out = O.smail_nz(z, zm, a, b, **kw)

    def f(k, x):
        q = h.xp.asarray(x / ms[k])
        return h.xp.asarray(x) ** al[k] * h.xp.exp(h.xp.asarray(-(al[k] / bl[k]) * q ** bl[k]))

    check(h, kz, n, out, dims, nv, f)
    h.eq(z, kz, "arguments unchanged")
    h.eq(zm, kzm, "arguments unchanged")
    h.eq(a, ka, "arguments unchanged")
    h.eq(b, kb, "arguments unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150 if not big else 1500, max_paths=2000)
    cs = []
    for n in (2, 3, 4) if not big else (2, 3, 4, 6):
        for norm in (None, "symbolic", 0):
            cs.append(Case(f"gauss-{n}-{norm}", gauss, dict(n=n, sm=None, ss=None, norm=norm), **o))
    for sm, ss in (((1,), None), (None, (1,)), ((2,), None), (None, (2,)), ((2,), (2,)), ((2, 1), (2,)), ((1,), (2,)), ((2, 2), None)):
        cs.append(Case(f"gauss-{sm}-{ss}".replace(" ", ""), gauss, dict(n=2 if not big else 3, sm=sm, ss=ss, norm=None), **o))
    cs.append(Case("gauss-(2,)-(2,)-norm", gauss, dict(n=3, sm=(2,), ss=(2,), norm="symbolic"), **o))
    cs.append(Case("gauss-rows", gauss2, **o))
    N = (None,) * 3
    for n in (2, 3) if not big else (2, 3, 4):
        for norm in (None, "symbolic", 0):
            cs.append(Case(f"smail-{n}-{norm}", smail, dict(n=n, shapes=N, norm=norm), **o))
    for shp in (((2,), None, None), (None, (2,), None), (None, None, (2,)), ((2,), (2,), (2,)), ((2, 1), (2,), None), (None, (2, 1), (2,)), ((1,), None, None)):
        cs.append(Case(f"smail-{shp}".replace(" ", "").replace("None", "-"), smail, dict(n=2, shapes=shp, norm=None), **o))
    for a, b in ((2, 1), (2.0, 1.5), (1, 2), (0.5, 1.0), (3, 1)):
        cs.append(Case(f"smail-fixed-{a}-{b}", smail, dict(n=3, shapes=N, norm="symbolic", exps=(a, b), lo=0.0), **o))
    return cs
