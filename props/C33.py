"""Sampled ellipticities."""
import math
import numpy as np
import glass.shapes as S
from symxp.engine import Case
from .common import flat
from .C31 import Rounds

FUNCTIONS = ["glass.shapes.ellipticity_gaussian", "glass.shapes.ellipticity_intnorm", "glass.shapes.ellipticity_ryden04",
             "glass.shapes._populate_random_complex_array"]
BOUNDS = ("counts 0 to 3 per population in shapes (), (2,), (3,), (2, 2) and broadcasts with the parameters, symbolic standard deviations and parameters, "
          "every pattern of acceptance and rejection within 2 to 4 rounds of draws")
ASSUMPTIONS = ["normal draws are arbitrary between -5 and 5 standard deviations; histories with more rejections are outside the bound",
               "the projection of ellipsoids is external here: an arbitrary axis ratio in [0, 1] (see C34)"]


def normals(h, rng):
    """all elementary normals in order"""
    out = []
    for what, info, r in rng.log:
        h.fact(what in ("standard_normal", "normal"), f"normal draws only: {what}")
        out += flat(h, r if what == "standard_normal" else info["z"])
    return out


def parts(h, e):
    """real and imaginary parts of all entries"""
    return flat(h, h.xp.real(e)), flat(h, h.xp.imag(e))


def pick(h, x, us, used, fn):
    """index of the unused draw that x is made of"""
    if h.sym:
        from symxp.scalar import S as Sy
        a = x.a.reshape(-1)[0] if hasattr(x, "a") else x
        for q, u in enumerate(us):
            b = u.a.reshape(-1)[0] if hasattr(u, "a") else u
            if q not in used and isinstance(a, Sy) and isinstance(b, Sy) and b.vars() <= a.vars():
                return q
        return None
    best = [(abs(float(fn(u)) - float(x)), q) for q, u in enumerate(us) if q not in used]
    return min(best)[1] if best else None


def setup(h, counts, ss, smax):
    if isinstance(counts, int):
        count = counts
        cs = np.array(counts)
    else:
        cs = np.array(counts)
        count = h.const(cs)
    sig = h.real("sigma", 0.0625, smax) if ss is None else h.arr("sigma", ss, 0.0625, smax)
    dims = np.broadcast_shapes(cs.shape, ss or ())
    per = np.broadcast_to(cs, dims).reshape(-1)
    sl = flat(h, h.xp.broadcast_to(h.xp.asarray(sig), dims))
    owner = [k for k, n in enumerate(per) for _ in range(int(n))]
    return count, sig, sl, owner


def gauss(h, counts, ss, rounds):
    count, sig, sl, owner = setup(h, counts, ss, 1)
    k0 = sig + 0
    rng = Rounds(h, 2 * rounds)
    e = S.ellipticity_gaussian(count, sig, rng=rng, xp=h.xp)
    h.same(tuple(e.shape), (len(owner),), "as many ellipticities as requested")
    us = normals(h, rng)
    used, redrawn = set(), 0
    re, im = parts(h, e)
    for i, k in enumerate(owner):
        s = sl[k]
        for x in (re[i], im[i]):
            q = pick(h, x, us, used, lambda u: s * u)
            h.fact(q is not None, "every component has a draw of its own")
            if q is None:
                return
            used.add(q)
            h.eq(x, s * us[q], "component is a normal scaled by the standard deviation of the population")
        h.true(re[i] * re[i] + im[i] * im[i] <= 1 + 1e-12, "modulus at most one")
    rest = [u for q, u in enumerate(us) if q not in used]
    if not h.sym and len(owner) == 1:
        rest = us[:-2]
    if rest and len(owner) == 1 and (not h.sym or used == {len(us) - 2, len(us) - 1}):
        # one galaxy: the draws come in rounds of one pair, all but the last are too large
        s = sl[owner[0]]
        for a, b in zip(rest[::2], rest[1::2]):
            h.true(s * s * (a * a + b * b) >= 1 - 1e-12, "only moduli above one are redrawn")
    elif rest:
        # some pair of draws must have been too large
        ok = False
        for x in range(len(rest)):
            for y in range(x):
                for s in sl:
                    ok = ok | (s * s * (rest[x] * rest[x] + rest[y] * rest[y]) >= 1 - 1e-12)
        h.true(ok, "only moduli above one are redrawn")
    h.eq(sig, k0, "parameters unchanged")


def accepted(h, n):
    """no redraw if the first draws are all admissible"""
    sig = h.real("sigma", 0.0625, 1)
    rng = Rounds(h, 8)
    e = S.ellipticity_gaussian(n, sig, rng=rng, xp=h.xp)
    us = normals(h, rng)[:2 * n]
    for u in us:
        h.assume(sig * sig * u * u <= 0.5)
    h.same(len(normals(h, rng)), 2 * n, "admissible draws are kept")
    h.same(tuple(e.shape), (n,), "as many ellipticities as requested")


def intnorm(h, counts, ss):
    count, sig, sl, owner = setup(h, counts, ss, 0.6875)
    k0 = sig + 0
    rng = Rounds(h, 20)
    e = S.ellipticity_intnorm(count, sig, rng=rng, xp=h.xp)
    h.same(tuple(e.shape), (len(owner),), "as many ellipticities as requested")
    us = normals(h, rng)
    h.same(len(us), 2 * len(owner), "one pair of draws per ellipticity")
    used = set()
    re, im = parts(h, e)
    for i, k in enumerate(owner):
        s = sl[k]
        eta = s * h.xp.sqrt(h.xp.asarray((8 + 5 * s * s) / (2 - 4 * s * s)))

        def shrunk(a, b):
            r = h.xp.hypot(h.xp.asarray(eta * a), h.xp.asarray(eta * b))
            return r, h.xp.tanh(r / 2)

        if h.sym:
            qa = pick(h, re[i], us, used, None)
            if qa is None:
                h.fact(False, "every ellipticity has a pair of draws")
                return
            used.add(qa)
            qb = pick(h, im[i], us, used, None)
            if qb is None:
                h.fact(False, "every ellipticity has a pair of draws")
                return
            used.add(qb)
        else:
            best = None
            for x in range(len(us)):
                for y in range(len(us)):
                    if x != y and x not in used and y not in used:
                        r, t = shrunk(us[x], us[y])
                        f = float(t / r) if r > 0 else 1.0
                        d = abs(eta * us[x] * f - re[i]) + abs(eta * us[y] * f - im[i])
                        if best is None or d < best[0]:
                            best = (d, x, y)
            qa, qb = best[1:]
            used |= {qa, qb}
        a, b = eta * us[qa], eta * us[qb]
        r, t = shrunk(us[qa], us[qb])
        h.eq(re[i] * r, a * t, "modulus is the hyperbolic tangent of half the normal, same direction")
        h.eq(im[i] * r, b * t, "modulus is the hyperbolic tangent of half the normal, same direction")
        h.true(t <= 1, "modulus at most one")
        h.true(t >= 0, "direction is kept")
        if h.branch(r == 0):
            h.eq(re[i], 0, "zero normals give zero")
            h.eq(im[i], 0, "zero normals give zero")
    h.eq(sig, k0, "parameters unchanged")


def intnorm_invalid(h, ss):
    s = h.real("s", -1, 2)
    h.assume(h.xp.asarray((s < 0) | (s * s > 0.5 + 1e-9)))
    sig = s if ss is None else h.xp.stack([h.xp.asarray(h.real("good", 0, 0.5)), h.xp.asarray(s)])
    h.raises(ValueError, lambda: S.ellipticity_intnorm(1, sig, rng=Rounds(h, 9), xp=h.xp), "inadmissible standard deviation is rejected")


def ryden(h, shapes, size, rounds):
    mu, sg, ga, sga = (h.real(n, lo, hi) if shp is None else h.arr(n, shp, lo, hi) for n, shp, lo, hi in
                       zip(("mu", "sigma", "gamma", "sgamma"), shapes, (-4, 0.0625, 0, 0.0625), (0, 2, 1, 1)))
    dims = np.broadcast_shapes(*[s or () for s in shapes]) if size is None else size if isinstance(size, tuple) else (size,)
    calls = []
    n = int(np.prod(dims, dtype=int))

    def project(zeta, xi, size=None, *, rng=None, xp=None):
        calls.append((zeta + 0, xi + 0, size))
        shp = np.broadcast_shapes(tuple(zeta.shape), tuple(xi.shape))
        q = h.xp.asarray(h.real("q", 0, 1)) if shp == () else h.arr("q", shp, 0, 1)
        calls[-1] += (q + 0,)
        return q

    h.stub(S, "triaxial_axis_ratio", project)
    rng = Rounds(h, rounds + 1)
    kw = {} if size is None else dict(size=size)
    e = S.ellipticity_ryden04(mu, sg, ga, sga, rng=rng, xp=h.xp, **kw)
    h.same(tuple(e.shape), dims, "as many ellipticities as requested")
    h.same(len(calls), 1, "one projection")
    zeta, xi, sz, q = calls[0]
    h.same(sz is None or tuple(np.atleast_1d(sz)) == dims, True, "one projection per galaxy")
    h.same(tuple(np.broadcast_shapes(tuple(zeta.shape), tuple(xi.shape))), dims, "one ellipsoid per galaxy")
    ns, ph = [], []
    for what, info, r in rng.log:
        if what in ("standard_normal", "normal"):
            ns += flat(h, r if what == "standard_normal" else info["z"])
        else:
            h.fact(what in ("uniform", "random"), "phases are uniform draws")
            ph += flat(h, info["u"] if what == "uniform" else r)
    h.same(len(ph), n, "one phase per galaxy")
    ms, ss, gs, gss = (flat(h, h.xp.broadcast_to(h.xp.asarray(v), dims)) for v in (mu, sg, ga, sga))
    zs, xs, qs = (flat(h, h.xp.broadcast_to(v, dims)) for v in (zeta, xi, q))
    used = set()
    re, im = parts(h, e)

    def match(fn, label):
        best = [(0 if same(h, fn(u)) else 1, k) if h.sym else (abs(float(fn(u))), k) for k, u in enumerate(ns) if k not in used]
        ok = bool(best) and min(best)[0] < 1e-9
        h.fact(ok, label)
        if ok:
            used.add(min(best)[1])
        return ok

    for i in range(n):
        h.true(zs[i] >= 0, "axis ratio in the unit interval")
        h.true(zs[i] <= 1, "axis ratio in the unit interval")
        h.true(xs[i] >= 0, "axis ratio in the unit interval")
        h.true(xs[i] <= zs[i], "minor axis not longer than the intermediate one")
    for i in range(n):
        if not match(lambda u: 1 - zs[i] - h.xp.exp(h.xp.asarray(ms[i] + ss[i] * u)), "logarithm of one minus the axis ratio is a normal of its own"):
            return
    for i in range(n) if h.sym else sorted(range(n), key=lambda i: -float(zs[i])):
        if not match(lambda u: xs[i] - (1 - gs[i] - gss[i] * u) * zs[i], "one minus the second axis ratio is a normal of its own"):
            return
    for i in range(n):
        f = ph[i] * (2 * h.pi() if h.sym else 2 * math.pi)
        h.eq(re[i] * (1 + qs[i]), (1 - qs[i]) * h.xp.cos(h.xp.asarray(f)), "modulus (1 - q) / (1 + q) with a uniform phase")
        h.eq(im[i] * (1 + qs[i]), (1 - qs[i]) * h.xp.sin(h.xp.asarray(f)), "modulus (1 - q) / (1 + q) with a uniform phase")
        h.true(re[i] * re[i] + im[i] * im[i] <= 1 + 1e-9, "modulus at most one")
    # draws that are not used were outside of the range
    for k, u in enumerate(ns):
        if k not in used and n == 1:
            out = (ms[0] + ss[0] * u >= 0) | (gs[0] + gss[0] * u <= 0) | (gs[0] + gss[0] * u >= 1)
            h.true(out, "only draws outside of the range are repeated")


def same(h, d):
    """whether a term is identically zero"""
    from symxp.scalar import S as Sy
    a = d.a.reshape(-1)[0] if hasattr(d, "a") else d
    return not isinstance(a, Sy) and a == 0


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150 if not big else 1500, max_paths=4000)
    cs = []
    for c, ss, r in ((1, None, 3), (2, None, 3), (3, None, 1), (0, None, 2), ((2,), None, 3), ((1, 1), None, 3), ((2, 0, 1), None, 4), ((1, 0), (2,), 3), (1, (2,), 3),
                     (((1, 0), (1, 1)), None, 5), ((0, 2), (2,), 3), ((1,), (2, 1), 3), (((1,), (1,)), (2,), 4)):
        cs.append(Case(f"gaussian-{c}-{ss}".replace(" ", ""), gauss, dict(counts=c, ss=ss, rounds=r + (1 if big else 0)), **o))
    for n in (1, 2) if not big else (1, 2, 3):
        cs.append(Case(f"accepted-{n}", accepted, dict(n=n), **o))
    for c, ss in ((1, None), (2, None), (0, None), ((2,), None), ((1, 2), None), ((2, 0, 1), None), ((1, 1), (2,)), (1, (2,)), (((1, 0), (1, 1)), None), ((0, 2), (2,)),
                  (((1,), (1,)), (2,)), (1, (2, 2))):
        cs.append(Case(f"intnorm-{c}-{ss}".replace(" ", ""), intnorm, dict(counts=c, ss=ss), **o))
    for ss in (None, 2):
        cs.append(Case(f"intnorm-invalid-{ss}", intnorm_invalid, dict(ss=ss), **o))
    N = (None,) * 4
    for shp, size, r in ((N, 1, 4), (N, (1,), 3), (N, (2,), 2), (((1,), None, None, None), None, 4), (((2,), None, None, None), None, 2),
                         ((None, (2,), None, None), None, 3), ((None, None, (2,), None), None, 3), ((None, None, None, (2,)), None, 3), (((2,), (2,), (2,), (2,)), None, 2),
                         (((2, 1), None, (1,), None), None, 2), (N, (2, 1), 2), (((1,), None, None, (1,)), (2,), 2)):
        cs.append(Case(f"ryden-{shp}-{size}".replace(" ", "").replace("None", "-"), ryden, dict(shapes=shp, size=size, rounds=r), **o))
    return cs
