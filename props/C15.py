"""Partition of functions by windows and combination of windows."""
import numpy as np
import glass.algorithm
import glass.shells as S
from symxp.engine import Case
from .common import trapz
from .C14 import lininterp, _any

FUNCTIONS = ["glass.shells.combine", "glass.shells.partition", "glass.shells.partition_lstsq", "glass.shells.partition_nnls",
             "glass.shells.partition_restrict", "glass.shells.restrict", "glass.arraytools.ndinterp", "glass.algorithm.nnls"]
BOUNDS = ("combination: 1 to 3 windows with 2 or 3 symbolic nodes, 1 or 2 symbolic redshifts, leading axes (), (2,), (2, 2); partition: 2 to 4 "
          "overlapping or disjoint windows on fixed grids with 5 to 9 grid points, symbolic weights or function values, leading axes (), (2,), "
          "(2, 2), (1, 2)")
ASSUMPTIONS = ["windows have positive integral; where weights are to be recovered they vanish at their ends (or end with the grid)", "least squares and QR factors are replaced by their exact definitions",
               "in the cases named solver, the non-negative solver is replaced by a contract (its own property is C41)"]

# windows on fixed grids: list of (za, wa)
SETS = {
    "overlap": [([0.0, 0.5, 1.0], [0.0, 1.0, 0.0]), ([0.5, 1.0, 1.5], [0.0, 2.0, 0.0])],
    "disjoint": [([0.0, 0.25, 0.5], [0.0, 1.0, 0.0]), ([0.75, 1.0, 1.5], [0.0, 3.0, 0.0])],
    "three": [([0.0, 0.5, 1.0], [0.0, 1.0, 0.0]), ([0.5, 1.0, 1.5], [0.0, 1.0, 0.0]), ([1.0, 1.5, 2.0], [0.0, 1.0, 0.0])],
    "uneven": [([0.0, 0.25, 1.0], [1.0, 2.0, 0.0]), ([0.25, 0.5, 1.5], [0.0, 1.0, 0.0]), ([0.5, 1.0, 2.0], [0.0, 1.0, 1.0])],
    "four": [([0.0, 0.5, 1.0], [0.0, 1.0, 0.0]), ([0.5, 1.0, 1.5], [0.0, 1.0, 0.0]), ([1.0, 1.5, 2.0], [0.0, 2.0, 0.0]),
             ([1.5, 2.0, 2.25], [0.0, 1.0, 0.0])],
}


def fixed(h, name):
    return [S.RadialWindow(h.const(a), h.const(b), 0.5 * (a[0] + a[-1])) for a, b in SETS[name]]


def grid(name, extra=()):
    return sorted(set(x for a, _ in SETS[name] for x in a) | set(extra))


def unit(name, i, z):
    """unit-normalised window i at z (plain numbers)"""
    a, w = map(np.asarray, SETS[name][i])
    return float(np.interp(z, a, w / np.trapezoid(w, a), left=0.0, right=0.0))


def combined(h, name, x, zs):
    """sum_i x[i, ...] w_i(z) with the redshifts on the last axis"""
    from fractions import Fraction
    n = len(SETS[name])
    cols = []
    for z in zs:
        t = 0.0 * x[0]
        for i in range(n):
            u = unit(name, i, z)
            if u:
                t = t + h.num(Fraction(u).limit_denominator(10**6)) * x[i]
        cols.append(t)
    return h.xp.stack(cols, axis=-1)


def comb(h, ns, nn, nz, lead):
    ws, raw = [], []
    for i in range(ns):
        za, wa = h.arr(f"a{i}", nn, 0, 3, increasing=(0.01, 3)), h.arr(f"w{i}", nn, 0, 3)
        h.assume(trapz(wa, za) >= 0.01)
        raw.append((za + 0, wa + 0))
        ws.append(S.RadialWindow(za, wa, 1.0))
    z = h.arr("z", nz, 0, 9)
    x = h.arr("x", (ns,) + lead)
    kz, kx = z + 0, x + 0
    out = S.combine(z, x, ws)
    h.same(tuple(out.shape), lead + (nz,), "shape of the combination")
    for j in range(nz):
        t = 0.0 * kx[0]
        for (za, wa), xi in zip(raw, [kx[i] for i in range(ns)]):
            t = t + xi * (lininterp(h, kz[j], za, wa, lambda s: h.num(0.0)) / trapz(wa, za))
        h.eq(out[..., j], t, "weighted sum of the normalised windows")
    h.eq(z, kz, "redshifts unchanged")
    h.eq(x, kx, "weights unchanged")
    for w, (a, b) in zip(ws, raw):
        h.eq(w.za, a, "window grid unchanged")
        h.eq(w.wa, b, "window unchanged")


def recover(h, name, method, lead, extra):
    n = len(SETS[name])
    x = h.arr("x", (n,) + lead, 0 if method in ("nnls", None) else -3, 3)
    zs = grid(name, extra)
    f = combined(h, name, x, zs)
    z = h.const(zs)
    kf = f + 0
    ws = fixed(h, name)
    r = S.partition(z, f, ws, method=method) if method else S.partition(z, f, ws)
    h.same(tuple(r.shape), (n,) + lead, "shells on the leading axis")
    h.eq(r, x, "weights are recovered")
    h.eq(f, kf, "function unchanged")


def onebyone(h, name, method, lead):
    n = len(SETS[name])
    zs = grid(name)[1:-1] + [grid(name)[-1] + 0.5]
    f = h.arr("f", lead + (len(zs),), -3 if method != "nnls" else 0, 3)
    z, ws = h.const(zs), fixed(h, name)
    log = []
    if method == "nnls":
        h.stub(glass.algorithm, "nnls", nnls_contract(h, log))
    r = S.partition(z, f, ws, method=method)
    h.same(tuple(r.shape), (n,) + lead, "shells on the leading axis")
    k = 0
    for i in np.ndindex(*lead):
        if method == "nnls":
            h.fact(k < len(log), "one solution per function")
            h.eq(r[(slice(None),) + i], log[k][2], "solutions in order")
            k += 1
        else:
            h.eq(r[(slice(None),) + i], S.partition(z, f[i + (slice(None),)], ws, method=method), "partition one by one")
    if method == "nnls":
        h.same(len(log), k, "one solution per function")
        first = list(log)
        for q, i in enumerate(np.ndindex(*lead)):
            del log[:]
            S.partition(z, f[i + (slice(None),)], ws, method=method)
            (a, b, _), (a0, b0, _) = log[0], first[q]
            h.eq(a.T @ a, a0.T @ a0, "same system one by one")
            h.eq(a.T @ b, a0.T @ b0, "same target one by one")


def nnls_contract(h, log):
    count = []

    def nnls(a, b, **kw):
        r = h.arr(f"s{len(count)}", a.shape[-1], 0, 5)
        count.append(1)
        log.append((a + 0, b + 0, r))
        return r + 0
    return nnls


def solver(h, name, lead, extra):
    """the system given to the solver is solved exactly by the weights of a combination"""
    n = len(SETS[name])
    x = h.arr("x", (n,) + lead, 0, 3)
    zs = grid(name, extra)
    f = combined(h, name, x, zs)
    log = []
    h.stub(glass.algorithm, "nnls", nnls_contract(h, log))
    r = S.partition(h.const(zs), f, fixed(h, name), method="nnls")
    h.same(len(log), int(np.prod(lead, dtype=int)), "one system per function")
    h.same(tuple(r.shape), (n,) + lead, "shells on the leading axis")
    for k, i in enumerate(np.ndindex(*lead)):
        a, b, s = log[k]
        xi = x[(slice(None),) + i]
        h.eq(a.T @ (a @ xi), a.T @ b, "weights solve the system")
        h.eq(r[(slice(None),) + i], s, "solution in its place")
    a = log[0][0]
    if h.sym:
        from symxp.array import elem
        d = h.xp.linalg.det(a.T @ a)
    else:
        d = np.linalg.det(np.asarray(a).T @ np.asarray(a))
    h.true(d > 1e-9, "windows are independent in the system")


def restricted(h, name, lead, zs):
    f = h.arr("f", lead + (len(zs),), -3, 3)
    z, ws = h.const(zs), fixed(h, name)
    r = S.partition(z, f, ws, method="restrict")
    n = len(ws)
    h.same(tuple(r.shape), (n,) + lead, "shells on the leading axis")
    for k, (a, w) in enumerate(SETS[name]):
        pts = sorted(set(a) | {x for x in zs if a[0] < x < a[-1]})
        wv = np.interp(pts, a, w)
        for i in np.ndindex(*lead):
            g = f[i + (slice(None),)]
            y = []
            for p, v in zip(pts, wv):
                t = h.num(0.0)
                if zs[0] <= p <= zs[-1]:
                    if len(zs) == 1:
                        t = g[0]
                    else:
                        j = max(0, min(int(np.searchsorted(zs, p, side="right")) - 1, len(zs) - 2))
                        s = (p - zs[j]) / (zs[j + 1] - zs[j])
                        t = g[j] * (1 - s) + g[j + 1] * s
                y.append(t * float(v))
            h.eq(r[(k,) + i], trapz(y, pts), "integral of the restriction")


def symrestricted(h, nz, nw):
    """symbolic grids: the integral of the output of restrict, per shell"""
    z, f = h.arr("z", nz, 0, 3, increasing=(0.01, 3)), h.arr("f", nz, -3, 3)
    ws = [S.RadialWindow(h.arr(f"a{k}", nw, 0, 3, increasing=(0.01, 3)), h.arr(f"w{k}", nw, 0, 3), 1.0) for k in range(2)]
    r = S.partition(z, f, ws, method="restrict")
    h.same(tuple(r.shape), (2,), "one value per shell")
    for k, w in enumerate(ws):
        zr, fr = S.restrict(z, f, w)
        h.eq(r[k], trapz(fr, zr), "integral of the restriction")


def bad(h):
    z, f, ws = h.const([0.0, 1.0]), h.arr("f", 2), fixed(h, "overlap")
    for m in ("", "nope", "LSTSQ", "nnls "):
        h.raises(ValueError, lambda: S.partition(z, f, ws, method=m), "unknown method is rejected")


def cases(tier):
    big = tier != "quick"
    cs = [Case("unknown-method", bad)]
    o = dict(timeout=100, max_paths=3000)
    for ns, nn, nz, lead in ((1, 2, 1, ()), (1, 3, 1, ()), (2, 2, 1, ()), (2, 2, 1, (2,)), (1, 2, 2, (2, 2)), (2, 3, 1, ()), (3, 2, 1, ())):
        cs.append(Case(f"combine-{ns}-{nn}-{nz}-{lead}".replace(" ", ""), comb, dict(ns=ns, nn=nn, nz=nz, lead=lead), **o))
    for name in ("overlap", "disjoint", "three", "uneven") + (("four",) if big else ()):
        for lead in ((), (2,), (2, 2)):
            cs.append(Case(f"recover-lstsq-{name}-{lead}".replace(" ", ""), recover, dict(name=name, method="lstsq", lead=lead, extra=()), **o))
            cs.append(Case(f"solver-{name}-{lead}".replace(" ", ""), solver, dict(name=name, lead=lead, extra=()), **o))
        cs.append(Case(f"recover-lstsq-{name}-fine", recover, dict(name=name, method="lstsq", lead=(), extra=(0.375, 1.25, 1.75)), **o))
        cs.append(Case(f"solver-{name}-fine", solver, dict(name=name, lead=(), extra=(0.375, 1.25, 1.75)), **o))
    for name in ("overlap", "disjoint"):
        cs.append(Case(f"recover-nnls-{name}", recover, dict(name=name, method="nnls", lead=(), extra=()), **o))
        cs.append(Case(f"recover-default-{name}", recover, dict(name=name, method=None, lead=(), extra=()), **o))
    for method in ("lstsq", "nnls", "restrict"):
        for lead in ((2,), (2, 2), (1, 2)):
            for name in ("overlap", "uneven"):
                cs.append(Case(f"one-by-one-{method}-{name}-{lead}".replace(" ", ""), onebyone, dict(name=name, method=method, lead=lead), **o))
    for name in ("overlap", "disjoint", "uneven"):
        for lead in ((), (2,), (1, 2)):
            for zs in ([0.25, 0.5, 1.25], [-0.5, 0.125, 0.375, 3.0], [0.5]):
                cs.append(Case(f"restrict-{name}-{lead}-{len(zs)}".replace(" ", ""), restricted, dict(name=name, lead=lead, zs=zs), **o))
    cs.append(Case("restrict-symbolic", symrestricted, dict(nz=2, nw=2), **o))
    return cs
