"""Nearest correlation and covariance matrices."""
import warnings
from fractions import Fraction
import numpy as np
import glass.algorithm as alg
from symxp.engine import Case
from .common import flat, nested

FUNCTIONS = ["glass.algorithm.nearcorr", "glass.algorithm.cov_nearest", "glass.algorithm.cov_clip"]
BOUNDS = ("matrices of size 1 to 4 with symbolic entries, stacks of shape (), (1,), (2,), (1, 2), (2, 1), (2, 2), (0,), 1 to 3 iterations, symbolic or default tolerance; "
          "every pattern of convergence of the iterations")
ASSUMPTIONS = ["the eigenvalue decompositions of the iterates are arbitrary symbolic eigenvalues in [0.04, 4] with eigenvectors from a set of rational rotations "
               "(the projection itself is decided by C06); matrices that are already valid have their true decomposition"]

# rational rotations of each size
ROT = {1: [[[1.0]]],
       2: [[[0.6, -0.8], [0.8, 0.6]], [[0.8, 0.6], [-0.6, 0.8]], [[1.0, 0.0], [0.0, 1.0]]],
       3: [[[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]], [[1.0, 0.0, 0.0], [0.0, 0.8, 0.6], [0.0, -0.6, 0.8]]],
       4: [[[0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [0.5, 0.5, -0.5, -0.5], [0.5, -0.5, -0.5, 0.5]]]}


class Eigh:
    """eigenvalue decomposition with prescribed answers; records what it was asked"""

    def __init__(self, h, n, wide=False):
        self.wide = wide
        self.h, self.n, self.args, self.res = h, n, [], []
        h.stub(h.xp.linalg, "eigh", self)

    def __call__(self, a, *args, **kw):
        h, n = self.h, self.n
        k = len(self.args)
        self.args.append(a + 0)
        lead = tuple(a.shape[:-2])
        s = h.arr(f"s{k}", lead + (n,), 0.2, 0.95 if self.wide else 0.3, increasing=(0.0, 0.3 if self.wide else 0.2)) if n > 1 else h.arr(f"s{k}", lead + (n,), 0.2, 1.2)
        w = s * s
        v = np.empty(lead + (n, n), dtype=object)
        for q, i in enumerate(np.ndindex(*lead)):
            for pq in np.ndindex(n, n):
                v[i + pq] = h.num(Fraction(str(ROT[n][(k + q) % len(ROT[n])][pq[0]][pq[1]])))
        V = nested(h, v.tolist()) if v.size else h.const(np.zeros(lead + (n, n)))
        self.res.append([[[sum(v[i + (p, t)] * v[i + (q, t)] * w[i + (t,)] for t in range(n)) for q in range(n)] for p in range(n)] for i in np.ndindex(*lead)])
        from collections import namedtuple
        return namedtuple("EighResult", "eigenvalues eigenvectors")(w, V)


def frob(h, m):
    return h.xp.sqrt(h.xp.asarray(sum(x * x for r in m for x in r)))


def warned(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = fn()
    return r, [str(w.message) for w in ws]


def follow(h, start, e, n, niter, tol, ws, result, shape):
    """the iterates follow the projections with correction from the matrices `start`"""
    B = len(start)
    k = len(e.args)
    h.fact(1 <= k <= niter, "number of iterations within the limit")
    y = start
    ds = [[[h.num(0.0)] * n for _ in range(n)] for _ in range(B)]
    conv = None
    for t in range(k):
        h.same(int(np.prod(e.args[t].shape[:-2], dtype=int)), B, "all matrices of the stack are projected")
        if int(np.prod(e.args[t].shape[:-2], dtype=int)) != B:
            return
        a = h.xp.reshape(e.args[t], (B, n, n))
        x = e.res[t]
        cs = []
        newy, newds = [], []
        for b in range(B):
            h.eq(a[b, ...], nested(h, [[y[b][p][q] - ds[b][p][q] for q in range(n)] for p in range(n)]),
                 "projected matrix is the iterate less the correction of that matrix", atol=1e-9)
            newds.append([[x[b][p][q] - (y[b][p][q] - ds[b][p][q]) for q in range(n)] for p in range(n)])
            newy.append([[h.num(1.0) if p == q else x[b][p][q] for q in range(n)] for p in range(n)])
            d = frob(h, [[newy[b][p][q] - x[b][p][q] for q in range(n)] for p in range(n)])
            cs.append(d <= tol * frob(h, newy[b]))
        y, ds = newy, newds
        if conv:
            h.fact(False, "iteration stops when all matrices have converged")
        conv = all(h.branch(c) for c in cs)
    h.fact(conv or k == niter, "iteration continues until all matrices have converged")
    h.fact(bool(conv) == (not any("not found" in w for w in ws)), "warning if and only if there is no convergence")
    r = h.xp.reshape(result, (B, n, n))
    for b in range(B):
        for p in range(n):
            h.eq(r[b, p, p], 1, "unit diagonal")
        h.eq(r[b, ...], nested(h, y[b]), "last iterate is returned", atol=1e-9)


def corr(h, n, shape, niter, tol, default_niter=False):
    a0 = h.arr("a", shape + (n, n), -2, 2)
    a = a0 + h.xp.matrix_transpose(a0)
    keep = a + 0
    e = Eigh(h, n, tol)
    kw = {}
    if tol:
        kw["tol"] = h.real("tol", 0.001, 0.5)
    if not default_niter:
        kw["niter"] = niter
    r, ws = warned(lambda: alg.nearcorr(a, **kw))
    h.same(tuple(r.shape), shape + (n, n), "shape of the result")
    B = int(np.prod(shape, dtype=int))
    ab = h.xp.reshape(keep, (B, n, n))
    start = [[[ab[b, p, q] for q in range(n)] for p in range(n)] for b in range(B)]
    follow(h, start, e, n, niter, kw.get("tol", n * float(np.finfo(float).eps)), ws, r, shape)
    h.eq(a, keep, "input unchanged")


def converged(h, n, shape, niter, tol=0.25):
    """projections with (almost) unit diagonal end the iteration"""
    a0 = h.arr("a", shape + (n, n), -2, 2)
    a = a0 + h.xp.matrix_transpose(a0)
    e = Eigh(h, n)

    def near(x, *args, **kw):
        k = len(e.args)
        e.args.append(x + 0)
        lead = tuple(x.shape[:-2])
        s = h.arr(f"s{k}", lead + (n,), 0.5, 1.25)
        w = s * s
        v = np.zeros(lead + (n, n))
        v[...] = np.eye(n)
        e.res.append([[[w[i + (p,)] if p == q else h.num(0.0) for q in range(n)] for p in range(n)] for i in np.ndindex(*lead)])
        from collections import namedtuple
        return namedtuple("EighResult", "eigenvalues eigenvectors")(w, h.const(v))
    h.stub(h.xp.linalg, "eigh", near)
    r, ws = warned(lambda: alg.nearcorr(a, niter=niter, tol=tol))
    B = int(np.prod(shape, dtype=int))
    ab = h.xp.reshape(a, (B, n, n))
    start = [[[ab[b, p, q] for q in range(n)] for p in range(n)] for b in range(B)]
    follow(h, start, e, n, niter, tol, ws, r, shape)


def valid_corr(h, n):
    """valid correlation matrices with known decomposition"""
    v = np.asarray(ROT[4][0] if n == 4 else [[0.5 ** 0.5, 0.5 ** 0.5], [-0.5 ** 0.5, 0.5 ** 0.5]] if n == 2 else [[1.0]])
    if n == 1:
        w = [h.num(1.0)]
    elif n == 2:
        c = h.real("c", 0, 0.9375)
        w = [1 - c, 1 + c]
    else:
        w = [h.real("w0", 0.0625, 0.25), h.real("w1", 0.25, 0.5), h.real("w2", 0.5, 1)]
        w.append(4 - w[0] - w[1] - w[2])
    if n == 2:
        m = [[h.num(1.0), c], [c, h.num(1.0)]]
    else:
        m = [[sum(v[p, t] * v[q, t] * w[t] for t in range(n)) for q in range(n)] for p in range(n)]
    return m, w, v


def valid(h, n, cov, shape):
    m, w, v = valid_corr(h, n)
    g = [h.real(f"g{i}", 0.25, 4) for i in range(n)] if cov else [h.num(1.0)] * n
    a = nested(h, [[m[p][q] * g[p] * g[q] for q in range(n)] for p in range(n)])
    a = h.xp.broadcast_to(a, shape + (n, n)) + 0
    asked = []
    if h.sym:
        def eigh(x, *args, **kw):
            asked.append(x)
            lead = tuple(x.shape[:-2])
            from collections import namedtuple
            ws = h.xp.broadcast_to(nested(h, w), lead + (n,)) + 0
            vs = nested(h, [[exact(h, v[p, t], n) for t in range(n)] for p in range(n)])
            return namedtuple("EighResult", "eigenvalues eigenvectors")(ws, h.xp.broadcast_to(vs, lead + (n, n)) + 0)
        h.stub(h.xp.linalg, "eigh", eigh)
    kw = dict(tol=1e-9)
    r, ws = warned(lambda: (alg.cov_nearest if cov else alg.nearcorr)(a, **kw))
    for x in asked:
        for y in [x] if x.ndim == 2 else [h.xp.reshape(x, (-1, n, n))[i, ...] for i in range(int(np.prod(x.shape[:-2], dtype=int)))]:
            for p in range(n):
                for q in range(n):
                    h.true(y[p, q] == m[p][q], "decomposed matrix is the valid correlation matrix")
    h.eq(r, a, "valid matrix is returned unchanged", atol=1e-9)
    h.same(ws, [], "no warning")


def exact(h, x, n):
    if n != 2:
        return h.num(float(x))
    r = h.xp.sqrt(h.xp.asarray(h.num(0.5)))
    return r if x > 0 else -r


def cov(h, n, shape, niter, zeros, tol):
    g = h.arr("g", shape + (n,), 0.0001, 3)
    if zeros:
        mask = np.ones(shape + (n,))
        for i in np.ndindex(*shape):
            for z in zeros:
                if z < n:
                    mask[i + (z,)] = 0.0
        g = g * h.const(mask)
    o = h.arr("o", shape + (n, n), -4, 4)
    low = h.const(np.tril(np.ones((n, n)), -1))
    o = o * low
    a = o + h.xp.matrix_transpose(o) + (g * g)[..., None] * h.const(np.eye(n))
    keep = a + 0
    e = Eigh(h, n)
    kw = dict(tol=h.real("tol", 0.001, 0.5)) if tol else {}
    if niter is not None:
        kw["niter"] = niter
    r, ws = warned(lambda: alg.cov_nearest(a, **kw))
    h.same(tuple(r.shape), shape + (n, n), "shape of the result")
    B = int(np.prod(shape, dtype=int))
    gb, ab, rb = (h.xp.reshape(x, (B,) + tuple(x.shape)[len(shape):]) for x in (g, keep, r))
    start = [[[ab[b, p, q] if (p in zeros or q in zeros) else ab[b, p, q] / (gb[b, p] * gb[b, q]) for q in range(n)] for p in range(n)] for b in range(B)]
    # undo the scaling where it is not zero
    for b in range(B):
        for p in range(n):
            h.eq(rb[b, p, p], gb[b, p] * gb[b, p], "diagonal is unchanged")
            for q in range(n):
                if p in zeros or q in zeros:
                    h.eq(rb[b, p, q], 0, "rows of zero variance are zero")
                elif q < p:
                    h.eq(rb[b, p, q], rb[b, q, p], "symmetric")
    if len(e.args) == 0:
        h.fact(False, "the correlation matrix is projected")
        return
    a0 = h.xp.reshape(e.args[0], (B, n, n))
    for b in range(B):
        for p in range(n):
            for q in range(n):
                if p not in zeros and q not in zeros:
                    h.eq(a0[b, p, q] * gb[b, p] * gb[b, q], ab[b, p, q], "correlation matrix of the covariance")
                    if p != q:
                        x = e.res[-1][b][p][q]
                        h.eq(rb[b, p, q], x * gb[b, p] * gb[b, q], "scaled correlation matrix")
    k = len(e.args)
    h.fact(k <= (niter or 100), "iterations limited")
    h.eq(a, keep, "input unchanged")


def negative(h, n, pos, shape):
    d = h.arr("d", shape + (n,), 0, 3)
    neg = np.zeros(shape + (n,))
    neg[..., pos] = 1.0
    if shape:
        neg[0] = 0.0
    m = h.real("m", 0.001, 5)
    d = h.xp.where(h.const(neg) > 0, -m, d)
    o = h.arr("o", (n, n), -2, 2)
    a = d[..., None] * h.const(np.eye(n)) + (o + o.T) * h.const(1 - np.eye(n))
    h.raises(ValueError, lambda: alg.cov_nearest(a), "negative variance is rejected")


def notsquare(h, shp):
    a = h.arr("a", shp)
    h.raises(ValueError, lambda: alg.nearcorr(a), "matrix that is not square is rejected")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=3000)
    cs = []
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "")
    for n, shape, niter, tol in ((1, (), 2, True), (2, (), 1, True), (2, (), 3, False), (2, (), 2, True), (3, (), 2, False), (2, (1,), 2, False), (2, (2,), 2, False), (2, (2,), 1, True), (2, (2,), 2, True),
                                 (2, (1, 2), 2, False), (2, (2, 1), 2, False), (2, (2, 2), 2, False), (3, (2,), 2, False), (4, (), 2, False), (1, (2,), 2, True), (2, (), 4 if not big else 6, False)):
        cs.append(Case(nm("corr", n, shape, niter, tol), corr, dict(n=n, shape=shape, niter=niter, tol=tol), **o))
    for n, shape, niter in ((1, (), 3), (1, (2,), 2), (1, (2, 2), 1), (2, (), 2), (1, (1, 2), 1)):
        cs.append(Case(nm("converged", n, shape, niter), converged, dict(n=n, shape=shape, niter=niter), **o))
    for n in (1, 2, 4):
        for c in (False, True):
            for shape in ((), (2,), (2, 1)):
                cs.append(Case(nm("valid", n, c, shape), valid, dict(n=n, cov=c, shape=shape), **o))
    for n, shape, niter, zeros in ((1, (), 2, ()), (2, (), 2, ()), (3, (), 1, ()), (2, (2,), 2, ()), (2, (), 2, (0,)), (3, (), 2, (1,)), (3, (), 1, (0, 2)), (2, (), 1, (0, 1)), (2, (2, 1), 2, (1,)),
                                   (1, (), 1, (0,))):
        cs.append(Case(nm("cov", n, shape, niter, zeros), cov, dict(n=n, shape=shape, niter=niter, zeros=zeros, tol=False), **o))
    for n, pos, shape in ((1, 0, ()), (2, 1, ()), (3, 0, ()), (2, 0, (2,)), (2, 1, (2, 2))):
        cs.append(Case(nm("negative", n, pos, shape), negative, dict(n=n, pos=pos, shape=shape), **o))
    for shp in ((2, 3), (3, 2), (2, 2, 1)):
        cs.append(Case(nm("notsquare", shp), notsquare, dict(shp=shp), **o))
    return cs
