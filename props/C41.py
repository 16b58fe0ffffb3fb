"""Non-negative least squares."""
from fractions import Fraction
import numpy as np
import glass.algorithm as alg
from symxp.engine import Case
from .common import nested

FUNCTIONS = ["glass.algorithm.nnls"]
BOUNDS = ("matrices with 1 or 2 columns and all entries symbolic, and fixed matrices with 2 to 4 columns (chosen so that variables have to leave the active set repeatedly) "
          "with symbolic right-hand sides or one symbolic column; up to 12 iterations, symbolic tolerance; termination with solutions of the linear system that are off by up to 1e-3")
ASSUMPTIONS = ["columns are independent (a singular system is an error of the linear solver)",
               "exact arithmetic, except in the termination cases, where the linear solver may err"]

MATS = {
    "22a": [[1, 1], [2, 3]], "22b": [[-2, -1], [3, 2]], "22c": [[-1, 0], [-2, -1]],
    "32a": [[-2, -1], [2, 1], [-2, 0]], "32b": [[1, 0], [-1, 0], [3, 2]],
    "33a": [[-2, -1, 1], [2, 0, 3], [-2, 0, -2]], "33b": [[1, 0, -1], [1, 1, 3], [0, 2, 2]], "33c": [[0, -1, 0], [1, -1, 3], [0, -1, -2]], "33d": [[-1, 2, -2], [-1, 2, 0], [0, 2, 0]],
    "43a": [[1, 3, 0], [3, 3, -2], [-1, -2, -1], [1, 2, 1]], "43b": [[3, -1, -1], [3, -1, -2], [2, 1, 2], [1, 1, 3]],
    "44a": [[1, 2, 0, -1], [0, 1, 2, 1], [1, 0, 1, 3], [2, 1, 0, 1]],
}


class Solver:
    """the linear solver, counting its calls and optionally off by a little"""

    class Endless(Exception):
        pass

    def __init__(self, h, limit, err=0.0):
        self.h, self.n, self.limit, self.err = h, 0, limit, err
        self.real = h.xp.linalg.solve
        h.stub(h.xp.linalg, "solve", self)

    def __call__(self, a, b):
        self.n += 1
        if self.n > self.limit:
            raise Solver.Endless()
        s = self.real(a, b)
        if self.err:
            s = s + self.h.arr(f"err{self.n}", tuple(s.shape), -self.err, self.err)
        return s


def optimal(h, a, b, x, tol, m, n):
    """Karush-Kuhn-Tucker conditions"""
    res = [b[i] - sum(a[i, j] * x[j] for j in range(n)) for i in range(m)]
    for j in range(n):
        w = sum(res[i] * a[i, j] for i in range(m))
        h.true(x[j] >= 0, "solution is not negative")
        if h.branch(x[j] > 0):
            h.le(w, 0, "gradient vanishes for positive components")
            h.le(-w, 0, "gradient vanishes for positive components")
        else:
            h.le(w, tol, "gradient is not favourable for zero components")


def matrix(h, mat, symcol):
    M = np.array(MATS[mat], dtype=float)
    a = h.const(M)
    if symcol is not None:
        mask = np.zeros(M.shape)
        mask[:, symcol] = 1
        d = h.arr("d", (M.shape[0],), -0.25, 0.25)
        a = a + d[:, None] * h.const(mask)
    return a, M.shape[0], M.shape[1]


def fixed(h, mat, symcol=None, tol=False, maxiter=12, limit=40, default=False):
    a, m, n = matrix(h, mat, symcol)
    b = h.arr("b", m, -2, 2)
    ka, kb = a + 0, b + 0
    t = h.real("tol", 0, 1) if tol else 0.0
    kw = {} if default else dict(maxiter=maxiter)
    if tol:
        kw["tol"] = t
    s = Solver(h, limit)
    x = alg.nnls(a, b, **kw)
    h.same(tuple(x.shape), (n,), "one component per column")
    optimal(h, ka, kb, x, t, m, n)
    h.eq(a, ka, "matrix unchanged")
    h.eq(b, kb, "vector unchanged")


def free(h, m, n, tol):
    """all matrices of one or two columns"""
    b = h.arr("b", m, -2, 2)
    if n == 1:
        a = h.arr("a", (m, n), -2, 2)
        h.assume(sum(a[i, 0] * a[i, 0] for i in range(m)) > 0.01)
    else:
        # two columns up to a rotation and a common scale
        a = nested(h, [[h.num(1.0), h.real("c", -2, 2)], [h.num(0.0), h.real("d", 0.125, 2)]])
    t = h.real("tol", 0, 1) if tol else 0.0
    Solver(h, 12)
    x = alg.nnls(a, b, maxiter=6, **(dict(tol=t) if tol else {}))
    optimal(h, a, b, x, t, m, n)


def cut(h, mat, maxiter):
    """few iterations: still no negative component, and at most one more positive component per iteration"""
    a, m, n = matrix(h, mat, None)
    b = h.arr("b", m, -2, 2)
    Solver(h, 40)
    x = alg.nnls(a, b, maxiter=maxiter)
    pos = 0
    for j in range(n):
        h.true(x[j] >= 0, "solution is not negative")
        pos += 1 if h.branch(x[j] > 0) else 0
    h.fact(pos <= maxiter, "one component per iteration at most")
    # the residual is never worse than that of zero
    r = [b[i] - sum(a[i, j] * x[j] for j in range(n)) for i in range(m)]
    h.le(sum(v * v for v in r), sum(b[i] * b[i] for i in range(m)), "not worse than zero")


def ends(h, mat, err, maxiter, limit):
    """the iteration ends even if the linear solver is inexact"""
    a, m, n = matrix(h, mat, None)
    b = h.arr("b", m, -2, 2)
    s = Solver(h, limit, err)
    try:
        x = alg.nnls(a, b, maxiter=maxiter)
    except Solver.Endless:
        h.fact(False, "the iteration ends")
        return
    h.same(tuple(x.shape), (n,), "one component per column")
    for j in range(n):
        h.true(x[j] >= 0, "solution is not negative")
    h.fact(s.n <= limit, "the iteration ends")


def ends_at_zero(h, n, orders):
    """a passive variable that is zero and stays at or below zero is released"""
    a = h.const(np.eye(n))
    b = h.arr("b", n, 0.125, 2)
    answers = []

    class Answers(Solver):
        def __call__(self, a, b):
            self.n += 1
            if self.n > self.limit:
                raise Solver.Endless()
            k = a.shape[0]
            if self.n in orders:
                return h.arr(f"s{self.n}", k, -1, 0)
            return h.arr(f"s{self.n}", k, 0.125, 1)
    s = Answers(h, 12 + 4 * n)
    try:
        x = alg.nnls(a, b, maxiter=4)
    except Solver.Endless:
        h.fact(False, "the iteration ends")
        return
    for j in range(n):
        h.true(x[j] >= 0, "solution is not negative")


def shapes(h, sa, sb):
    a, b = h.arr("a", sa), h.arr("b", sb)
    h.raises(ValueError, lambda: alg.nnls(a, b), "inconsistent shapes are rejected")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=3000)
    cs = []
    mats = [k for k in MATS if big or k != "44a"]
    for k in mats:
        cs.append(Case(f"fixed-{k}", fixed, dict(mat=k), **o))
        if k != "44a":
            cs.append(Case(f"default-{k}", fixed, dict(mat=k, default=True), **o))
    for k in ("22a", "22b", "32a", "33a", "33d") + (("33b", "43a", "43b") if big else ()):
        cs.append(Case(f"tol-{k}", fixed, dict(mat=k, tol=True), **o))
    for k, c in (("22a", 0), ("22b", 1), ("32b", 0)) + ((("33d", 2), ("33c", 1)) if big else ()):
        cs.append(Case(f"column-{k}-{c}", fixed, dict(mat=k, symcol=c, maxiter=6, limit=12), **o))
    for m, n, t in ((1, 1, False), (2, 1, True), (3, 1, False), (2, 2, False)) + (((2, 2, True),) if big else ()):
        cs.append(Case(f"free-{m}-{n}-{t}", free, dict(m=m, n=n, tol=t), **o))
    for k, it in (("22a", 0), ("22a", 1), ("33a", 2), ("33b", 1), ("33d", 3), ("43b", 2)):
        cs.append(Case(f"cut-{k}-{it}", cut, dict(mat=k, maxiter=it), **o))
    for k, it, lim in (("22a", 2, 6), ("22b", 2, 6), ("32a", 2, 6)) + ((("22a", 3, 9), ("33d", 2, 6), ("33a", 3, 12)) if big else ()):
        cs.append(Case(f"ends-{k}-{it}", ends, dict(mat=k, err=0.001, maxiter=it, limit=lim), **o))
    for n, orders in ((1, (1,)), (1, (1, 2, 3, 4)), (2, (1,)), (2, (2,)), (2, (1, 2)), (2, (2, 3)), (3, (3,))):
        cs.append(Case(f"zero-{n}-{orders}".replace(" ", ""), ends_at_zero, dict(n=n, orders=orders), **o))
    for sa, sb in (((2,), (2,)), ((2, 2), (2, 2)), ((2, 2), (3,)), ((3, 2), (2,)), ((2, 2, 2), (2,)), ((), (2,)), ((2, 2), ())):
        cs.append(Case(f"shapes-{sa}-{sb}".replace(" ", ""), shapes, dict(sa=sa, sb=sb), **o))
    return cs
