"""Iterative normal sampling: weight vectors and covariance rows."""
import itertools
import math
import numpy as np
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.iternorm", "glass.fields.cls2cov"]
BOUNDS = ("up to 5 variates, 0 to 4 correlated variates, stacks of shape (), (2,), (1, 2); every positive semi-definite covariance of "
          "these sizes, written through its Cholesky factor with symbolic entries (zero pivots as separate cases); rows from spectra: up to "
          "4 fields, 0 to 4 modes, ragged lengths")
ASSUMPTIONS = ["exact real arithmetic", "with a limited number of correlations the sequence is positive definite (a vanishing conditional "
               "variance makes some banded sequences unreachable for any sampler with that memory)",
               "every positive semi-definite matrix has a Cholesky factor with non-negative diagonal"]


def factor(h, stack, n, k, zero):
    """lower-triangular band factor per stack element"""
    L = {}
    for s in np.ndindex(*stack):
        for i in range(n):
            for j in range(max(0, i - k), i + 1):
                nm = "L" + "_".join(map(str, s)) + f"_{i}_{j}"
                if i == j:
                    # for a stack, the pivot is zero in the first element only
                    isz = i in zero and (not stack or s == tuple(0 for _ in stack))
                    L[s, i, j] = h.num(0.0) if isz else h.real(nm, 0, 10, lo_open=True)
                else:
                    L[s, i, j] = h.real(nm, -10, 10)
    if zero and not h.sym:
        # keep the real run exact: dyadic pivots, integer factors (a vanishing variance is decided by rounding otherwise)
        for (s, i, j), v in L.items():
            L[s, i, j] = float(round(v)) if i != j else (2.0 ** max(-1, round(math.log2(v))) if v > 0 else 0.0)
    return L


def dot(h, L, s, i, j, k):
    """covariance of variates i >= j: products of the shared normals"""
    t = h.num(0.0)
    for l in range(max(0, i - k), j + 1):
        if (s, j, l) in L:
            t = t + L[s, i, l] * L[s, j, l]
    return t


def mk(h, stack, vals):
    """array of shape (*stack, len) from nested values"""
    rows = [h.xp.stack([h.xp.asarray(v) for v in vs]) for vs in vals]
    if not stack:
        return rows[0]
    return h.xp.reshape(h.xp.stack(rows), (*stack, -1))


def rows_of(h, L, stack, n, k, junk=True):
    rows = []
    for i in range(n):
        vals = []
        for s in np.ndindex(*stack):
            v = [dot(h, L, s, i, i, k)]
            for d in range(1, k + 1):
                if d <= i:
                    v.append(dot(h, L, s, i, i - d, k))
                else:
                    v.append(h.num(0.0))
            vals.append(v)
        rows.append(mk(h, stack, vals))
    return rows


def sample(h, stack, n, k, zero=()):
    L = factor(h, stack, n, k, zero)
    rows = rows_of(h, L, stack, n, k)
    before = [r + 0 for r in rows]
    out = list(F.iternorm(iter(rows)))
    h.same(len(out), n, "one weight vector per row")
    for i, w in enumerate(out):
        h.same(tuple(w.shape), (*stack, k + 1), "shape of the weight vector")
    for s in np.ndindex(*stack):
        # y_i = sum_l coef[i][l] z_l
        coef = []
        for i, w in enumerate(out):
            ws = w[s] if stack else w
            c = {}
            for p in range(k + 1):
                l = i - k + p
                if l >= 0:
                    c[l] = ws[p]
            coef.append(c)
        for i in range(n):
            for j in range(max(0, i - k), i + 1):
                got = h.num(0.0)
                for l in coef[i]:
                    if l in coef[j]:
                        got = got + coef[i][l] * coef[j][l]
                h.eq(got, dot(h, L, s, i, j, k), "variance" if i == j else "covariance with an earlier variate")
    for r, b in zip(rows, before):
        h.eq(r, b, "rows unchanged")


def negative(h, n, k, at, zero=()):
    """the conditional variance of one variate would be negative"""
    L = factor(h, (), n, k, zero)
    rows = rows_of(h, L, (), n, k)
    d = h.real("d", 0.01, 10)
    t = h.num(0.0)
    for l in range(max(0, at - k), at):
        if l in zero:
            continue        # a vanishing pivot carries no covariance
        t = t + L[(), at, l] * L[(), at, l]
    row = [t - d] + [rows[at][q] for q in range(1, k + 1)]
    rows[at] = mk(h, (), [row])
    it = F.iternorm(rows)
    for _ in range(at):
        next(it)
    h.raises(ValueError, lambda: next(it), "negative conditional variance is rejected")


def free2(h):
    """any 2x2 matrix: rejected exactly if not positive semi-definite"""
    a, b, c = h.real("a", -5, 5), h.real("b", -5, 5), h.real("c", -5, 5)
    if not h.sym:
        # decisions at the boundary are subject to rounding
        h.assume(abs(a) > 1e-9)
        h.assume(abs(a * b - c * c) > 1e-9 * (1 + a * a + b * b))
    psd = h.branch(a >= 0) and h.branch(b >= 0) and h.branch(a * b - c * c >= 0)
    if h.branch(a == 0):
        # singular start: see the case singular-start
        h.assume(c == 0)
    try:
        list(F.iternorm([mk(h, (), [[a, h.num(0.0)]]), mk(h, (), [[b, c]])]))
        ok = True
    except ValueError:
        ok = False
    h.same(ok, psd, "rejected exactly if not positive semi-definite")


def singular_start(h):
    b, c = h.real("b", 0.5, 5), h.real("c", 0.1, 5)
    h.raises(ValueError, lambda: list(F.iternorm([mk(h, (), [[h.num(0.0), h.num(0.0)]]), mk(h, (), [[b, c]])])),
             "covariance with a variate of zero variance is rejected")


def stack_negative(h):
    v = h.arr("v", (2, 1), 0, 5)
    w = h.arr("w", (2, 1), -5, 5)
    bad = h.int("bad", 0, 1)
    h.assume(w[bad if not h.sym else int(bad), 0] < -1e-6)
    it = F.iternorm([v, w])
    next(it)
    h.raises(ValueError, lambda: next(it), "one bad element of a stack is rejected")


def shapes(h):
    h.raises(ValueError, lambda: list(F.iternorm([h.arr("e", 0)])), "empty row is rejected")
    h.raises(ValueError, lambda: list(F.iternorm([h.arr("e2", (2, 0))])), "empty stacked row is rejected")
    for s1, s2 in (((2,), (3,)), ((2,), ()), ((), (2,)), ((2, 1), (2,)), ((2, 1), (1, 2))):
        it = F.iternorm([h.arr("a" + str(len(h.names)), (*s1, 1), 1, 2), h.arr("b" + str(len(h.names)), (*s2, 1), 1, 2)])
        next(it)
        h.raises(ValueError, lambda: next(it), "changed stack shape is rejected")
    it = F.iternorm([h.arr("c", (2,), 1, 2), h.arr("d", (0,))])
    next(it)
    h.raises(ValueError, lambda: next(it), "later empty row is rejected")


def fromcls(h, nf, nl, nc, lens):
    cls = []
    for i in range(nf):
        for j in range(i, -1, -1):
            k = len(cls)
            cls.append(h.arr(f"c{k}", min(nl, lens[k % len(lens)]), 0 if i == j else -5, 5))
    orig = [c + 0 for c in cls]
    k = 0
    n = 0
    for i, m in enumerate(F.cls2cov(cls, nl, nf, nc)):
        n += 1
        h.same(tuple(m.shape), (nl, nc + 1), "shape of the rows")
        for d in range(nc + 1):
            for l in range(nl):
                if d <= i and l < orig[k + d].shape[0]:
                    want = orig[k + d][l] / 2
                else:
                    want = h.num(0.0)
                h.eq(m[l, d], want, "half of the spectrum")
        k += i + 1
    h.same(n, nf, "one stack of rows per field")
    for c, o in zip(cls, orig):
        h.eq(c, o, "spectra unchanged")


def clsneg(h, nf, at, l, nc):
    cls = []
    x = h.real("x", -5, 0, hi_open=True)
    for i in range(nf):
        for j in range(i, -1, -1):
            k = len(cls)
            c = h.arr(f"c{k}", 3, 0 if i == j else -5, 5)
            if i == j == at:
                c[l] = x
            cls.append(c)
    it = F.cls2cov(cls, 3, nf, nc)
    for _ in range(at):
        next(it)
    h.raises(ValueError, lambda: next(it), "negative auto-spectrum is rejected")


def cases(tier):
    cs = [Case("shapes", shapes), Case("free-2x2", free2), Case("singular-start", singular_start), Case("stack-negative", stack_negative)]
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        for k in range(0, n + 1):
            cs.append(Case(f"pd-n{n}-k{k}", sample, dict(stack=(), n=n, k=k), timeout=90))
    for stack in ((2,), (1, 2)):
        for n, k in ((2, 1), (3, 1), (3, 2), (2, 0)):
            cs.append(Case(f"pd-stack{stack}-n{n}-k{k}".replace(" ", ""), sample, dict(stack=stack, n=n, k=k), timeout=90))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for r in range(1, n + 1):
            for z in itertools.combinations(range(n), r):
                cs.append(Case(f"psd-n{n}-zero{z}".replace(" ", ""), sample, dict(stack=(), n=n, k=n - 1, zero=z), timeout=90))
                if n > 1 and n < 4:
                    cs.append(Case(f"psd-stack-n{n}-zero{z}".replace(" ", ""), sample, dict(stack=(2,), n=n, k=n - 1, zero=z), timeout=90))
    for n, k in ((1, 0), (2, 0), (2, 1), (3, 1), (3, 2)):
        for at in range(n):
            cs.append(Case(f"negative-n{n}-k{k}-at{at}", negative, dict(n=n, k=k, at=at)))
    cs.append(Case("negative-after-zero", negative, dict(n=3, k=2, at=2, zero=(1,))))
    for nf in (1, 2, 3, 4):
        for nl in (1, 3):
            for nc in range(0, nf + 1):
                for li, lens in enumerate(((4,), (0, 2, 3, 1))):
                    cs.append(Case(f"rows-nf{nf}-nl{nl}-nc{nc}-{li}", fromcls, dict(nf=nf, nl=nl, nc=nc, lens=lens)))
    for nf in (1, 2, 3):
        for at in range(nf):
            for l in (0, 2):
                for nc in (0, 2):
                    cs.append(Case(f"rowsneg-nf{nf}-at{at}-{l}-nc{nc}", clsneg, dict(nf=nf, at=at, l=l, nc=nc)))
    return cs
