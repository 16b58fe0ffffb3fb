"""Regularised spectra and the test for positive semi-definite spectra."""
import numpy as np
import glass.algorithm as alg
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.regularized_spectra", "glass.fields.cov_from_spectra", "glass.algorithm.cov_clip",
             "glass.fields.check_posdef_spectra", "glass.fields.spectra_indices"]
BOUNDS = ("1 to 3 fields, ragged lengths 0 to 3, mode limits none or 0 to 4, symbolic relative tolerance in [0, 1] or the default; "
          "the nearest-correlation step is an arbitrary matrix function here (see C42)")
ASSUMPTIONS = ["eigh returns ascending eigenvalues and orthonormal eigenvectors of the symmetric matrix it is given (exact arithmetic)",
               "a matrix V diag(w) V^T with orthonormal V has eigenvalues w"]


def ref(i, j):
    i, j = max(i, j), min(i, j)
    return i * (i + 1) // 2 + i - j


def fullcov(h, cls, n, L):
    z = h.num(0.0)
    def at(i, j, l):
        c = cls[ref(i, j)]
        return c[l] if l < c.shape[0] else z
    return [[[at(i, j, l) for j in range(n)] for i in range(n)] for l in range(L)]


def tomat(h, rows):
    return h.xp.stack([h.xp.stack([h.xp.asarray(e) for e in r]) for r in rows]) if rows else None


def spectra(h, n, lens):
    return [h.arr(f"c{k}", lens[k % len(lens)], -10, 10) for k in range(n * (n + 1) // 2)]


def mx(h, xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if h.branch(x > m) else m
    return m


def clipped(h, m, rtol):
    """reference: eigenvalues raised to the tolerance"""
    n = len(m)
    w, v = h.xp.linalg.eigh(tomat(h, m))
    ws = [w[k] for k in range(n)]
    top = mx(h, ws)
    if h.branch(top < 0):
        top = h.num(0.0)
    lo = rtol * top
    cw = [lo if h.branch(x < lo) else x for x in ws]
    return [[sum(v[i, k] * v[j, k] * cw[k] for k in range(n)) for j in range(n)] for i in range(n)], ws, lo, cw


def clip(h, n, lens, lmax, sym_tol):
    cls = spectra(h, n, lens)
    orig = [c + 0 for c in cls]
    kw = {}
    if sym_tol:
        rtol = h.real("rtol", 0, 1)
        kw["rtol"] = rtol
    else:
        rtol = n * float(np.finfo(float).eps)
        rtol = h.num(rtol)
    out = F.regularized_spectra(cls, lmax=lmax, method="clip", **kw)
    L = max(c.shape[0] for c in cls) if lmax is None else lmax + 1
    h.same(len(out), len(cls), "number of spectra")
    cov = fullcov(h, orig, n, L)
    refs = []
    for l in range(L):
        refs.append(clipped(h, cov[l], rtol))
    k = 0
    for i in range(n):
        for j in range(i, -1, -1):
            h.same(tuple(out[k].shape), (L,), "length of the regularised spectrum")
            for l in range(L):
                B, ws, lo, cw = refs[l]
                h.eq(out[k][l], B[i][j], "entry of the clipped matrix")
                h.eq(B[i][j], B[j][i], "symmetric")
            k += 1
    for l in range(L):
        B, ws, lo, cw = refs[l]
        for c in cw:
            h.le(lo, c, "eigenvalues at least the tolerance times the largest")
            h.le(h.num(0.0), c, "eigenvalues not negative")
        if all(h.branch(x >= lo) for x in ws):
            k = 0
            for i in range(n):
                for j in range(i, -1, -1):
                    h.eq(out[k][l], cov[l][i][j], "valid input unchanged")
                    k += 1
    for c, o in zip(cls, orig):
        h.eq(c, o, "spectra unchanged")


def nearest(h, n, lens, lmax, kw, explicit):
    cls = spectra(h, n, lens)
    L = max(c.shape[0] for c in cls) if lmax is None else lmax + 1
    got = []
    res = h.arr("R", (L, n, n))

    def cov_nearest(cov, tol=None, niter=100):
        got.append((cov, tol, niter))
        return res
    h.stub(alg, "cov_nearest", cov_nearest)
    if explicit:
        out = F.regularized_spectra(cls, lmax=lmax, method="nearest", **kw)
    else:
        out = F.regularized_spectra(cls, lmax=lmax, **kw)
    h.same(len(got), 1, "nearest-matrix step is called once")
    cov, tol, niter = got[0]
    h.same((tol, niter), (kw.get("tol"), kw.get("niter", 100)), "keyword arguments are passed on")
    c0 = fullcov(h, cls, n, L)
    for l in range(L):
        for i in range(n):
            for j in range(n):
                h.eq(cov[l, i, j], c0[l][i][j], "matrix given to the regularisation")
    h.same(len(out), n * (n + 1) // 2, "number of spectra")
    k = 0
    for i in range(n):
        for j in range(i, -1, -1):
            h.eq(out[k], res[:, i, j], "entry of the regularised matrix")
            k += 1


def unknown(h):
    h.raises(ValueError, lambda: F.regularized_spectra(spectra(h, 2, (2,)), method="other"), "unknown method is rejected")


def posdef(h, n, lens):
    cls = spectra(h, n, lens)
    L = max(c.shape[0] for c in cls)
    got = h.branch(F.check_posdef_spectra(cls))
    cov = fullcov(h, cls, n, L)
    want = True
    for l in range(L):
        m = cov[l]
        if n == 1:
            conds = [m[0][0]]
        elif n == 2:
            conds = [m[0][0], m[1][1], m[0][0] * m[1][1] - m[1][0] * m[1][0]]
        else:
            w = h.xp.linalg.eigvalsh(tomat(h, m))
            conds = [w[k] for k in range(n)]
        for c in conds:
            if not h.sym:
                # values within rounding of zero decide nothing
                h.assume(abs(c) > 1e-9 or (n == 1))
            if not h.branch(c >= 0):
                want = False
                break
        if not want:
            break
    h.same(got, want, "true exactly if no mode has a negative eigenvalue")


def cases(tier):
    cs = [Case("unknown-method", unknown)]
    for n, lens, lmaxs in ((1, (2,), (None, 0, 3)), (2, (1,), (None, 2)), (2, (0, 2, 1), (None, 0)), (2, (2, 2, 1), (None,)), (3, (1,), (None,))):
        for lmax in lmaxs:
            for st in (True, False):
                cs.append(Case(f"clip-n{n}-{lens}-{lmax}-{'rtol' if st else 'default'}".replace(" ", ""), clip, dict(n=n, lens=lens, lmax=lmax, sym_tol=st), timeout=60))
    for n in (1, 2, 3):
        for lens in ((2,), (3, 0, 1)):
            for lmax in (None, 0, 4):
                cs.append(Case(f"nearest-n{n}-{lens}-{lmax}".replace(" ", ""), nearest, dict(n=n, lens=lens, lmax=lmax, kw={}, explicit=n == 2)))
    cs.append(Case("nearest-kw", nearest, dict(n=2, lens=(2,), lmax=None, kw=dict(tol=0.25, niter=7), explicit=True)))
    for n, lens in ((1, (2,)), (1, (3,)), (2, (1,)), (2, (2, 1, 0)), (2, (2,)), (3, (1,))):
        cs.append(Case(f"posdef-n{n}-{lens}".replace(" ", ""), posdef, dict(n=n, lens=lens)))
    return cs
