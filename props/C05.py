"""Covariance matrices from spectra."""
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.cov_from_spectra", "glass.fields.enumerate_spectra", "glass.fields.nfields_from_nspectra"]
BOUNDS = "1 to 4 fields (6 thorough), ragged lengths 0 to 4, mode limits none or 0 to 6; symbolic values"
ASSUMPTIONS = ["spectra (real or complex) are one-dimensional arrays of one array library"]


def run(h, n, lens, lmax, dtype=None):
    cls = [h.arr(f"c{k}", lens[k % len(lens)], dtype=dtype) for k in range(n * (n + 1) // 2)]
    orig = [c + 0 for c in cls]
    cov = F.cov_from_spectra(cls, lmax=lmax) if lmax is not None else F.cov_from_spectra(cls)
    L = max(c.shape[0] for c in cls) if lmax is None else lmax + 1
    h.same(tuple(cov.shape), (L, n, n), "shape of the covariance matrix")
    k = 0
    for i in range(n):
        for j in range(i, -1, -1):
            for l in range(L):
                want = orig[k][l] if l < orig[k].shape[0] else h.num(0.0)
                h.eq(cov[l, i, j], want, "lower entry")
                h.eq(cov[l, j, i], want, "upper entry")
            k += 1
    for c, o in zip(cls, orig):
        h.eq(c, o, "spectra unchanged")


def bad(h, m):
    h.raises(ValueError, lambda: F.cov_from_spectra([h.arr(f"c{k}", 2) for k in range(m)]), "incomplete set is rejected")


def cases(tier):
    cs = []
    lens = [(3,), (4, 0, 1, 2), (0, 2), (1, 2, 3, 4, 0)]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for li, ln in enumerate(lens):
            for lmax in (None, 0, 1, 2, 3, 6):
                cs.append(Case(f"n{n}-len{li}-lmax{lmax}", run, dict(n=n, lens=ln, lmax=lmax)))
        cs.append(Case(f"n{n}-complex", run, dict(n=n, lens=(3, 1), lmax=None, dtype=complex)))
    for m in (2, 4, 5, 7):
        cs.append(Case(f"incomplete-{m}", bad, dict(m=m)))
    return cs
