"""Effective spectra from weights."""
import itertools
import numpy as np
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.effective_cls", "glass.fields.getcl", "glass._array_api_utils.XPAdditions.ndindex"]
BOUNDS = "1 to 3 fields, ragged spectrum lengths 0 to 3, weight shapes with up to two extra axes of size 1 to 3, mode limits none or 0 to 4; symbolic values"
ASSUMPTIONS = ["real arithmetic; rounding of the sums is outside the encoding"]


def ref(i, j):
    i, j = max(i, j), min(i, j)
    return i * (i + 1) // 2 + i - j


def run(h, n, lens, s1, s2, lmax):
    cls = [h.arr(f"c{k}", lens[k % len(lens)]) for k in range(n * (n + 1) // 2)]
    w1 = h.arr("v", (n, *s1))
    w2 = h.arr("w", (n, *s2)) if s2 is not None else None
    orig = [c + 0 for c in cls]
    o1 = w1 + 0
    out = F.effective_cls(cls, w1, w2, lmax=lmax) if w2 is not None else F.effective_cls(cls, w1, lmax=lmax)
    L = max(c.shape[0] for c in cls) if lmax is None else lmax + 1
    t2, e2 = (s1, w1) if w2 is None else (s2, w2)
    h.same(tuple(out.shape), (*s1, *t2, L), "shape of the result")
    for a in itertools.product(*map(range, s1)):
        for b in itertools.product(*map(range, t2)):
            for l in range(L):
                want = 0
                for i in range(n):
                    for j in range(n):
                        c = orig[ref(i, j)]
                        if l < c.shape[0]:
                            want = want + w1[(i, *a)] * e2[(j, *b)] * c[l]
                h.eq(out[(*a, *b, l)], want if not isinstance(want, int) else h.num(0.0), "weighted sum over all pairs")
    for c, o in zip(cls, orig):
        h.eq(c, o, "spectra unchanged")
    h.eq(w1, o1, "weights unchanged")


def bad(h, n, s1, s2):
    cls = [h.arr(f"c{k}", 2) for k in range(n * (n + 1) // 2)]
    w1 = h.arr("v", s1)
    w2 = h.arr("w", s2) if s2 is not None else None
    h.raises(ValueError, lambda: F.effective_cls(cls, w1, w2), "mismatched weights are rejected")


def incomplete(h, m):
    cls = [h.arr(f"c{k}", 2) for k in range(m)]
    h.raises(ValueError, lambda: F.effective_cls(cls, h.arr("v", (2,))), "incomplete set is rejected")


def cases(tier):
    cs = []
    lens = [(2,), (3, 0, 1, 2)] if tier == "quick" else [(2,), (3, 0, 1, 2), (0, 1, 4)]
    shapes = [((), None), ((2,), None), ((), ()), ((2,), ()), ((), (3,)), ((2,), (3,)), ((1, 2), (2,)), ((2, 2), None)]
    for n in (1, 2, 3):
        for li, ln in enumerate(lens):
            for s1, s2 in shapes:
                if n == 3 and len(s1) + len(s2 or ()) > 2 and tier == "quick":
                    continue
                for lmax in (None, 0, 1, 4):
                    cs.append(Case(f"n{n}-len{li}-{s1}-{s2}-lmax{lmax}".replace(" ", ""), run, dict(n=n, lens=ln, s1=s1, s2=s2, lmax=lmax)))
    for n, s1, s2 in ((2, (3,), None), (2, (1,), None), (2, (2,), (3,)), (2, (2,), (1, 2)), (3, (2, 3), None), (1, (), None), (2, (2,), ()), (2, (3, 2), (2,))):
        cs.append(Case(f"mismatch-{n}-{s1}-{s2}".replace(" ", ""), bad, dict(n=n, s1=s1, s2=s2)))
    for m in (2, 4, 5):
        cs.append(Case(f"incomplete-{m}", incomplete, dict(m=m)))
    return cs
