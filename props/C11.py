"""Multiplying and reordering spherical harmonic coefficients."""
import glass.fields as F
import glass.harmonics as H
from symxp.engine import Case

FUNCTIONS = ["glass.harmonics.multalm", "glass.fields._glass_to_healpix_alm", "glass.fields._inv_triangle_number"]
BOUNDS = "1 to 8 modes (14 thorough), symbolic complex coefficients and factors"
ASSUMPTIONS = ["real arithmetic; coefficients in standard order come in rows l with m = 0..l"]


def mult(h, n):
    alm = h.arr("a", n * (n + 1) // 2, dtype=complex)
    bl = h.arr("b", n)
    keep, kb = alm + 0, bl + 0
    out = H.multalm(alm, bl)
    h.same(tuple(out.shape), tuple(alm.shape), "number of coefficients")
    k = 0
    for l in range(n):
        for m in range(l + 1):
            h.eq(out[k], keep[k] * kb[l], "coefficient times the factor of its mode")
            k += 1
    h.eq(alm, keep, "coefficients unchanged")
    h.eq(bl, kb, "factors unchanged")


def reorder(h, n, dtype):
    alm = h.arr("a", n * (n + 1) // 2, dtype=dtype)
    keep = alm + 0
    out = F._glass_to_healpix_alm(alm)
    h.same(tuple(out.shape), tuple(alm.shape), "number of coefficients")
    seen = set()
    for l in range(n):
        for m in range(l + 1):
            p = m * (2 * (n - 1) + 1 - m) // 2 + l
            seen.add(p)
            h.eq(out[p], keep[l * (l + 1) // 2 + m], "coefficient at its HEALPix position")
    h.same(len(seen), n * (n + 1) // 2, "every position is filled once")
    h.eq(alm, keep, "coefficients unchanged")


def compose(h, n):
    """scaling before reordering is scaling after reordering"""
    alm = h.arr("a", n * (n + 1) // 2, dtype=complex)
    bl = h.arr("b", n)
    x = F._glass_to_healpix_alm(H.multalm(alm, bl))
    y = F._glass_to_healpix_alm(alm)
    p = 0
    for m in range(n):
        for l in range(m, n):
            h.eq(x[p], y[p] * bl[l], "scaling commutes with reordering")
            p += 1


def bad(h, k):
    h.raises(ValueError, lambda: F._glass_to_healpix_alm(h.arr("a", k, dtype=complex)), "incomplete set is rejected")


def cases(tier):
    cs = []
    for n in list(range(1, 9)) + ([11, 14] if tier != "quick" else []):
        cs.append(Case(f"multalm-{n}", mult, dict(n=n)))
        cs.append(Case(f"reorder-{n}", reorder, dict(n=n, dtype=complex)))
        cs.append(Case(f"reorder-real-{n}", reorder, dict(n=n, dtype=None)))
        cs.append(Case(f"compose-{n}", compose, dict(n=n)))
    for k in (2, 4, 5, 7, 8, 9, 11):
        cs.append(Case(f"reject-{k}", bad, dict(k=k)))
    return cs
