"""Reordering of complete sets of spectra between standard and HEALPix order."""
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.glass_to_healpix_spectra", "glass.fields.healpix_to_glass_spectra", "glass.fields.spectra_indices",
             "glass.fields.nfields_from_nspectra"]
BOUNDS = "0 to 9 fields (15 in the thorough tier); entries are arbitrary: symbolic numbers, arrays of mixed lengths, or opaque objects"
ASSUMPTIONS = ["the entries are only moved, so arbitrary symbolic entries stand for spectra of any kind"]


def std(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def hpx(n):
    return [(i + k, i) for k in range(n) for i in range(n - k)]


def entries(h, n, kind):
    m = n * (n + 1) // 2
    if kind == "num":
        return [h.real(f"e{k}") for k in range(m)]
    if kind == "arr":
        return [h.arr(f"e{k}", k % 3) for k in range(m)]
    return [object() for _ in range(m)]


def cmp(h, out, want, label):
    h.same(len(out), len(want), label + ": number of spectra")
    for a, b in zip(out, want):
        if type(a) is object:
            h.fact(a is b, label)
        else:
            h.eq(a, b, label)


def order(h, n, kind):
    x = entries(h, n, kind)
    g = F.glass_to_healpix_spectra(x)
    cmp(h, g, [x[std(n).index(p)] for p in hpx(n)], "HEALPix order of a set in standard order")
    b = F.healpix_to_glass_spectra(x)
    cmp(h, b, [x[hpx(n).index(p)] for p in std(n)], "standard order of a set in HEALPix order")
    cmp(h, F.healpix_to_glass_spectra(g), x, "there and back")
    cmp(h, F.glass_to_healpix_spectra(b), x, "back and there")
    cmp(h, F.glass_to_healpix_spectra(tuple(x)), g, "tuples are accepted")


def reject(h, m):
    x = [h.real(f"e{k}") for k in range(m)]
    h.raises(ValueError, lambda: F.glass_to_healpix_spectra(x), "incomplete set rejected")
    h.raises(ValueError, lambda: F.healpix_to_glass_spectra(x), "incomplete set rejected")


def cases(tier):
    ns = list(range(10)) + ([12, 15] if tier != "quick" else [])
    cs = [Case(f"order-{n}-{k}", order, dict(n=n, kind=k)) for n in ns for k in ("num", "arr", "obj")]
    tri = {i * (i + 1) // 2 for i in range(20)}
    cs += [Case(f"reject-{m}", reject, dict(m=m)) for m in range(1, 24) if m not in tri]
    return cs
