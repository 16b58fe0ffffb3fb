"""Standard order of two-point spectra: lookup, enumeration, index table, counts."""
import glass
import glass.fields as F
from symxp.engine import Case

FUNCTIONS = ["glass.fields.getcl", "glass.fields.enumerate_spectra", "glass.fields.spectra_indices",
             "glass.fields.nfields_from_nspectra", "glass.fields._inv_triangle_number"]
BOUNDS = ("field numbers up to 10^6 (symbolic integers) for lookup, enumeration and counting; index tables up to 12 fields; "
          "spectrum lengths 0-4 and mode limits 0-5 with symbolic values")
ASSUMPTIONS = ["double-precision square roots are correctly rounded (relative error at most 2^-53, exact for exact squares); "
               "integers and quarter-integers below 2^51 are exact in double precision"]
N = 10 ** 6


class Seq:
    """sequence that reports which entry was asked for"""
    def __init__(self, item):
        self.item = item
        self.idx = []

    def __getitem__(self, k):
        self.idx.append(k)
        return self.item

    def __len__(self):
        return 10 ** 12


def ref(i, j):
    return i * (i + 1) // 2 + (i - j)


def lookup(h):
    i = h.int("i", 0, N)
    j = h.int("j", 0, N)
    cls = Seq(h.arr("cl", 2))
    out = F.getcl(cls, i, j)
    h.eq(out, cls.item, "entry returned")
    k = cls.idx[0]
    hi, lo = (i, j) if h.branch(i >= j) else (j, i)
    h.eq(k, ref(hi, lo), "position in standard order")
    # negative positions would wrap around
    h.le(0, k, "position not negative", tol=False)


def lookup_inj(h):
    """two different pairs never share an entry"""
    i = h.int("i", 0, N)
    j = h.int("j", 0, N)
    a = h.int("a", 0, N)
    b = h.int("b", 0, N)
    h.assume(j <= i)
    h.assume(b <= a)
    c1, c2 = Seq(h.arr("c", 1)), Seq(h.arr("d", 1))
    F.getcl(c1, i, j)
    F.getcl(c2, a, b)
    h.assume(i != a if not h.branch(i == a) else j != b)
    if h.sym:
        h.true(c1.idx[0] != c2.idx[0], "distinct pairs, distinct entries")
    else:
        h.true(c1.idx[0] != c2.idx[0], "distinct pairs, distinct entries")


def enum(h, lo=0, hi=N):
    """entry number k is enumerated with the pair whose position is k"""
    i = h.int("i", lo, hi)
    d = h.int("d", 0, hi)
    h.assume(d <= i)
    k = h.int("k", 0, hi * (hi + 3) // 2)
    h.assume(2 * k == i * (i + 1) + 2 * d) if h.sym else None
    if not h.sym:
        k = i * (i + 1) // 2 + d
    marker = h.arr("cl", 1)
    F.enumerate = lambda e, start=0: [(k + start, e[0])]
    try:
        out = list(F.enumerate_spectra([marker]))
    finally:
        del F.enumerate
    h.same(len(out), 1, "one tuple per entry")
    gi, gj, cl = out[0]
    h.eq(cl, marker, "enumerated entry")
    h.eq(gi, i, "first field of entry k")
    h.eq(gj, i - d, "second field of entry k")


def count(h):
    m = h.int("m", 0, N)
    T = h.int("T", 0, N * (N + 1) // 2)
    h.assume(2 * T == m * (m + 1)) if h.sym else None
    if not h.sym:
        T = m * (m + 1) // 2
    h.eq(F.nfields_from_nspectra(T), m, "number of fields")


def reject(h):
    T = h.int("T", 0, N * (N + 1) // 2)
    try:
        n = F.nfields_from_nspectra(T)
    except ValueError:
        h.fact(True, "rejected")
        return
    h.eq(n * (n + 1), 2 * T, "accepted counts are triangle numbers")
    h.le(0, n, "number of fields not negative", tol=False)


def limit(h, n, lmax):
    cls = [h.arr(f"c{k}", n) for k in range(6)]
    for i in range(3):
        for j in range(3):
            out = F.getcl(cls, i, j, lmax=lmax)
            src = cls[ref(max(i, j), min(i, j))]
            if lmax is None:
                h.eq(out, src, "whole spectrum")
                continue
            h.same(tuple(out.shape), (lmax + 1,), "length lmax + 1")
            k = min(n, lmax + 1)
            h.eq(out[:k], src[:k], "original values first")
            h.eq(out[k:], h.const([0.0] * (lmax + 1 - k)), "zeros after")


def table(h, n):
    cls = [h.arr(f"c{k}", 1) for k in range(n * (n + 1) // 2)]
    idx = F.spectra_indices(n, xp=h.xp) if n % 2 else F.spectra_indices(n)
    h.same(tuple(idx.shape), (n * (n + 1) // 2, 2), "shape of the index table")
    pairs = [(int(r[0]), int(r[1])) for r in idx]
    h.same(pairs, [(i, j) for i in range(n) for j in range(i, -1, -1)], "index table in standard order")
    en = list(F.enumerate_spectra(cls))
    h.same([(int(i), int(j)) for i, j, _ in en], pairs, "enumeration agrees with the table")
    for (i, j), (_, _, cl), src in zip(pairs, en, cls):
        h.eq(cl, src, "entry of the enumeration")
        h.eq(F.getcl(cls, i, j), src, "lookup agrees with the enumeration")
        h.eq(F.getcl(cls, j, i), src, "lookup with swapped fields")
    h.same(int(F.nfields_from_nspectra(len(cls))), n, "number of fields of the table")


def cases(tier):
    fp = dict(opts=dict(fp_sqrt=True, cvc5=True, lemmas=True, feas_ms=1000, claim_ms=20000), timeout=60)
    cs = [Case("lookup", lookup), Case("injective", lookup_inj),
          Case("enumerate", enum, **fp),
          Case("count", count, **fp), Case("reject", reject, **fp)]
    for n in (0, 1, 2, 3, 4):
        for lmax in (None, 0, 1, 2, 3, 5):
            cs.append(Case(f"limit-{n}-{lmax}", limit, dict(n=n, lmax=lmax)))
    for n in list(range(0, 9)) + ([12] if tier == "quick" else [12, 20, 30]):
        cs.append(Case(f"table-{n}", table, dict(n=n)))
    return cs
