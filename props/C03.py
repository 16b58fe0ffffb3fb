"""Discretisation of angular power spectra: truncation, decorrelation, pixel window."""
import glass.fields as F
import glass.healpix as gh
from symxp.engine import Case

FUNCTIONS = ["glass.fields.discretized_cls", "glass.fields.nfields_from_nspectra"]
BOUNDS = ("1 to 4 fields, ragged spectrum lengths 0 to 4, mode limits none or 0 to 5, 0 to 4 correlated fields or no limit, "
          "pixel windows of 1 to 6 symbolic values; symbolic spectra")
ASSUMPTIONS = ["the pixel window of the healpix library is a symbolic vector of lmax + 1 values (3 nside when no limit is given)",
               "standard order: row i of the triangle lists the pairs (i, i), (i, i - 1), ..., (i, 0)"]


def run(h, n, lens, lmax, ncorr, nside):
    cls = [h.arr(f"c{k}", lens[k % len(lens)]) for k in range(n * (n + 1) // 2)]
    orig = [c + 0 for c in cls]
    inp = list(cls)
    calls = []
    npw = (3 * nside if lmax is None else lmax + 1) if nside else 0
    pw = h.arr("pw", npw, 0, 1)

    def pixwin(ns, pol=False, lmax=None, xp=None):
        calls.append((ns, pol, lmax))
        return pw
    h.stub(gh, "pixwin", pixwin)
    out = F.discretized_cls(cls, lmax=lmax, ncorr=ncorr, nside=nside)
    h.same(len(out), len(cls), "number of spectra")
    if nside is not None:
        h.fact(all(c == (nside, False, lmax) for c in calls) and len(calls) >= 1, "pixel window of the requested resolution, limit, temperature")
    k = 0
    for i in range(n):
        for j in range(i, -1, -1):
            src = orig[k]
            got = out[k]
            if ncorr is not None and i - j > ncorr:
                h.same(tuple(got.shape), (0,), "far pair is empty")
            else:
                m = src.shape[0]
                if lmax is not None:
                    m = min(m, lmax + 1)
                if nside is not None:
                    m = min(m, npw)
                want = [src[l] * pw[l] * pw[l] if nside is not None else src[l] for l in range(m)]
                h.same(tuple(got.shape), (m,), "length of the discretised spectrum")
                for l in range(m):
                    h.eq(got[l], want[l], "value of the discretised spectrum")
            k += 1
    h.same(len(cls), len(inp), "caller's list unchanged")
    for c, c0, o in zip(cls, inp, orig):
        h.fact(c is c0, "caller's list holds the same arrays")
        h.eq(c, o, "caller's spectra unchanged")


def empty(h):
    h.same(list(F.discretized_cls([], lmax=3, ncorr=1, nside=2)), [], "no spectra")


def bad(h, m):
    cls = [h.arr(f"c{k}", 2) for k in range(m)]
    h.raises(ValueError, lambda: F.discretized_cls(cls, ncorr=1), "incomplete set with a correlation limit is rejected")


def cases(tier):
    cs = [Case("empty", empty)]
    for m in (2, 4, 5):
        cs.append(Case(f"incomplete-{m}", bad, dict(m=m)))
    lens = [(4,), (0, 2, 4), (3, 1, 0, 4, 2)]
    if tier != "quick":
        lens += [(1,), (2, 5, 0, 3, 1, 4, 6)]
    for n in (1, 2, 3, 4):
        for li, ln in enumerate(lens):
            for lmax in (None, 0, 2, 5):
                for ncorr in (None, 0, 1, 2, 4):
                    if ncorr is not None and ncorr > n:
                        continue
                    for nside in (None, 1, 2):
                        if tier == "quick" and n == 4 and (li == 0 or nside == 2):
                            continue
                        cs.append(Case(f"n{n}-len{li}-lmax{lmax}-nc{ncorr}-ns{nside}", run, dict(n=n, lens=ln, lmax=lmax, ncorr=ncorr, nside=nside)))
    return cs
