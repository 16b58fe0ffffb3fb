"""The solver for Gaussian spectra and its use for sets of spectra."""
import warnings
import numpy as np
import glass.fields as F
import glass.grf as G
import glass.grf._core as core
import glass.grf._solver as solver
import transformcl
from symxp.engine import Case
from .common import stack

FUNCTIONS = ["glass.grf.solve", "glass.grf._solver._relerr", "glass.grf.compute", "glass.fields.solve_gaussian_spectra",
             "glass.fields.compute_gaussian_spectra", "glass.fields.enumerate_spectra"]
BOUNDS = ("spectra of 1 or 2 modes, padding 0 to 2, initial values shorter and longer than the spectrum, 0 to 2 iterations with up to 2 "
          "halvings each, symbolic tolerances; arbitrary (adversarial) transformations; sets for 0 to 4 fields")
ASSUMPTIONS = ["the transforms between spectra and correlations are replaced by an arbitrary fixed pair of linear maps that are inverse to "
               "each other", "transformations return arbitrary finite values, the same for the same argument"]

# unit lower/upper triangular products: an invertible linear map and its inverse
_T = {1: [[2]], 2: [[1, 2], [1, 3]], 3: [[1, 2, 0], [1, 3, 1], [0, 1, 2]], 4: [[1, 2, 0, 1], [1, 3, 1, 0], [0, 1, 2, 1], [0, 0, 1, 1]]}


def lin(h, m, x):
    from fractions import Fraction
    rows = []
    for r in m:
        t = h.num(0.0)
        for c, e in zip(r, x):
            if c != 0:
                t = t + h.num(Fraction(c)) * e
        rows.append(t)
    return stack(h, rows)



def _mkinv():
    from fractions import Fraction
    out = {}
    for n, m in _T.items():
        a = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
        for c in range(n):
            p = next(r for r in range(c, n) if a[r][c] != 0)
            a[c], a[p] = a[p], a[c]
            q = a[c][c]
            a[c] = [v / q for v in a[c]]
            for r in range(n):
                if r != c:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        out[n] = [r[n:] for r in a]
    return out


_INV = _mkinv()


class Adversary:
    """transformation with arbitrary values; equal arguments give equal values"""

    def __init__(self, h, bound):
        self.h, self.log, self.k, self.bound = h, {"corr": [], "icorr": [], "dcorr": []}, 0, bound

    def _f(self, name, other, x, lo, hi):
        h = self.h
        self.partner = other
        x = x + 0
        for a, r in self.log[name]:
            if tuple(a.shape) == tuple(x.shape) and (all(_is(h, a[i], x[i]) for i in range(a.shape[0]))):
                return r + 0
        if len(self.log[name]) >= self.bound:
            h.assume(False)         # outside the bound on halvings
        self.k += 1
        r = h.arr(f"{name}{self.k}", x.shape, lo, hi)
        self.log[name].append((x, r))
        return r + 0

    def corr(self, other, x): return self._f("corr", other, x, -4, 4)
    def icorr(self, other, x): return self._f("icorr", other, x, -4, 4)
    def dcorr(self, other, x): return self._f("dcorr", other, x, 0.5, 2)


def _is(h, a, b):
    r = a == b
    if h.sym:
        from symxp.array import elem
        from symxp.scalar import SB
        r = elem(r)
        return r is True or (not isinstance(r, SB) and bool(r))
    return bool(r)


def absv(h, x):
    return x if h.branch(x >= 0) else -x


def relok(h, dx, x, tol, skip):
    """all |dx / x| <= tol (zero where dx is zero)"""
    for i in range(len(dx)):
        if i == 0 and skip:
            continue
        if h.branch(dx[i] == 0):
            continue
        if not h.branch(absv(h, dx[i]) <= tol * absv(h, x[i]) * (1 + 1e-12 if not h.sym else 1)):
            return False
    return True


def relerr(h, dx, x, skip):
    """max |dx / x| as (value or None for infinite)"""
    m = h.num(0.0)
    for i in range(len(dx)):
        if i == 0 and skip:
            continue
        if h.branch(dx[i] == 0):
            continue
        if h.branch(x[i] == 0):
            return None
        v = absv(h, dx[i] / x[i])
        if h.branch(v > m):
            m = v
    return m


def run(h, n, pad, maxiter, initial, monopole, halvings, one):
    N = n + pad
    h.stub(solver, "cltocorr", lambda x: lin(h, _T[x.shape[0]], x))
    h.stub(solver, "corrtocl", lambda x: lin(h, _INV[x.shape[0]], x))
    cl = h.arr("cl", n, 0.5, 4)
    if monopole == "zero":
        cl[0] = 0.0
    keep = cl + 0
    t = Adversary(h, 1 + maxiter * (1 + halvings))
    t2 = None if one else Partner(t)
    kw = {}
    cltol, gltol = h.real("cltol", 0, 1), h.real("gltol", 0, 1)
    init = None
    if initial is not None:
        init = h.arr("init", initial, -4, 4)
        kinit = init + 0
        kw["initial"] = init
    mono = None
    if monopole is not None:
        mono = h.real("mono", -3, 3) if monopole == "value" else h.num(0.0)
        kw["monopole"] = mono
    gl, rl, info = G.solve(cl, t, t2, pad=pad, cltol=cltol, gltol=gltol, maxiter=maxiter, **kw)
    skip = monopole is not None
    h.fact(t.partner is (t if one else t2), "both transformations are used")
    h.same(tuple(gl.shape), (n,), "length of the solution")
    info = int(info)
    h.fact(info in (0, 1, 2, 3), "info flags")
    # evaluated solutions in order
    trials = []
    for a, r in t.log["corr"]:
        g = lin(h, _INV[N], a)
        for i in range(n, N):
            h.eq(g[i], h.num(0.0), "solution is padded with zeros")
        trials.append((g[:n], lin(h, _INV[N], r)))
    # starting point
    if initial is None:
        a, r = t.log["icorr"][0]
        h.eq(a, lin(h, _T[n], keep), "correlation of the input is inverse-transformed")
        start = lin(h, _INV[n], r)
    else:
        start = stack(h, [kinit[i] if i < initial else h.num(0.0) for i in range(n)])
    for i in range(n):
        if i == 0 and skip:
            h.eq(trials[0][0][0], mono, "fixed monopole")
        else:
            h.eq(trials[0][0][i], start[i], "starting point")
    # which trial is accepted
    cur, prev, steps = 0, None, 0
    e0 = relerr(h, [trials[0][1][i] - keep[i] for i in range(n)], keep, skip)
    err = e0
    for k in range(1, len(trials)):
        e = relerr(h, [trials[k][1][i] - keep[i] for i in range(n)], keep, skip)
        ok = err is None or (e is not None and h.branch(e <= err))
        if ok:
            prev, cur, err = cur, k, e
            steps += 1
    h.fact(steps <= maxiter, "number of iterations within the limit")
    h.eq(gl, trials[cur][0], "solution is the last accepted step")
    h.eq(rl[:n], trials[cur][1][:n], "realised spectrum belongs to the solution")
    h.same(tuple(rl.shape), (N,), "realised spectrum has the padded length")
    h.eq(rl, trials[cur][1], "realised spectrum belongs to the solution (padding)")
    if skip:
        h.eq(gl[0], mono, "fixed monopole is returned")
    if info & 1:
        h.fact(err is not None, "error of the realised spectrum within the tolerance")
        if err is not None:
            h.le(err, cltol, "error of the realised spectrum within the tolerance")
    if info & 2:
        h.fact(prev is not None, "a step was taken")
        if prev is not None:
            d = [trials[cur][0][i] - trials[prev][0][i] for i in range(n)]
            h.fact(relok(h, d, trials[prev][0], gltol, False), "last step within the tolerance of the solution")
    if maxiter > 0 and steps == 0:
        h.fact(info & 1, "no step is taken only if already converged")
    h.eq(cl, keep, "input unchanged")
    if initial is not None:
        h.eq(init, kinit, "initial values unchanged")


class Partner:
    def __init__(self, t):
        self.t = t

    def corr(self, other, x): return NotImplemented
    icorr = dcorr = corr


def negpad(h):
    h.raises(ValueError, lambda: G.solve(h.arr("cl", 2, 1, 2), G.Normal(), pad=-1), "negative padding is rejected")


def exact(h, n, pad):
    """identity transformations: converged at once, solution is the input"""
    h.stub(solver, "cltocorr", lambda x: lin(h, _T[x.shape[0]], x))
    h.stub(solver, "corrtocl", lambda x: lin(h, _INV[x.shape[0]], x))
    cl = h.arr("cl", n, 0.5, 4)
    gl, rl, info = G.solve(cl, G.Normal(), G.Normal(), pad=pad, cltol=1e-6)
    h.eq(gl, cl, "solution for the identity")
    h.eq(rl[:n], cl, "realised spectrum for the identity")
    h.same(int(info), 1, "converged")


def compute1(h, n, one):
    h.stub(transformcl, "cltocorr", lambda x: lin(h, _T[x.shape[0]], x))
    h.stub(transformcl, "corrtocl", lambda x: lin(h, _INV[x.shape[0]], x))
    cl = h.arr("cl", n, 0.5, 4)
    keep = cl + 0
    t = Adversary(h, 5)
    t2 = None if one else Partner(t)
    gl = G.compute(cl, t, t2)
    h.fact(t.partner is (t if one else t2), "both transformations are used")
    a, r = t.log["icorr"][0]
    h.same(len(t.log["icorr"]), 1, "one inverse transform")
    h.eq(a, lin(h, _T[n], keep), "correlation of the input")
    h.eq(gl, lin(h, _INV[n], r), "spectrum of the inverse-transformed correlation")
    h.eq(cl, keep, "input unchanged")


def sets(h, nf, lens, zero, method):
    fields = [G.Lognormal(h.num(float(i + 1))) for i in range(nf)]
    cls = [h.arr(f"c{k}", lens[k % len(lens)], 0.5, 4) for k in range(nf * (nf + 1) // 2)]
    for k in zero:
        if k < len(cls) and cls[k].shape[0]:
            cls[k][0] = 0.0
    keep = [c + 0 for c in cls]
    calls = []

    def solve(cl, t1, t2=None, *, pad=0, initial=None, cltol=1e-5, gltol=1e-5, maxiter=20, monopole=None):
        r = h.arr(f"g{len(calls)}", cl.shape[0])
        calls.append((cl + 0, t1, t2, monopole, r))
        return r, r, len(calls) % 4

    def compute(cl, t1, t2=None):
        r = h.arr(f"g{len(calls)}", cl.shape[0])
        calls.append((cl + 0, t1, t2, None, r))
        return r
    h.stub(G, "solve", solve)
    h.stub(G, "compute", compute)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = (F.solve_gaussian_spectra if method == "solve" else F.compute_gaussian_spectra)(fields, cls)
    h.same(len(out), len(cls), "number of spectra")
    k = q = 0
    bad = 0
    for i in range(nf):
        for j in range(i, -1, -1):
            if keep[k].shape[0] == 0:
                h.same(tuple(out[k].shape), (0,), "empty spectrum stays empty")
                h.fact(out[k] is not cls[k], "empty spectrum is a copy")
            else:
                h.fact(q < len(calls), "every spectrum is solved")
                if q < len(calls):
                    cl, t1, t2, mono, r = calls[q]
                    h.eq(cl, keep[k], "spectrum of the pair")
                    h.fact({id(t1), id(t2 if t2 is not None else t1)} == {id(fields[i]), id(fields[j])}, "transformations of the pair")
                    h.eq(out[k], r, "solution of the pair")
                    if method == "solve":
                        if k in zero:
                            h.fact(mono is not None, "vanishing monopole is fixed")
                            if mono is not None:
                                h.eq(mono, h.num(0.0), "vanishing monopole is fixed at zero")
                        else:
                            h.fact(mono is None, "other monopoles are free")
                        bad += (q + 1) % 4 == 0
                    q += 1
            k += 1
    h.same(q, len(calls), "one solution per spectrum")
    if method == "solve":
        h.same(len([w for w in ws if "did not converge" in str(w.message)]), bad, "one warning per spectrum that did not converge")
    for c, o in zip(cls, keep):
        h.eq(c, o, "input unchanged")


def mismatch(h, nf, m):
    fields = [G.Normal()] * nf
    cls = [h.arr(f"c{k}", 2, 1, 2) for k in range(m)]
    for f in (F.solve_gaussian_spectra, F.compute_gaussian_spectra):
        h.raises(ValueError, lambda: f(fields, cls), "mismatch of fields and spectra is rejected")


def cases(tier):
    cs = [Case("negative-padding", negpad)]
    big = tier != "quick"
    o = dict(timeout=100, max_paths=3000)
    for n, pad in ((1, 0), (1, 1), (2, 0), (2, 1)) + (((2, 2),) if big else ()):
        for initial in (None, 1, 2, 3):
            for mono in (None, "value", "zero"):
                for maxiter, halv in ((0, 0), (1, 1)):
                    if maxiter and (n == 2 and mono is None or (initial == 3 or mono == 'zero') and not big):
                        continue
                    cs.append(Case(f"solve-n{n}-pad{pad}-init{initial}-{mono}-it{maxiter}", run,
                                   dict(n=n, pad=pad, maxiter=maxiter, initial=initial, monopole=mono, halvings=halv, one=(pad == 0)), **o))
    if big:
        o2 = dict(timeout=600, max_paths=20000)
        cs.append(Case("solve-n2-free", run, dict(n=2, pad=0, maxiter=1, initial=None, monopole=None, halvings=0, one=False), **o2))
        cs.append(Case("solve-two-steps", run, dict(n=1, pad=0, maxiter=2, initial=None, monopole=None, halvings=1, one=False), **o2))
    cs.append(Case("solve-two-full-steps", run, dict(n=1, pad=1, maxiter=2, initial=None, monopole=None, halvings=0, one=False), **o))
    cs.append(Case("solve-two-steps-monopole", run, dict(n=2, pad=0, maxiter=2, initial=1, monopole="value", halvings=0, one=False), **o))
    cs.append(Case("solve-three-halvings", run, dict(n=1, pad=0, maxiter=1, initial=1, monopole=None, halvings=3, one=True), **o))
    for n, pad in ((1, 0), (2, 0), (2, 2), (1, 3)):
        cs.append(Case(f"identity-n{n}-pad{pad}", exact, dict(n=n, pad=pad)))
    for n in (1, 2, 3):
        for one in (True, False):
            cs.append(Case(f"compute-n{n}-{one}", compute1, dict(n=n, one=one)))
    for method in ("solve", "compute"):
        for nf in (0, 1, 2, 3, 4):
            for lens in ((2,), (0, 3, 1)):
                for zero in ((), (0, 2), (1,)):
                    cs.append(Case(f"set-{method}-{nf}-{lens}-{zero}".replace(" ", ""), sets, dict(nf=nf, lens=lens, zero=zero, method=method)))
    for nf, m in ((1, 0), (1, 3), (2, 2), (3, 3), (0, 1), (2, 6)):
        cs.append(Case(f"mismatch-{nf}-{m}", mismatch, dict(nf=nf, m=m)))
    return cs
