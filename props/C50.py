"""Field sets of shells, lognormal shifts, deprecated forms."""
from fractions import Fraction
import transformcl
import glass
import glass.fields as F
import glass.grf as G
import glass.healpix as gh
from symxp.engine import Case
from .common import Func, UnitRNG, caught, flat
from .C08 import spectra

FUNCTIONS = ["glass.fields.gaussian_fields", "glass.fields.lognormal_fields", "glass.fields.lognormal_shift_hilbert2011", "glass.fields.generate_gaussian",
             "glass.fields.generate_lognormal", "glass.fields.lognormal_gls", "glass.fields.generate", "glass.fields.solve_gaussian_spectra", "glass.grf.Normal", "glass.grf.Lognormal"]
BOUNDS = ("0 to 4 shells with symbolic effective redshifts (given or computed from 3 symbolic samples) and an arbitrary shift function; symbolic redshifts for the shift formula; "
          "deprecated forms with 1 to 3 fields, 1 or 2 modes, symbolic spectra, shift and random numbers")
ASSUMPTIONS = ["the spherical harmonic transform, the spectrum-to-variance sum and the iterative solver are external to this property (stubbed)"]


def shells(h, n, given):
    out, zs = [], []
    for i in range(n):
        za = h.arr(f"za{i}", 3, 0, 1, increasing=(0.25, 1))
        wa = h.arr(f"wa{i}", 3, 0.25, 2)
        if given[i % len(given)]:
            z = h.real(f"zeff{i}", 0, 5)
            w = glass.RadialWindow(za, wa, z)
        else:
            w = glass.RadialWindow(za, wa)
            num = sum((za[k + 1] - za[k]) * (za[k] * wa[k] + za[k + 1] * wa[k + 1]) for k in range(2))
            z = num / sum((za[k + 1] - za[k]) * (wa[k] + wa[k + 1]) for k in range(2))
        out.append(w)
        zs.append(z)
    return out, zs


def check(h, fields, i, lam):
    """field i is the lognormal transformation with the shift lam"""
    t = fields[i]
    h.fact(type(t) is G.Lognormal, "lognormal transformation")
    h.eq(t.lamda, lam, "shift of the field")
    x, v = h.arr(f"x{i}", 2, -1, 1), h.real(f"var{i}", 0, 1)
    y = t(x, v)
    for k in range(2):
        h.eq(y[k], lam * h.xp.expm1(x[k] - v / 2), "transformation with the shift")


def gaussian(h, n, kind):
    ws, _ = shells(h, n, (True,))
    f = F.gaussian_fields({"list": list, "tuple": tuple}[kind](ws))
    h.same(len(f), n, "one transformation per shell")
    for i in range(n):
        h.fact(type(f[i]) is G.Normal, "normal transformation")
        x = h.arr(f"x{i}", 2, -3, 3)
        h.eq(f[i](x + 0, h.real(f"v{i}", 0, 1)), x, "identity")


def lognormal(h, n, given, kind, shift):
    ws, zs = shells(h, n, given)
    fn = Func(h, "shift", 0.125, 2) if shift == "func" else None
    args = {"func": lambda: dict(shift=fn), "none": lambda: dict(shift=None), "default": lambda: {}, "const": lambda: dict(shift=lambda z: 0.5), "hilbert": lambda: dict(shift=F.lognormal_shift_hilbert2011)}[shift]()
    f = F.lognormal_fields({"list": list, "tuple": tuple}[kind](ws), **args)
    h.same(len(f), n, "one transformation per shell")
    if fn is not None:
        h.same(len(fn.calls), n, "one shift per shell")
    for i in range(n):
        if fn is not None:
            h.eq(fn.calls[i][0], zs[i], "shift at the effective redshift of the shell")
            lam = fn.calls[i][1]
        elif shift == "const":
            lam = h.num(0.5)
        elif shift == "hilbert":
            lam = cubic(h, zs[i])
        else:
            lam = h.num(1.0)
        check(h, f, i, lam)


def cubic(h, z):
    c = [h.num(Fraction(n, 100000)) for n in (800, 2900, -790, 65)]
    return c[0] * z + c[1] * z * z + c[2] * z * z * z + c[3] * z * z * z * z


def formula(h):
    z = h.real("z", 0, 10)
    h.eq(F.lognormal_shift_hilbert2011(z), cubic(h, z), "fitting formula")
    a = h.arr("a", (2, 2), 0, 10)
    r = F.lognormal_shift_hilbert2011(a)
    h.same(tuple(r.shape), (2, 2), "shape of the redshifts")
    for x, y in zip(flat(h, a), flat(h, r)):
        h.eq(y, cubic(h, x), "fitting formula")
    h.true(F.lognormal_shift_hilbert2011(h.num(0.0)) == 0, "no shift at redshift zero")


def deprecated(h, form, nf, n, ncorr, shift):
    gls, _ = spectra(h, nf, n, ncorr or nf - 1, (n,) * nf)
    nside = 4

    def alm2map(alms, ns, *, inplace=False, lmax=None, pixwin=False, pol=True):
        h.same(ns, nside, "resolution is passed on")
        return h.xp.real(alms) + 2 * h.xp.imag(alms)
    h.stub(gh, "alm2map", alm2map)
    h.stub(transformcl, "cltovar", lambda cl: cl[0] / 7)
    z = [h.real(f"z{d}", -1, 1) for d in range(nf * n * (n + 1))]
    kw = {} if ncorr is None else dict(ncorr=ncorr)
    r1 = UnitRNG(h, z)
    lam = {"default": None, "one": h.num(1.0), "sym": h.real("shift", 0.125, 2)}[shift]
    if form == "gaussian":
        got, ws = caught(lambda: list(F.generate_gaussian(gls, nside, rng=r1, **kw)))
        t = [G.Normal() for _ in range(nf)]
    else:
        args = () if lam is None else (lam,)
        got, ws = caught(lambda: list(F.generate_lognormal(gls, nside, *args, rng=r1, **kw)))
        t = [G.Lognormal(1.0 if lam is None else lam) for _ in range(nf)]
    h.fact(any("generate" in w for w in ws), "deprecated form warns")
    r2 = UnitRNG(h, z)
    want = list(F.generate(t, gls, nside, rng=r2, **kw))
    h.same((len(got), len(want)), (nf, nf), "number of fields")
    h.same(r1.n, r2.n, "number of draws")
    for a, b in zip(got, want):
        h.same(tuple(a.shape), tuple(b.shape), "shape of the map")
        h.eq(a, b, "same map as with the general function")


def old_gls(h, nf, lens, shift):
    cls = [h.arr(f"c{k}", lens[k % len(lens)], 0.125, 1) for k in range(nf * (nf + 1) // 2)]
    calls = []

    def solve(cl, t1, t2=None, *, pad=0, initial=None, cltol=1e-5, gltol=1e-5, maxiter=20, monopole=None):
        t2 = t1 if t2 is None else t2
        calls.append((pad, monopole, initial, cltol, gltol, maxiter))
        return cl * t1.lamda + t2.lamda * t2.lamda, cl, 1
    h.stub(G, "solve", solve)
    lam = None if shift == "default" else h.real("shift", 0.125, 2)
    got, ws = caught(lambda: F.lognormal_gls(cls, *(() if lam is None else (lam,))))
    h.fact(any("solve_gaussian_spectra" in w for w in ws), "deprecated form warns")
    first = list(calls)
    want = F.solve_gaussian_spectra([G.Lognormal(1.0 if lam is None else lam)] * nf, cls)
    h.same(calls[len(first):], first, "same solutions")
    h.same(len(got), len(want), "number of spectra")
    for a, b in zip(got, want):
        h.eq(a, b, "same spectrum as with the general function")


def incomplete(h, m):
    cls = [h.arr(f"c{k}", 2, 0.125, 1) for k in range(m)]
    h.stub(gh, "alm2map", lambda *a, **k: None)
    for fn in (lambda: list(F.generate_gaussian(cls, 4)), lambda: list(F.generate_lognormal(cls, 4)), lambda: F.lognormal_gls(cls)):
        h.raises(ValueError, lambda: caught(fn), "incomplete set of spectra is rejected")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100)
    cs = [Case("formula", formula, **o)]
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")
    for n in (0, 1, 3) + ((5,) if big else ()):
        for kind in ("list", "tuple"):
            cs.append(Case(nm("gaussian", n, kind), gaussian, dict(n=n, kind=kind), **o))
            for shift in ("func", "none", "default", "const", "hilbert"):
                for given in ((True,), (False, True)):
                    if shift == "hilbert" and not all(given):
                        continue
                    cs.append(Case(nm("lognormal", n, given, kind, shift), lognormal, dict(n=n, given=given, kind=kind, shift=shift), **o))
    for nf, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((3, 2), (2, 3)) if big else ()):
        for nc in (None, 0, 1):
            if nc is not None and nc >= nf:
                continue
            for form, shift in (("gaussian", "default"), ("lognormal", "default"), ("lognormal", "one"), ("lognormal", "sym")):
                cs.append(Case(nm("deprecated", form, nf, n, nc, shift), deprecated, dict(form=form, nf=nf, n=n, ncorr=nc, shift=shift), **o))
    for nf, lens in ((1, (2,)), (2, (3, 2)), (2, (2, 0)), (3, (2,))):
        for shift in ("default", "sym"):
            cs.append(Case(nm("lognormal_gls", nf, lens, shift), old_gls, dict(nf=nf, lens=lens, shift=shift), **o))
    for m in (2, 4, 5):
        cs.append(Case(nm("incomplete", m), incomplete, dict(m=m), **o))
    return cs
