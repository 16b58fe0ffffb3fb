"""Joint power spectra of sampled Gaussian random fields and their transformations."""
import transformcl
import glass.fields as F
import glass.healpix as gh
from symxp.engine import Case
from .common import UnitRNG, stack

FUNCTIONS = ["glass.fields.generate", "glass.fields._generate_grf", "glass.fields.iternorm", "glass.fields.cls2cov",
             "glass.fields._glass_to_healpix_alm", "glass.harmonics.multalm", "glass.rng.Generator", "glass.fields.getcl"]
BOUNDS = ("1 to 3 fields (4 thorough), 1 to 3 modes, correlation limit none or 0 to 3, ragged spectra; every positive definite set of "
          "spectra of these sizes, written through a Cholesky factor per mode with symbolic entries, zero spectra beyond ragged ends")
ASSUMPTIONS = ["the spherical harmonic transform, the random numbers and the spectrum-to-variance sum are external (stubbed)",
               "the coefficients are linear in the normals (shown for symbolic normals), so covariances follow from the linear coefficients"]


def hpidx(n, l, m):
    return m * (2 * n - 1 - m) // 2 + l


def spectra(h, nf, n, k, ends):
    """spectra with values 2 L L^T per mode; field i ends at mode ends[i]"""
    L = {}
    for l in range(n):
        for i in range(nf):
            for j in range(max(0, i - k), i + 1):
                if l < ends[i] and l < ends[j]:
                    L[l, i, j] = h.real(f"L{l}_{i}_{j}", 0.1, 5) if i == j else h.real(f"L{l}_{i}_{j}", -5, 5)
    def cov(l, i, j):
        t = h.num(0.0)
        for q in range(nf):
            if (l, i, q) in L and (l, j, q) in L:
                t = t + L[l, i, q] * L[l, j, q]
        return 2 * t
    gls = []
    for i in range(nf):
        for j in range(i, -1, -1):
            m = min(ends[i], ends[j])
            if i - j > k:
                gls.append(h.const([]))
            else:
                gls.append(stack(h, [cov(l, i, j) for l in range(m)]))
    return gls, cov


def sampled(h, nf, n, k, ncorr, ends):
    gls, cov = spectra(h, nf, n, k, ends)
    nside = 4
    maps = []

    def alm2map(alms, ns, *, inplace=False, lmax=None, pixwin=False, pol=True):
        h.fact(ns == nside and not pixwin and lmax in (None, n - 1), "map of the requested resolution, no pixel window")
        maps.append(alms + 0)
        return ("map", len(maps) - 1)
    h.stub(gh, "alm2map", alm2map)
    h.stub(transformcl, "cltovar", lambda cl: ("var", cl))
    calls = []

    def mk(i):
        def t(x, var):
            calls.append((i, x, var))
            return ("field", i, x)
        return t
    fields = [mk(i) for i in range(nf)]

    def run(vals):
        maps.clear()
        calls.clear()
        rng = UnitRNG(h, vals)
        kw = {} if ncorr is None else dict(ncorr=ncorr)
        out = list(F.generate(fields, gls, nside, rng=rng, **kw))
        return out, list(maps), rng.n
    out, base, nd = run([])
    h.same(len(out), nf, "number of fields")
    h.same([o[1] for o in out], list(range(nf)), "each field through its own transformation")
    h.same([o[2] for o in out], [("map", i) for i in range(nf)], "transformed maps in order")
    for i in range(nf):
        h.same(calls[i][2][0], "var", "variance from the spectrum")
        h.eq(calls[i][2][1], gls[i * (i + 1) // 2], "variance of the field's own auto-spectrum")
    n2 = n * (n + 1) // 2
    for a in base:
        h.same(tuple(a.shape), (n2,), "number of coefficients")
        h.eq(a, h.const([0j] * n2), "no offset")
    coef = []
    for d in range(nd):
        coef.append(run([0.0] * d + [1.0])[1])
    # linear in the normals
    z = [h.real(f"z{d}", -5, 5) for d in range(nd)]
    gen = run(z)[1]
    for i in range(nf):
        for q in range(n2):
            t = h.num(0.0)
            for d in range(nd):
                t = t + z[d] * coef[d][i][q]
            h.eq(gen[i][q], t, "coefficients are linear in the normals")
    h.same(run([])[2], nd, "the number of draws does not depend on the normals")

    def re(x):
        return h.xp.real(x)

    def im(x):
        return h.xp.imag(x)
    C = [[[(re(coef[d][i][q]), im(coef[d][i][q])) for q in range(n2)] for i in range(nf)] for d in range(nd)]

    def E(i, q, a, j, p, b):
        t = h.num(0.0)
        for d in range(nd):
            x, y = C[d][i][q][a], C[d][j][p][b]
            t = t + x * y
        return t
    where = [(l, m) for l in range(n) for m in range(l + 1)]
    zero = h.num(0.0)
    for i in range(nf):
        for j in range(i + 1):
            for (l, m) in where:
                for (l2, m2) in where:
                    if i == j and (l2, m2) > (l, m):
                        continue
                    q, p = hpidx(n, l, m), hpidx(n, l2, m2)
                    c = [E(i, q, a, j, p, b) for a, b in ((0, 0), (1, 1), (0, 1), (1, 0))]
                    if (l, m) != (l2, m2):
                        for x in c:
                            h.eq(x, zero, "different modes are uncorrelated")
                        continue
                    if abs(i - j) > (nf if ncorr is None else ncorr):
                        continue
                    want = cov(l, i, j)
                    if m == 0:
                        h.eq(c[0], want, "variance of an order-zero mode")
                        for x in c[1:]:
                            h.eq(x, zero, "order-zero modes are real")
                    else:
                        h.eq(c[0], want / 2, "real part holds half of the spectrum")
                        h.eq(c[1], want / 2, "imaginary part holds half of the spectrum")
                        h.eq(c[2], zero, "real and imaginary part are uncorrelated")
                        h.eq(c[3], zero, "real and imaginary part are uncorrelated")


def mismatch(h, nf, m):
    gls = [h.arr(f"c{k}", 2, 0, 1) for k in range(m)]
    h.stub(gh, "alm2map", lambda *a, **k: None)
    fields = [lambda x, v: x] * nf
    h.raises(ValueError, lambda: list(F.generate(fields, gls, 4, rng=h.rng())), "mismatch of fields and spectra is rejected")


def empty(h, nf):
    gls = [h.const([]) for _ in range(nf * (nf + 1) // 2)]
    h.stub(gh, "alm2map", lambda *a, **k: None)
    h.stub(transformcl, "cltovar", lambda cl: 0.0)
    h.raises(ValueError, lambda: list(F.generate([lambda x, v: x] * nf, gls, 4, rng=h.rng())), "all-empty spectra are rejected")


def cases(tier):
    cs = []
    t = dict(timeout=120)
    big = tier != "quick"
    for nf in (1, 2, 3) + ((4,) if big else ()):
        for n in (1, 2, 3):
            if nf == 3 and n == 3 and not big or nf == 4 and n == 3:
                continue
            for nc in [None] + list(range(0, nf)):
                cs.append(Case(f"joint-nf{nf}-n{n}-nc{nc}", sampled, dict(nf=nf, n=n, k=nf - 1 if nc is None else nc, ncorr=nc, ends=(n,) * nf), **t))
    # spectra limited in correlation, sampler not
    cs.append(Case("joint-full-sampler", sampled, dict(nf=3, n=2, k=0, ncorr=None, ends=(2, 2, 2)), **t))
    cs.append(Case("joint-wide-limit", sampled, dict(nf=2, n=2, k=1, ncorr=3, ends=(2, 2)), **t))
    for nf, n, ends in ((2, 2, (2, 1)), (2, 2, (1, 2)), (3, 2, (2, 1, 2)), (3, 2, (0, 2, 2))):
        cs.append(Case(f"joint-ragged-{ends}".replace(" ", ""), sampled, dict(nf=nf, n=n, k=nf - 1, ncorr=None, ends=ends), **t))
    for nf, m in ((1, 3), (2, 1), (2, 2), (3, 3), (0, 1), (3, 10)):
        cs.append(Case(f"mismatch-{nf}-{m}", mismatch, dict(nf=nf, m=m)))
    for nf in (1, 2, 3):
        cs.append(Case(f"empty-{nf}", empty, dict(nf=nf)))
    return cs
