"""Expected number of galaxies per pixel and population."""
import math
import numpy as np
import glass.points as P
from symxp.engine import Case
from .common import iszero

FUNCTIONS = ["glass.points.positions_from_delta", "glass.points._broadcast_inputs", "glass.points._compute_density_contrast",
             "glass.points._compute_expected_count", "glass.points._apply_visibility", "glass.points._sample_number_galaxies",
             "glass.points.linear_bias", "glass.points.loglinear_bias", "glass.arraytools.broadcast_leading_axes"]
BOUNDS = ("maps of 12 pixels with 1 or 2 symbolic pixels per population (all in the monopole cases), populations (), (2,), (2, 1) x (3,), "
          "(1, 2) and broadcasts between the inputs, every combination of bias, visibility, bias model and monopole removal")
ASSUMPTIONS = ["density contrasts of at least -1 where a log-linear bias is applied; visibility between zero (1/8 with several populations) and one, density not negative"]
NPIX = 12


class Rec:
    def __init__(self, h):
        self.h, self.lam = h, []

    def poisson(self, lam=1.0, size=None):
        self.lam.append(lam + 0)
        return self.h.const(np.zeros(lam.shape, dtype=np.int64))


def mapped(h, name, lead, lo, hi, full):
    if full:
        return h.arr(name, lead + (NPIX,), lo, hi)
    base = np.round(np.linspace(lo + 0.25 * (hi - lo), hi, NPIX) * 16) / 16
    m = h.const(np.broadcast_to(base, lead + (NPIX,)).copy())
    for i in np.ndindex(*lead):
        for p in ((0, 7) if not lead else (5,)):
            m[i + (p,)] = h.real(f"{name}" + "".join(f"_{q}" for q in i) + f"_p{p}", lo, hi)
    return m


def run(h, sg, sd, sb, sv, model, mono, full):
    ngal = h.arr("ngal", sg, 0, 9) if sg is not None else h.real("ngal", 0, 9)
    delta = mapped(h, "d", sd, -0.75 if model == "loglinear" else -3, 3, full)
    bias = None if sb is None else h.arr("b", sb, 0.25 if mono else -2, 2) if sb != "scalar" else h.real("b", -2, 2)
    if model == "loglinear" and mono:
        bias = h.const(np.full(() if sb == "scalar" else sb, 2.0))
    dims = np.broadcast_shapes(sg or (), sd, sb if sb not in (None, "scalar") else (), sv or ())
    vis = None if sv is None else mapped(h, "v", sv, 0.125 if dims else 0, 1, full)
    kd, kn = delta + 0, ngal + 0
    kb, kv = None if bias is None else bias + 0, None if vis is None else vis + 0
    rng = Rec(h)
    kw = {}
    custom = []
    if model == "loglinear":
        kw["bias_model"] = P.loglinear_bias
    elif model == "custom":
        def f(d, b):
            custom.append((d, b))
            return d * b * b + 0.5
        kw["bias_model"] = f
    if mono is not None:
        kw["remove_monopole"] = mono
    if vis is not None:
        kw["vis"] = vis
    out = list(P.positions_from_delta(ngal, delta, bias, rng=rng, **kw))
    h.same(len(out), 0, "no positions for empty counts")
    rows = []
    for l in rng.lam:
        l = h.xp.reshape(l, (-1, l.shape[-1]))
        rows += [l[i] for i in range(l.shape[0])]
    h.same(len(rows), int(np.prod(dims, dtype=int)), "one map of means per population")
    def pick(x, sh, k):
        if sh in (None, "scalar"):
            return x
        k = k[len(dims) - len(sh):] if sh else ()
        return x[tuple(0 if s == 1 else q for s, q in zip(sh, k)) + (Ellipsis,)] if len(x.shape) > len(sh) else x[tuple(0 if s == 1 else q for s, q in zip(sh, k))]
    for row, k in zip(rows, np.ndindex(*dims)):
        d, g = pick(kd, sd, k), pick(kn, sg, k)
        n = [d[p] for p in range(NPIX)]
        if bias is not None:
            b = pick(kb, sb, k)
            if model == "linear":
                n = [b * x for x in n]
            elif model == "custom":
                n = [x * b * b + 0.5 for x in n]
            else:
                n = [h.xp.exp(b * h.xp.log(1 + h.xp.asarray(x))) - 1 for x in n]
        if mono:
            m = sum(n[1:], n[0]) / NPIX
            n = [x - m for x in n]
        area = 4 * (180 * 60) ** 2 / math.pi / NPIX
        v = None if vis is None else pick(kv, sv, k)
        h.same(tuple(row.shape), (NPIX,), "one mean per pixel")
        for p in range(NPIX):
            want = (1 + n[p]) * g * area
            if v is not None:
                want = want * v[p]
            h.le(0.0, row[p], "mean not negative")
            h.le(want, row[p], "mean number per pixel not too small")
            if not iszero(row[p]):      # zero where this path of the code clips the mean
                h.le(row[p], want, "mean number per pixel not too large")
    h.eq(delta, kd, "density contrast unchanged")
    if bias is not None:
        h.eq(bias, kb, "bias unchanged")
    if vis is not None:
        h.eq(vis, kv, "visibility unchanged")
    h.eq(ngal, kn, "density unchanged")


def total(h, biased):
    """with the monopole removed the total is the density times the area of the sky (where no mean is clipped)"""
    g = h.real("ngal", 0, 9)
    d = h.arr("d", NPIX, -0.125, 0.125)
    rng = Rec(h)
    list(P.positions_from_delta(g, d, *((h.real("b", -2, 2),) if biased else ()), remove_monopole=True, rng=rng))
    h.eq(h.xp.sum(rng.lam[0]), g * (4 * (180 * 60) ** 2 / math.pi), "total number over the sky")


def bad(h):
    d = h.arr("d", NPIX, -1, 1)
    for m in (None, "linear", 1.0, "glass.linear_bias"):
        h.raises(TypeError, lambda: list(P.positions_from_delta(1.0, d, 1.0, bias_model=m, rng=Rec(h))), "bias model must be a function")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=5000)
    cs = [Case("bias-model", bad), Case("total", total, dict(biased=False), **o), Case("total-biased", total, dict(biased=True), **o)]
    for sb, model in ((None, "linear"), ("scalar", "linear"), ("scalar", "loglinear"), ("scalar", "custom"), ((), "linear")):
        for sv in (None, ()):
            for mono in (None, False, True):
                cs.append(Case(f"single-{sb}-{model}-{sv}-{mono}", run, dict(sg=None, sd=(), sb=sb, sv=sv, model=model, mono=mono, full=False), **o))
    for sg, sd, sb, sv in (((2,), (), None, None), ((2,), (2,), (2,), None), ((2,), (), (2,), ()), (None, (2,), "scalar", ()),
                           ((2, 1), (3,), None, None), ((), (2,), (2,), (2,)), (None, (), (2,), None), (None, (), None, (2,)),
                           ((1, 2), (2, 1), None, ()), ((2,), (1,), (1,), (2,))):
        for model in ("linear", "custom", "loglinear"):
            if model != "linear" and sb is None:
                continue
            for mono in (False, True):
                cs.append(Case(f"pops-{sg}-{sd}-{sb}-{sv}-{model}-{mono}".replace(" ", ""), run,
                               dict(sg=sg, sd=sd, sb=sb, sv=sv, model=model, mono=mono, full=False), **o))
    return cs
