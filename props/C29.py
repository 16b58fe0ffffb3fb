"""Redshifts for a catalogue of bin labels."""
import numpy as np
import glass.galaxies as G
from symxp.engine import Case
from .common import Draws, flat
from .C28 import check, inverse

FUNCTIONS = ["glass.galaxies.redshifts_from_bins", "glass.galaxies._draw_nz", "glass.arraytools.cumulative_trapezoid",
             "glass._array_api_utils.xp_additions.interp", "glass.rng.Generator.uniform"]
BOUNDS = ("catalogues of 1 to 4 entries (5 thorough) in shapes (n,), (2, 2), (1, 3) with symbolic labels from sets of 1 to 3, integer and float labels, "
          "every order and repetition of labels; labels without entries; dictionaries in any order; distributions of 2 or 3 nodes with symbolic densities")
ASSUMPTIONS = ["uniform draws are arbitrary in [0, 1)"]


def run(h, shape, labels, n, order, fixed=None):
    n_ent = int(np.prod(shape, dtype=int))
    if fixed is None:
        ix = h.arr("b", shape, 0, len(labels) - 1, dtype=int)
        k = [int(ix[i]) for i in np.ndindex(*shape)]
    else:
        k = list(fixed)
    bins = h.const(np.asarray([labels[i] for i in k]).reshape(shape))
    z = np.array([0.5, 1.0, 2.0])[:n]
    z = h.const(z)
    nz = {}
    for i in order:
        f = h.arr(f"f{i}", n, 0.25, 2)
        nz[labels[i]] = f
    keep = {a: f + 0 for a, f in nz.items()}
    rng = h.rng()
    out = G.redshifts_from_bins(bins, z, nz, rng=rng)
    h.same(tuple(out.shape), tuple(shape), "shape of the catalogue")
    d = Draws(h, rng)
    h.same(len(d.us), n_ent, "one draw per entry")
    zs = flat(h, z)
    for pos, x in zip(k, flat(h, out)):
        fs = flat(h, keep[labels[pos]])
        u = d.take(x, lambda u: inverse(h, u, zs, fs))
        if u is not None:
            check(h, x, u, zs, fs)
    d.all_used()
    for a, f in nz.items():
        h.eq(f, keep[a], "distributions unchanged")


def symbolic_labels(h, n):
    """labels that are themselves arbitrary numbers, not of the dictionary order"""
    b = h.arr("b", n, 0, 2, dtype=int)
    z = h.const(np.array([0.5, 1.0]))
    # distributions on different halves are told apart by their redshift range
    nz = {2: h.const(np.array([1.0, 1.0])), 0: h.const(np.array([1.0, 1.0])), 1: h.const(np.array([1.0, 1.0]))}
    rng = h.rng()
    out = G.redshifts_from_bins(b, z, nz, rng=rng)
    d = Draws(h, rng)
    zs, fs = flat(h, z), [1.0, 1.0]
    for x in flat(h, out):
        u = d.take(x, lambda u: 0.5 + u / 2)
        if u is not None:
            h.eq(x, 0.5 + u / 2, "redshift of a uniform distribution")
    d.all_used()


def missing(h, labels, have):
    z = h.const(np.array([0.5, 1.0]))
    nz = {a: h.arr(f"f{i}", 2, 0.25, 2) for i, a in enumerate(have)}
    bins = h.const(np.asarray(labels))
    try:
        G.redshifts_from_bins(bins, z, nz, rng=h.rng())
    except Exception as e:
        if type(e).__name__ in ("PathEnd", "Unsupported"):
            raise
        h.fact(True, "a label without a distribution is an error")
        return
    h.fact(False, "a label without a distribution is an error")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100 if not big else 900, max_paths=6000)
    cs = []
    L = {1: [3], 2: [7, -2], 3: [1, 0, 4]}
    for shape, nl, n, order in (((1,), 1, 3, (0,)), ((1,), 3, 3, (2, 0, 1)), ((2,), 2, 3, (0, 1)), ((3,), 2, 2, (1, 0)), ((3,), 3, 2, (1, 2, 0)),
                                ((2, 2), 2, 2, (0, 1)), ((1, 3), 2, 2, (1, 0)), ((4,), 3, 2, (2, 1, 0))):
        cs.append(Case(f"labels-{shape}-{nl}-{n}".replace(" ", ""), run, dict(shape=shape, labels=L[nl], n=n, order=order), **o))
    cs.append(Case("float-labels", run, dict(shape=(3,), labels=[0.5, -1.25], n=2, order=(1, 0)), **o))
    cs.append(Case("three-nodes", run, dict(shape=(4,), labels=[2, 1], n=3, order=(0, 1), fixed=[1, 0, 1, 0]), **o))
    cs.append(Case("long", run, dict(shape=(24,), labels=[5, 1, 3], n=2, order=(0, 1, 2), fixed=[(7 * i * i + i) % 3 for i in range(24)]), **o))
    cs.append(Case("long-2d", run, dict(shape=(2, 3, 4), labels=[5, 1, 3], n=2, order=(2, 1, 0), fixed=[(5 * i * i + i + 1) % 3 for i in range(24)]), **o))
    cs.append(Case("symbolic-3", symbolic_labels, dict(n=3 if not big else 4), **o))
    if big:
        cs.append(Case("labels-5-3", run, dict(shape=(5,), labels=L[3], n=2, order=(1, 2, 0)), **o))
        cs.append(Case("labels-3-3n", run, dict(shape=(3,), labels=L[3], n=3, order=(1, 2, 0)), **o))
    for labels, have in (([1], [0]), ([0, 1, 0], [0]), ([0, 1, 2], [2, 0]), ([[0, 1]], [5])):
        cs.append(Case(f"missing-{labels}-{have}".replace(" ", ""), missing, dict(labels=labels, have=have), **o))
    return cs
