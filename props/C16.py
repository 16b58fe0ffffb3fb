"""Assignment of redshifts to shells."""
import numpy as np
import glass.shells as S
from symxp.engine import Case
from .C14 import lininterp

FUNCTIONS = ["glass.shells.distribute", "glass.rng.Generator.multinomial", "glass._array_api_utils.XPAdditions.interp"]
BOUNDS = ("1 to 3 windows with 2 or 3 symbolic nodes and 1 or 2 symbolic redshifts, or fixed overlapping, touching and disjoint windows with up "
          "to 4 symbolic redshifts; every outcome of the random draw; shapes (), (n,), (2, 2), (2, 1), (0,), (3, 0); catalogues of 1000, 1001, "
          "2000 and 2501 redshifts with symbolic ones next to the batch boundaries")
ASSUMPTIONS = ["the generator draws any outcome with non-zero probability and none with zero probability"]

SETS = {
    "overlap": [([0.0, 1.0, 2.0], [0.0, 1.0, 0.0]), ([1.0, 2.0, 3.0], [0.0, 1.0, 0.0])],
    "touching": [([0.0, 1.0], [1.0, 1.0]), ([1.0, 2.0], [2.0, 1.0])],
    "gap": [([0.5, 1.0], [1.0, 1.0]), ([1.5, 2.0], [1.0, 1.0]), ([0.75, 1.75], [0.0, 2.0])],
    "hole": [([0.0, 1.0, 2.0, 3.0], [1.0, 0.0, 0.0, 1.0]), ([2.5, 4.0], [1.0, 0.0])],
}


class Draw:
    """categorical draws: any possible outcome for the rows listed, a fixed one for others; records the probabilities"""

    def __init__(self, h, free=None):
        self.h, self.free, self.rows, self.choice = h, free, 0, []

    def multinomial(self, n, pvals, size=None):
        h = self.h
        h.fact(size is None and n == 1, "one event per redshift")
        out = []
        for r in range(pvals.shape[0]):
            p = pvals[r]
            k = p.shape[0]
            g = self.rows
            self.rows += 1
            ps = [p[j] for j in range(k)]
            if self.free is None or g in self.free:
                h.true(_and([q >= 0 for q in ps]), "probabilities are not negative")
                c = h.int(f"choice{g}", 0, k - 1)
                j = next((j for j in range(k - 1) if h.branch(c == j)), k - 1)
                h.assume(ps[j] > 0)
            else:
                pos = [j for j in range(k) if bool(ps[j] > 0)]
                j = pos[(7 * g) % len(pos)] if pos else 0
            self.choice.append((ps, j))
            out.append([int(i == j) for i in range(k)])
        return h.const(np.asarray(out, dtype=np.int64).reshape(len(out), pvals.shape[1]))


def _and(cs):
    r = cs[0]
    for c in cs[1:]:
        r = r & c
    return r


def check(h, z, raws, out, rng, shape, only=None):
    h.same(tuple(out.shape), shape, "shape of the input")
    n = int(np.prod(shape, dtype=int))
    h.same(rng.rows, n, "one draw per redshift")
    fo = h.xp.reshape(out, (-1,))
    for i in range(n):
        idx = int(fo[i])
        ps, j = rng.choice[i]
        h.same(idx, j - 1 if len(ps) == len(raws) + 1 else j, "index of the event drawn for this redshift")
        if only is not None and i not in only:
            a = float(z[i])
            w = [float(np.interp(a, za, wa, left=0, right=0)) for za, wa in raws]
            h.fact((idx == -1 and sum(w) == 0) or (0 <= idx < len(w) and w[idx] > 0), "shell contains the redshift")
            if sum(w) > 0:
                for k in range(len(w)):
                    h.fact(abs(float(ps[k + 1]) - w[k] / sum(w)) < 1e-9, "probability proportional to the window")
            continue
        w = [lininterp(h, z[i], za, wa, lambda s: h.num(0.0)) for za, wa in raws]
        tot = w[0]
        for v in w[1:]:
            tot = tot + v
        if h.branch(tot == 0):
            h.same(idx, -1, "redshift outside of every window")
        else:
            h.fact(0 <= idx < len(w), "redshift inside a window is assigned")
            if 0 <= idx < len(w):
                h.true(w[idx] > 0, "window of the shell does not vanish")
            if len(ps) == len(raws) + 1:
                h.eq(ps[0], h.num(0.0), "no probability of being outside")
                for k in range(len(w)):
                    h.eq(ps[k + 1] * tot, w[k], "probability proportional to the window")


def symbolic(h, ns, nn, shape):
    n = int(np.prod(shape, dtype=int))
    z = h.arr("z", shape, 0, 9)
    zs = [h.xp.reshape(z + 0, (-1,))[i] for i in range(n)]
    raws, ws = [], []
    for k in range(ns):
        za, wa = h.arr(f"a{k}", nn, 0, 3, increasing=(0.01, 3)), h.arr(f"w{k}", nn, 0, 3)
        raws.append((za + 0, wa + 0))
        ws.append(S.RadialWindow(za, wa, 1.0))
    rng = Draw(h)
    keep = z + 0
    out = S.distribute(z, ws, rng=rng)
    check(h, zs, raws, out, rng, tuple(z.shape), None)
    h.eq(z, keep, "redshifts unchanged")
    for w, (a, b) in zip(ws, raws):
        h.eq(w.wa, b, "windows unchanged")


def windows(h, name):
    return [S.RadialWindow(h.const(a), h.const(b), 0.5 * (a[0] + a[-1])) for a, b in SETS[name]]


def fixed(h, name, shape):
    n = int(np.prod(shape, dtype=int))
    z = h.arr("z", shape, -1, 5)
    zs = [h.xp.reshape(z + 0, (-1,))[i] for i in range(n)]
    rng = Draw(h)
    out = S.distribute(z, windows(h, name), rng=rng)
    raws = [(h.const(a), h.const(b)) for a, b in SETS[name]]
    check(h, zs, raws, out, rng, shape, None)


def large(h, name, n, free, shape=None):
    """catalogues over several batches: symbolic redshifts at the given places only"""
    base = [((37 * i) % 1013) / 1013 * 4.5 - 0.25 for i in range(n)]
    base = [round(b * 1024) / 1024 for b in base]
    z = h.const(np.asarray(base))
    for i in free:
        z[i] = h.real(f"z{i}", -1, 5)
    zs = {i: z[i] + 0 for i in free}
    if shape is not None:
        z = h.xp.reshape(z, shape)
    rng = Draw(h, free)
    out = S.distribute(z, windows(h, name), rng=rng)
    raws = SETS[name]
    h.same(tuple(out.shape), shape or (n,), "shape of the input")
    h.same(rng.rows, n, "one draw per redshift")
    fo = h.xp.reshape(out, (-1,))
    for i in range(n):
        idx = int(fo[i])
        ps, j = rng.choice[i]
        h.same(idx, j - 1 if len(ps) == len(raws) + 1 else j, "index of the event drawn for this redshift")
        if i in zs:
            w = [lininterp(h, zs[i], h.const(a), h.const(b), lambda s: h.num(0.0)) for a, b in raws]
            tot = sum(w[1:], w[0])
            if h.branch(tot == 0):
                h.same(idx, -1, "redshift outside of every window")
            else:
                h.fact(0 <= idx < len(w), "redshift inside a window is assigned")
                if 0 <= idx < len(w):
                    h.true(w[idx] > 0, "window of the shell does not vanish")
        else:
            w = [float(np.interp(base[i], za, wa, left=0, right=0)) for za, wa in raws]
            h.fact((idx == -1 and sum(w) == 0) or (0 <= idx < len(w) and w[idx] > 0), "shell contains the redshift")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=6000)
    cs = []
    for ns, nn, shape in ((1, 2, ()), (1, 3, (1,)), (2, 2, (1,)), (2, 2, ()), (1, 2, (2,)), (1, 2, (0,)), (2, 2, (3, 0)), (3, 2, (1,))) + (
            ((2, 3, (1,)), (2, 2, (2,)), (3, 2, (1, 1))) if big else ()):
        cs.append(Case(f"symbolic-{ns}-{nn}-{shape}".replace(" ", ""), symbolic, dict(ns=ns, nn=nn, shape=shape), **o))
    for name in SETS:
        for shape in ((1,), (2,), (2, 1)) + (((3,), (2, 2)) if big else ()):
            if name in ("hole", "gap") and len(shape) == 2 and shape[1] == 2:
                continue
            cs.append(Case(f"fixed-{name}-{shape}".replace(" ", ""), fixed, dict(name=name, shape=shape), **o))
    for name, n, free, shape in (("overlap", 1000, (999,), None), ("gap", 1001, (1000,), None), ("touching", 2000, (0, 1000), None),
                                 ("overlap", 2501, (2000,), None), ("hole", 2002, (1999,), (2, 1001))):
        cs.append(Case(f"large-{name}-{n}", large, dict(name=name, n=n, free=free, shape=shape), **o))
    return cs
