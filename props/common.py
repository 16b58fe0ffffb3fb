"""Helpers shared by several harnesses."""
import numpy as np


def stack(h, vals, shape=None):
    """array from a flat python list of elements"""
    if not len(vals):
        a = h.const(np.zeros(0))
    else:
        a = h.xp.stack([h.xp.asarray(v) for v in vals])
    return h.xp.reshape(a, shape) if shape is not None else a


def nested(h, vals):
    """array from nested lists of elements"""
    if isinstance(vals, (list, tuple)):
        return h.xp.stack([nested(h, v) for v in vals])
    return h.xp.asarray(vals)


class UnitRNG:
    """standard normals with prescribed values: draw number k is vals[k] (zero beyond the list); counts the draws"""

    def __init__(self, h, vals):
        self.h, self.vals, self.n = h, vals, 0

    def _take(self, size):
        shape = () if size is None else (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(s) for s in size)
        m = int(np.prod(shape, dtype=int))
        out = []
        for _ in range(m):
            v = self.vals(self.n) if callable(self.vals) else (self.vals[self.n] if self.n < len(self.vals) else 0.0)
            out.append(v)
            self.n += 1
        if shape == ():
            return out[0]
        if all(isinstance(v, float) for v in out):
            return self.h.const(np.asarray(out, dtype=float).reshape(shape))
        return self.h.xp.reshape(stack(self.h, out), shape)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._take(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast_shapes(np.shape(loc) if not hasattr(loc, "shape") else loc.shape,
                                       np.shape(scale) if not hasattr(scale, "shape") else scale.shape)
            if size == ():
                size = None
        return loc + scale * self._take(size)


class Func:
    """an arbitrary function of one array, elementwise: fresh values, equal for arguments recorded before (by identity of the terms)"""

    def __init__(self, h, name, lo=None, hi=None, scalar=False):
        self.h, self.name, self.lo, self.hi, self.calls = h, name, lo, hi, []

    def __call__(self, z):
        h = self.h
        if not hasattr(z, "shape") or z.shape == ():
            r = h.real(f"{self.name}{len(self.calls)}", self.lo, self.hi)
            if hasattr(z, "shape"):
                r = h.xp.asarray(r)
            self.calls.append((z, r))
            return r
        r = h.arr(f"{self.name}{len(self.calls)}", tuple(z.shape), self.lo, self.hi)
        self.calls.append((z + 0, r))
        return r + 0


def iszero(x):
    """whether x is exactly zero on the path being explored (not just possibly)"""
    from symxp.scalar import S
    a = x.a.reshape(-1)[0] if hasattr(x, "a") else x
    return not isinstance(a, S) and bool(a == 0)


def trapz(y, x):
    t = 0.0
    for i in range(len(x) - 1):
        t = t + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
    return t


def caught(fn):
    """(result, warnings) of fn"""
    import warnings
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = fn()
    return r, [str(w.message) for w in ws]


def flat(h, x):
    x = h.xp.reshape(h.xp.asarray(x), (-1,))
    return [x[i] for i in range(x.shape[0])]


class Draws:
    """elementary uniform draws made by a generator, matched with the results that use them"""

    def __init__(self, h, rng, kinds=("uniform", "random")):
        self.h, self.us, self.used = h, [], set()
        for what, info, r in rng.log:
            h.fact(what in kinds, f"no draws of another kind than {kinds}: {what}")
            if what in ("uniform", "random"):
                self.us += flat(h, info["u"] if what == "uniform" else r)
            elif what in kinds:
                self.us += flat(h, info["z"] if what == "normal" else r)   # standard normals

    def take(self, x, fn):
        """the unused draw that x is made of; fn(draw) is what x should be (used for replays)"""
        from symxp.scalar import S
        h = self.h
        best = None
        for q, u in enumerate(self.us):
            if q in self.used:
                continue
            if h.sym:
                a = x.a.reshape(-1)[0] if hasattr(x, "a") else x
                b = u.a.reshape(-1)[0] if hasattr(u, "a") else u
                if isinstance(a, S) and isinstance(b, S) and b.vars() <= a.vars():
                    best = (q, 0)
                    break
            else:
                d = abs(float(fn(u)) - float(x))
                if best is None or not d >= best[1]:
                    best = (q, d)
        if h.sym and best is None:
            # the result does not mention its draw (a constant on this path): any unused draw that explains it
            for q, u in enumerate(self.us):
                if q not in self.used and not h.branch(fn(u) != x):
                    best = (q, 0)
                    break
        h.fact(best is not None, "every result has a draw of its own")
        if best is None:
            return None
        self.used.add(best[0])
        return self.us[best[0]]

    def all_used(self, label="every draw is used once"):
        self.h.same(len(self.used), len(self.us), label)
