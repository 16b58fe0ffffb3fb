"""Harness API, path exploration, claim discharge and concrete replay."""
from __future__ import annotations

import hashlib
import json
import math as _math
import os
import random as _random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from . import scalar as sc
from .array import A, NS, Sc, elem, raw, wrap, F64, I64, C128, BOOL, _obj, _castarr, _frompy
from .patch import Patcher
from .scalar import S, SB, SC, Budget, PathEnd, Unsupported, num

TOL_R, TOL_A = 1e-7, 1e-8       # concrete replays
ZTOL = Fraction(1, 10 ** 6)     # solver-side slack when an exact identity is not provable


class Reject(BaseException):
    """concrete inputs violate an assumption"""


class ExpectedRaise(Exception):
    pass


def _flat(x):
    """(shape, flat list of elements, dtype kind or None)"""
    if isinstance(x, A):
        return x.shape, list(x.a.reshape(-1)), x.dt.kind
    if isinstance(x, np.ndarray):
        return x.shape, [v for v in x.reshape(-1).tolist()], x.dtype.kind
    if isinstance(x, np.generic):
        return (), [x.item()], x.dtype.kind
    if isinstance(x, (list, tuple)):
        parts = [_flat(v) for v in x]
        if not parts:
            return (0,), [], None
        sh = parts[0][0]
        for p in parts:
            if p[0] != sh:
                raise ValueError(f"ragged comparison {p[0]} vs {sh}")
        return (len(parts), *sh), [e for p in parts for e in p[1]], None
    if hasattr(x, "__array__") and not isinstance(x, (S, SB, SC)):
        a = np.asarray(x)
        return a.shape, a.reshape(-1).tolist(), a.dtype.kind
    return (), [x], None


class Base:
    """common part of the symbolic and the concrete harness handle"""
    sym = False

    def __init__(self):
        self.undo = []
        self.reached = 0

    # environment stubs, the same in both modes
    def stub(self, target, name, new):
        old = getattr(target, name)
        self.undo.append((target, name, old))
        setattr(target, name, new)

    def finish(self):
        for t, n, o in reversed(self.undo):
            setattr(t, n, o)
        self.undo = []

    def ne_shape(self, a, b):
        return np.shape(a) != np.shape(b)

    # expected exceptions
    def raises(self, exc, fn, label, match=None):
        try:
            fn()
        except exc as e:
            if match is not None and match not in str(e):
                self.fact(False, label + f": message {e!r}")
                return None
            self.fact(True, label)
            return e
        self.fact(False, label + ": no exception")
        return None

    def reach(self):
        self.reached += 1

    def array(self, x, dtype=None):
        return self.xp.asarray(x, dtype=dtype)

    # elementwise scalar math usable in both modes
    def lst(self, x):
        """nested python list of elements"""
        return x.tolist()

    def eq(self, a, b, label, rtol=None, atol=None):
        try:
            sa, ea, ka = _flat(a)
            sb, eb, kb = _flat(b)
        except ValueError as e:
            self.fact(False, f"{label}: {e}")
            return
        if sa != sb:
            self.fact(False, f"{label}: shape {sa} != {sb}")
            return
        if not ea:
            self.fact(True, label)
        self._eqs(ea, eb, label, rtol, atol)

    def same(self, a, b, label):
        """plain python equality of non-symbolic facts (shapes, lengths, types)"""
        self.fact(bool(a == b), f"{label}: {a!r} vs {b!r}" if not bool(a == b) else label)


class SymH(Base):
    sym = True

    def __init__(self, ctx, ns, opts):
        super().__init__()
        self.ctx = ctx
        self.xp = ns
        self.opts = opts
        self.claims = []      # (label, negation SB|bool, tolerant negation SB|bool|None, relevant)
        self.records = []     # for encoding validation
        self.names = []
        self.ident = []

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        self.names.append(name)
        return self.ctx.S(self.ctx.new_var(name, "real", lo, hi, "input", None, lo_open, hi_open))

    def int(self, name, lo=None, hi=None):
        self.names.append(name)
        return self.ctx.S(self.ctx.new_var(name, "int", lo, hi, "input", None))

    def arr(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, dtype=None, increasing=None, face=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        kind = {None: "f", float: "f", int: "i", complex: "c", bool: "b"}[dtype]
        if increasing is not None:
            # strictly increasing along the last axis; increments in [increasing, hi]
            mn, mx = increasing
            for i in np.ndindex(*shape[:-1]):
                acc = None
                for j in range(shape[-1]):
                    nm = name + "".join(f"_{k}" for k in i) + f"_{j}"
                    if acc is None:
                        acc = self.real(nm, lo, hi, lo_open, hi_open)
                    else:
                        acc = acc + self.real(nm, mn, mx, mn == 0)
                    o[i + (j,)] = acc
            return A(o, F64, face or self.xp)
        for i in np.ndindex(*shape):
            nm = name + "".join(f"_{k}" for k in i)
            if kind == "f":
                e = self.real(nm, lo, hi, lo_open, hi_open)
            elif kind == "i":
                e = self.int(nm, lo, hi)
            elif kind == "b":
                v = self.int(nm, 0, 1)
                e = sc.e_eq(v, 1)
            else:
                e = SC(self.real(nm + "r", lo, hi), self.real(nm + "i", lo, hi))
            if shape:
                o[i] = e
            else:
                o[()] = e
        return A(o, {"f": F64, "i": I64, "c": C128, "b": BOOL}[kind], face or self.xp)

    def const(self, x, dtype=None):
        return self.xp.asarray(np.asarray(x), dtype=dtype)

    def num(self, x):
        """a concrete python number (kept exact)"""
        return num(x)

    def scalar(self, e):
        """numpy-scalar-like value holding e"""
        a, d, _ = raw(e)
        return wrap(a, d, self.xp)

    def pi(self):
        return sc.PI()

    # -- conditions
    def assume(self, c):
        c = _tobool(c)
        self.ctx.assume(c)

    def branch(self, c):
        return bool(_tobool(c))

    def fact(self, ok, label):
        self.claims.append((label, not ok, None))

    def true(self, c, label):
        if isinstance(c, A):
            for e in c.a.reshape(-1):
                self.true(e, label)
            return
        c = sc._bool(c)
        self.claims.append((label, sc.e_not(c), None))

    def le(self, a, b, label, tol=True):
        (sa, ea, _), (sb, eb, _) = _flat(a), _flat(b)
        ea, eb = _bc(sa, ea, sb, eb)
        for x, y in zip(ea, eb):
            if _isnan(x) or _isnan(y):
                self.claims.append((label + ": nan", True, None))
                continue
            neg = sc.e_lt(y, x)
            tn = None
            if isinstance(neg, SB) and tol:
                tn = sc.e_lt(y + ZTOL * (1 + _absbound(y)), x)
            self.claims.append((label, neg, tn))

    def lt(self, a, b, label):
        (sa, ea, _), (sb, eb, _) = _flat(a), _flat(b)
        ea, eb = _bc(sa, ea, sb, eb)
        for x, y in zip(ea, eb):
            if _isnan(x) or _isnan(y):
                self.claims.append((label + ": nan", True, None))
                continue
            neg = sc.e_le(y, x)
            tn = None
            if isinstance(neg, SB):
                tn = sc.e_lt(y + ZTOL, x)
            self.claims.append((label, neg, tn))

    def _eqs(self, ea, eb, label, rtol, atol):
        if len(self.records) < 4000:
            self.records.append((label, list(ea)))
        for i, (x, y) in enumerate(zip(ea, eb)):
            self._eq1(x, y, label)

    def _eq1(self, x, y, label):
        if isinstance(x, (SB, bool, np.bool_)) or isinstance(y, (SB, bool, np.bool_)):
            neg = sc.e_xor(sc._bool(x), sc._bool(y))
            self.claims.append((label, neg, None))
            return
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            self.claims.append((label, x != y, None))
            return
        x, y = num(x), num(y)
        if isinstance(x, SC) or isinstance(y, SC):
            (a, b), (c, d) = sc.reim(x), sc.reim(y)
            self._eq1(a, c, label)
            self._eq1(b, d, label)
            return
        if isinstance(x, float) or isinstance(y, float):
            ok = isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y))
            self.claims.append((label + f": {_short(x)} vs {_short(y)}" if not ok else label, not ok, None))
            return
        e = sc.e_eq(x, y)
        tn = None
        if isinstance(e, SB):
            d = x - y
            bnd = ZTOL * (1 + _absbound(y))
            tn = sc.e_or(sc.e_lt(bnd, d), sc.e_lt(d, -bnd))
        elif e is False and not isinstance(x, S) and not isinstance(y, S):
            # both constant: allow decimal rounding of literals
            if abs(x - y) <= Fraction(1, 10 ** 9) * (1 + abs(y)):
                e = True
        self.claims.append((label, sc.e_not(e), tn))
        if isinstance(e, bool) and e and isinstance(x, S) and isinstance(y, S):
            self.crosscheck(x, y)

    def crosscheck(self, x, y):
        """identities closed by normalisation are handed to the solver as they are"""
        sc.STATS.normal_form += 1
        if len(self.ident) < 400:
            self.ident.append((x, y))

    # -- randomness
    def rng(self, name="rng", **k):
        return FakeRNG(self, name, **k)


def _bc(sa, ea, sb, eb):
    if sa == sb:
        return ea, eb
    sh = np.broadcast_shapes(sa, sb)
    oa, ob = np.empty(len(ea), dtype=object), np.empty(len(eb), dtype=object)
    oa[:] = ea
    ob[:] = eb
    return (list(np.broadcast_to(oa.reshape(sa), sh).reshape(-1)), list(np.broadcast_to(ob.reshape(sb), sh).reshape(-1)))


def _short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."


def _isnan(x):
    return isinstance(x, float) and x != x


def _absbound(y):
    """a cheap bound that scales with y when y is a number"""
    if isinstance(y, (int, Fraction)):
        return abs(Fraction(y))
    return 0


def _tobool(c):
    if isinstance(c, A):
        c = c.ns.all(c)
        c = elem(c)
    return sc._bool(c)


class ConH(Base):
    """concrete mode: real numpy, values from an environment"""
    xp = np

    def __init__(self, env, seed=0, spec=None, scale=None, names=None):
        super().__init__()
        self.env = dict(env)
        self.seed = seed
        self.used = {}
        self.fails = []
        self.nclaims = 0
        self.records = []
        self.names = []

    def _value(self, name, lo, hi, sort, lo_open=False, hi_open=False):
        if name in self.env:
            v = self.env[name]
            v = int(round(v)) if sort == "int" else float(v)
        else:
            v = sample(_random.Random(f"{self.seed}/{name}"), lo, hi, sort)
        if lo is not None:
            if v < lo:
                v = lo if sort == "int" else float(lo)
            if lo_open and v <= lo:
                v = float(lo) + 1e-9 * max(1.0, abs(float(lo)))
        if hi is not None:
            if v > hi:
                v = hi if sort == "int" else float(hi)
            if hi_open and v >= hi:
                v = float(np.nextafter(float(hi), -np.inf))
        self.used[name] = v
        self.names.append(name)
        return int(v) if sort == "int" else float(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self._value(name, lo, hi, "real", lo_open, hi_open)

    def int(self, name, lo=None, hi=None):
        return self._value(name, lo, hi, "int")

    def arr(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, dtype=None, increasing=None, face=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        kind = {None: "f", float: "f", int: "i", complex: "c", bool: "b"}[dtype]
        o = np.empty(shape, dtype={"f": float, "i": np.int64, "c": complex, "b": bool}[kind])
        if increasing is not None:
            mn, mx = increasing
            for i in np.ndindex(*shape[:-1]):
                acc = None
                for j in range(shape[-1]):
                    nm = name + "".join(f"_{k}" for k in i) + f"_{j}"
                    if acc is None:
                        acc = self.real(nm, lo, hi, lo_open, hi_open)
                    else:
                        acc = acc + self.real(nm, mn, mx, mn == 0)
                    o[i + (j,)] = acc
            return o
        for i in np.ndindex(*shape):
            nm = name + "".join(f"_{k}" for k in i)
            if kind == "f":
                o[i] = self.real(nm, lo, hi, lo_open, hi_open)
            elif kind == "i":
                o[i] = self.int(nm, lo, hi)
            elif kind == "b":
                o[i] = self.int(nm, 0, 1) == 1
            else:
                o[i] = complex(self.real(nm + "r", lo, hi), self.real(nm + "i", lo, hi))
        return o

    def const(self, x, dtype=None):
        return np.asarray(x, dtype=dtype)

    def num(self, x):
        return float(x) if isinstance(x, Fraction) else x

    def scalar(self, e):
        return np.float64(e) if not isinstance(e, (bool, int)) else np.asarray(e)[()]

    def pi(self):
        return _math.pi

    def assume(self, c):
        if not bool(np.all(c)):
            raise Reject()

    def branch(self, c):
        return bool(np.all(c))

    def fact(self, ok, label):
        self.nclaims += 1
        if not ok:
            self.fails.append(label)

    def true(self, c, label):
        self.nclaims += 1
        if not bool(np.all(c)):
            self.fails.append(label)

    def le(self, a, b, label, tol=True):
        self.nclaims += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        t = (TOL_A + TOL_R * np.maximum(abs(a), abs(b))) if tol else 0.0
        ok = (a <= b + t) | ((a == b))
        if not bool(np.all(ok)):
            self.fails.append(f"{label}: {_pick(a, ok)} > {_pick(b, ok)}")

    def lt(self, a, b, label):
        self.nclaims += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a < b + TOL_A * (abs(b) + 1)
        if not bool(np.all(ok)):
            self.fails.append(f"{label}: {_pick(a, ok)} >= {_pick(b, ok)}")

    def _eqs(self, ea, eb, label, rtol, atol):
        if len(self.records) < 4000:
            self.records.append((label, list(ea)))
        scale = 0.0
        for y in eb:
            try:
                v = abs(y)
                if v == v and v != np.inf and v > scale:
                    scale = float(v)
            except Exception:
                pass
        if scale == 0.0:
            scale = 1.0
        for i, (x, y) in enumerate(zip(ea, eb)):
            self.nclaims += 1
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                ok = x == y
            else:
                try:
                    ok = bool(x == y) or (x != x and y != y)
                    if not ok and not isinstance(x, bool) and not isinstance(y, bool):
                        ok = bool(abs(x - y) <= (atol or TOL_A) * min(1.0, max(scale, 1e-30) * 1e3) + (rtol or TOL_R) * max(abs(y), 1e-3 * scale))
                except TypeError:
                    ok = False
            if not ok:
                self.fails.append(f"{label}[{i}]: got {x!r}, expected {y!r}")
                break

    def rng(self, name="rng", **k):
        return FakeRNG(self, name, **k)


class ConFace(ConH):
    """concrete mode with the arrays of another library"""

    def __init__(self, name, env, seed=0):
        super().__init__(env, seed)
        self.xp = real_library(name)

    def arr(self, *a, **k):
        return self.xp.asarray(super().arr(*a, **k), copy=True)

    def const(self, x, dtype=None):
        return self.xp.asarray(np.asarray(x, dtype=dtype), copy=True)

    def branch(self, c):
        return bool(np.all(np.asarray(c)))

    def assume(self, c):
        super().assume(np.asarray(c))

    def true(self, c, label):
        super().true(np.asarray(c), label)


def real_library(name):
    if name == "jax.numpy":
        import jax
        jax.config.update("jax_enable_x64", True)
        import jax.numpy
        return jax.numpy
    if name == "symxp_strict":
        import array_api_strict
        return array_api_strict
    return np


def _pick(a, ok):
    a, ok = np.broadcast_arrays(a, ok)
    return a[~ok].reshape(-1)[0]


def sample(r, lo, hi, sort):
    lo = None if lo is None else float(lo)
    hi = None if hi is None else float(hi)
    if sort == "int":
        a = int(lo) if lo is not None else -5
        b = int(hi) if hi is not None else max(a + 10, 5)
        b = min(b, a + 60) if r.random() < 0.7 else b
        return r.randint(a, b)
    if lo is None and hi is None:
        return round(r.uniform(-3, 3), r.choice([0, 1, 2, 6]))
    if lo is None:
        return hi - abs(r.expovariate(0.7))
    if hi is None:
        return lo + r.expovariate(0.7)
    u = r.random()
    if hi - lo > 1e4 and u < 0.7:
        return lo + r.expovariate(1.0)
    if u < 0.1:
        return lo
    if u < 0.2:
        return hi
    return lo + (hi - lo) * r.random()


# -------------------------------------------------------------------- RNG stub

class FakeRNG:
    """adversarial generator: every draw is an arbitrary value of the
    documented range; the same class serves symbolic runs and replays"""

    def __init__(self, h, name="rng", normal_range=5, poisson_max=2, record=None, log=None):
        self.h = h
        self.name = name
        self.n = 0
        self.calls = []
        self.normal_range = normal_range
        self.poisson_max = poisson_max
        self.log = log if log is not None else self.calls

    def _name(self, kind):
        self.n += 1
        return f"{self.name}.{kind}{self.n}"

    def _shape(self, size, *args):
        if size is None:
            shp = np.broadcast_shapes(*[np.shape(a.a) if isinstance(a, A) else np.shape(a) if not isinstance(a, (S, Fraction)) else () for a in args]) if args else ()
            return shp, (shp == ())
        if isinstance(size, (tuple, list)):
            return tuple(_idx(s) for s in size), False
        if isinstance(size, (A, np.ndarray)) and np.ndim(size.a if isinstance(size, A) else size):
            return tuple(_idx(s) for s in size), False
        return (_idx(size),), False

    def _draw(self, kind, shp, scalar, lo, hi, lo_open=False, hi_open=False, dtype=None):
        nm = self._name(kind)
        if scalar:
            v = self.h.int(nm, lo, hi) if dtype is int else self.h.real(nm, lo, hi, lo_open, hi_open)
            return v
        return self.h.arr(nm, shp, lo, hi, lo_open, hi_open, dtype=dtype)

    def standard_normal(self, size=None, dtype=None, out=None):
        shp, s = self._shape(size)
        r = self._draw("normal", shp, s, -self.normal_range, self.normal_range)
        self.log.append(("standard_normal", dict(size=size), r))
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        shp, s = self._shape(size, loc, scale)
        self.h.true(_all(self.h, _ge0(self.h, scale)), "rng contract: normal scale >= 0")
        z = self._draw("normal", shp, s, -self.normal_range, self.normal_range)
        r = loc + scale * z
        self.log.append(("normal", dict(loc=loc, scale=scale, size=size, z=z), r))
        return r

    def random(self, size=None, dtype=None, out=None):
        shp, s = self._shape(size)
        r = self._draw("random", shp, s, 0, 1, False, True)
        self.log.append(("random", dict(size=size), r))
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        shp, s = self._shape(size, low, high)
        u = self._draw("random", shp, s, 0, 1, False, True)
        r = low + (high - low) * u
        self.log.append(("uniform", dict(low=low, high=high, size=size, u=u), r))
        return r

    def poisson(self, lam=1.0, size=None):
        shp, s = self._shape(size, lam)
        self.h.true(_all(self.h, _ge0(self.h, lam)), "rng contract: poisson rate >= 0")
        r = self._draw("poisson", shp, s, 0, self.poisson_max, dtype=int)
        # a zero rate only ever yields zero
        if self.h.sym:
            lr = np.broadcast_to(raw(lam)[0], shp)
            rr = raw(r)[0]
            for i in np.ndindex(*shp):
                z = sc.e_eq(lr[i], 0)
                c = sc.e_or(sc.e_not(z), sc.e_eq(rr[i], 0))
                if c is not True:
                    self.h.ctx.assume(c if isinstance(c, SB) else c)
        else:
            z = np.broadcast_to(np.asarray(lam) == 0, shp)
            r = np.where(z, 0, r) if not s else (0 if z else r)
            if isinstance(r, np.ndarray) and r.ndim == 0:
                r = r[()]
        self.log.append(("poisson", dict(lam=lam, size=size), r))
        return r

    def multinomial(self, n, pvals, size=None):
        h = self.h
        if size is not None:
            raise Unsupported("multinomial size")
        ps = pvals.a if isinstance(pvals, A) else np.asarray(pvals)
        k = ps.shape[-1]
        h.true(_all(h, _ge0(h, pvals)), "rng contract: multinomial probabilities >= 0")
        tot = h.xp.sum(pvals, axis=-1)
        h.le(tot, 1, "rng contract: multinomial probabilities sum to at most one")
        narr = raw(n)[0] if h.sym else np.asarray(n)
        shp = np.broadcast_shapes(narr.shape, ps.shape[:-1])
        nb = np.broadcast_to(narr, shp)
        nm = self._name("multinomial")
        o = np.empty((*shp, k), dtype=object if h.sym else np.int64)
        pb = np.broadcast_to(ps, (*shp, k))
        for i in np.ndindex(*shp):
            left = nb[i]
            top = _idx(left) if not isinstance(left, S) else None
            for j in range(k - 1):
                v = h.int(f"{nm}" + "".join(f"_{q}" for q in i) + f"_{j}", 0, top)
                if h.sym:
                    h.ctx.assume(sc.e_le(v, left))
                    z = sc.e_eq(pb[i][j], 0)
                    h.ctx.assume(sc.e_or(sc.e_not(z), sc.e_eq(v, 0)))
                else:
                    v = min(v, int(left))
                    if pb[i][j] == 0:
                        v = 0
                o[i + (j,)] = v
                left = left - v
            o[i + (k - 1,)] = left
        r = A(o, I64, h.xp) if h.sym else o
        self.log.append(("multinomial", dict(n=n, pvals=pvals, size=size), r))
        return r

    def integers(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        shp, s = self._shape(size, low, high)
        r = self._draw("integers", shp, s, _idx(low), _idx(high) - 1, dtype=int)
        self.log.append(("integers", dict(low=low, high=high, size=size), r))
        return r

    def spawn(self, n):
        return [FakeRNG(self.h, f"{self.name}.s{i}", self.normal_range, self.poisson_max) for i in range(n)]


def _idx(x):
    import operator
    return operator.index(x)


def _ge0(h, x):
    if h.sym:
        a = raw(x)[0]
        return A(_frompy(lambda e: sc.e_le(0, e), 1)(a), BOOL, h.xp)
    return np.asarray(x) >= 0


def _all(h, x):
    return h.xp.all(x)


# -------------------------------------------------------------------- running

class Case:
    def __init__(self, name, fn, params=None, timeout=60, max_paths=400, opts=None, tiers=("quick", "thorough"), face=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.timeout, self.max_paths, self.opts, self.tiers = timeout, max_paths, opts or {}, tiers
        self.face = face


def concrete_run(case, env, seed=0):
    """run the harness on the unpatched code; (status, handle)"""
    import warnings
    h = ConH(env, seed) if not case.face else ConFace(case.face[0], env, seed)
    prev = sc.CUR
    sc.set_ctx(None)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            case.fn(h, **case.params)
    except Reject:
        return "reject", h
    except Unsupported as e:
        return "unsupported", h
    except Exception as e:
        if _only_glass_error(e):
            h.fails.append(f"unexpected {type(e).__name__}: {e}")
            h.tb = traceback.format_exc()
        elif not h.fails:
            # (after a failed claim, e.g. about a shape, the rest of the harness may be unable to go on)
            h.herr = traceback.format_exc()
            return "harness-error", h
    finally:
        h.finish()
        sc.set_ctx(prev)
    return ("fail" if h.fails else "ok"), h


def _only_glass_error(e):
    """exception passed through glass code (not only the harness)"""
    tb = e.__traceback__
    while tb is not None:
        if "/glass/" in tb.tb_frame.f_code.co_filename and "/verif/" not in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def run_case(case, tier="quick", seed=1):
    """explore all paths of one case; returns a result dict"""
    t0 = time.time()
    sc.STATS.__init__()
    sc.QCACHE.clear()
    res = dict(case=case.name, paths=0, pruned=0, claims=0, trivial=0, discharged=0, normal_form=0, violations=[], inconclusive=[],
               witness=False, replays=0, tolerant=0, validated=0, unknown_branches=0, stats={}, samples=[], fork_unknown=0)
    deadline = t0 + case.timeout * (6 if tier == "thorough" else 1)
    work = [()]
    firstpath = True
    try:
        while work:
            prefix = work.pop()
            if res["paths"] + res["pruned"] >= case.max_paths * (10 if tier == "thorough" else 1) or time.time() > deadline:
                raise Budget(f"{len(work) + 1} paths left")
            opts = dict(case.opts)
            opts["deadline"] = deadline
            ctx = sc.Ctx(prefix, opts)
            sc.set_ctx(ctx)
            name, scalars = case.face or ("numpy", True)
            ns = NS(name, scalars)
            if name != "numpy":
                ns._numpy_face = NS("numpy", True)
            h = SymH(ctx, ns, opts)
            exc = None
            status = "ok"
            try:
                import warnings
                with Patcher(ns), warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    case.fn(h, **case.params)
            except PathEnd:
                status = "pruned"
            except (Budget, Unsupported):
                raise
            except P.TooBig as e:
                raise Unsupported(f"polynomial too large: {e}")
            except RecursionError as e:
                raise Unsupported("recursion")
            except Exception as e:
                exc = e
                res.setdefault("tb", traceback.format_exc())
            finally:
                h.finish()
            work.extend(ctx.alternatives)
            res["unknown_branches"] += ctx.unknown_branches
            if status == "pruned":
                res["pruned"] += 1
                continue
            if ctx.unknown_branches:
                # some branch feasibility was not decided: the path may not exist
                if ctx.feasible_all(20000)[0] == "unsat":
                    res["pruned"] += 1
                    continue
            res["paths"] += 1
            _check_path(case, ctx, h, exc, res, firstpath, seed)
            firstpath = False
            if len(res["violations"]) >= 3:
                break
    except Budget as e:
        res["inconclusive"].append(f"budget: {e}")
    except Unsupported as e:
        res["inconclusive"].append(f"unsupported: {e}")
        res["tb2"] = traceback.format_exc()
    except z3.Z3Exception as e:
        res["inconclusive"].append(f"z3: {e}")
    except Exception as e:
        res["inconclusive"].append(f"engine error: {type(e).__name__}: {e}")
        res["tb3"] = traceback.format_exc()
    finally:
        if sc.CUR is not None:
            sc.set_ctx(None)
    if res["inconclusive"] and not res["violations"]:
        # the solver gave no verdict: look for a concrete counterexample
        _search(case, res, seed, budget=6.0)
    if res["paths"] == 0 and not res["inconclusive"]:
        res["inconclusive"].append("vacuous: no path completes")
    if not res["witness"] and not res["violations"] and res["paths"]:
        _search(case, res, seed, budget=3.0, need_witness=True)
        if not res["witness"] and not res["violations"]:
            res["inconclusive"].append("no concrete witness satisfies the assumptions")
    res["stats"] = sc.STATS.as_dict()
    res["wall"] = time.time() - t0
    return res


def _model_env(ctx, model):
    env = {}
    for v in ctx.vars:
        if v.kind in ("input",):
            z = model.eval(v.z, model_completion=True)
            try:
                env[v.name] = float(sc._zval(z)) if v.sort != "int" else int(sc._zval(z))
            except Exception:
                pass
    return env


def _report(case, res, env, h, label, how):
    res["violations"].append(dict(case=case.name, label=label, fails=h.fails[:5], env=h.used, how=how, seed=h.seed,
                                  tb=getattr(h, "tb", None)))


def _try(case, res, env, seed, label, how):
    status, h = concrete_run(case, env, seed)
    res["replays"] += 1
    if status in ("ok", "fail"):
        res["witness"] = True
    if status == "fail" and case.face:
        # (compiled libraries: believe only what can be repeated)
        status, h = concrete_run(case, env, seed)
    if status == "fail":
        _report(case, res, env, h, label, how)
        return True
    if status == "harness-error":
        res["inconclusive"].append("harness error in replay: " + h.herr.strip().splitlines()[-1])
        res["tb4"] = h.herr
    return False


def _search(case, res, seed, budget, need_witness=False, base=None, label="search"):
    t0 = time.time()
    i = 0
    rej = 0
    while time.time() - t0 < budget and i < 400:
        i += 1
        env = {}
        if base is not None:
            r = _random.Random(f"{seed}/{i}")
            for k, v in base.items():
                if r.random() < 0.5:
                    env[k] = v if isinstance(v, int) else v + (r.choice([0, 1e-3, -1e-3, 0.1, -0.1, 1, -1]) * (abs(v) + 0.1))
        n = len(res["inconclusive"])
        if _try(case, res, env, seed * 1000 + i, label, "guided search"):
            return True
        if len(res["inconclusive"]) > n:
            return False
        if need_witness and res["witness"]:
            return False
    return False


def _check_path(case, ctx, h, exc, res, first, seed):
    if exc is not None:
        if not _only_glass_error(exc):
            if not any(neg is True for _, neg, _ in h.claims):
                raise exc
            exc = None
    if exc is not None:
        # glass raised on inputs where it should not: confirm concretely
        label = f"unexpected {type(exc).__name__}: {exc}"
        r, model = ctx.feasible_all(20000)
        if r == "unsat":
            res["pruned"] += 1
            res["paths"] -= 1
            return
        env = _model_env(ctx, model) if model is not None else {}
        if _try(case, res, env, seed, label, "solver model of the raising path"):
            return
        if _search(case, res, seed, 5.0, base=env, label=label):
            return
        res["inconclusive"].append(f"{label} not reproduced concretely")
        return
    if first:
        r, model = ctx.feasible_all(10000)
        if r == "unsat":
            res["pruned"] += 1
            res["paths"] -= 1
            return
        if model is not None:
            env = _model_env(ctx, model)
            status, hc = concrete_run(case, env, seed)
            res["replays"] += 1
            if status in ("ok", "fail"):
                res["witness"] = True
                res["samples"].append({k: env[k] for k in list(env)[:6]})
                _validate(ctx, h, hc, env, res)
            if status == "fail" and case.face:
                status, hc = concrete_run(case, env, seed)
            if status == "fail":
                _report(case, res, env, hc, hc.fails[0], "replay of the path witness")
                return
            if status == "harness-error":
                res["inconclusive"].append("harness error in replay: " + hc.herr.strip().splitlines()[-1])
                res["tb4"] = hc.herr
                return
    if not h.claims:
        res["inconclusive"].append("vacuous: no claim reached")
        return
    todo = []
    for label, neg, tn in h.claims:
        res["claims"] += 1
        if neg is False:
            res["trivial"] += 1
            continue
        todo.append((label, neg, tn))
    if h.ident:
        # identities closed by the normaliser: the solver refutes their joint negation
        terms, vs = [], set()
        for x, y in h.ident:
            nx, dx = sc._zfrac(ctx, x)
            ny, dy = sc._zfrac(ctx, y)
            l = nx if dy is None else nx * dy
            r_ = ny if dx is None else ny * dx
            terms.append(l != r_)
            vs |= lift_vars(x) | lift_vars(y)
        v = sc.solve([z3.Or(terms)], 3000)[0]
        res["confirmed"] = res.get("confirmed", 0) + (len(terms) if v == "unsat" else 0)
        if v == "sat":
            # the normaliser and the solver disagree: only possible through reduction rules of roots and angles
            v = ctx.query([z3.Or(terms)], vs, 5000)[0]
            if v == "sat":
                res["inconclusive"].append("normal form and solver disagree")
    if not todo:
        return
    # identical negations only once
    seen = set()
    bad = 0
    for label, neg, tn in todo:
        key = neg.key if isinstance(neg, SB) else True
        if (key, label if key is True else None) in seen:
            res["discharged"] += 1
            continue
        seen.add((key, label if key is True else None))
        if isinstance(neg, SB) and ctx.decided.get(neg.key) is False:
            res["discharged"] += 1
            continue
        if neg is True:
            verdict = "sat"
        else:
            verdict = ctx.query([neg.z], neg.vs, case.opts.get("claim_ms", 8000), use_cvc5=True)[0]
        if verdict == "unsat":
            res["discharged"] += 1
            if case.opts.get("lemmas"):
                # a proved claim may be used for the following ones
                ctx.pc.append((neg.vs, z3.Not(neg.z)))
            continue
        target = neg
        if isinstance(tn, (SB, bool)) and neg is not True:
            v2 = "unsat" if tn is False else "sat" if tn is True else ctx.query([tn.z], tn.vs, case.opts.get("claim_ms", 8000), use_cvc5=True)[0]
            if v2 == "unsat":
                res["tolerant"] += 1
                res["discharged"] += 1
                continue
            target = tn
        # candidate counterexample
        goals = [target.z] if isinstance(target, SB) else []
        vs = set(range(len(ctx.vars)))
        r, model = ctx.query(goals, vs, 15000, model=True)
        if r == "unsat":
            res["discharged"] += 1
            continue
        env = _model_env(ctx, model) if model is not None else {}
        if _try(case, res, env, seed, label, "solver model"):
            return
        # other models: block the first by asking for larger deviation or different values
        if _search(case, res, seed, 4.0 if bad else 8.0, base=env, label=label):
            return
        bad += 1
        res["inconclusive"].append(f"claim '{label}' not proved ({verdict}) and no counterexample reproduced")
        if bad >= 2:
            return


def lift_vars(x):
    return x.vars() if isinstance(x, S) else set()


def _validate(ctx, h, hc, env, res):
    """outputs of the encoding evaluated at the witness against the real run"""
    e2 = dict(env)
    n = 0
    # atoms (trigonometric functions etc.) of the model may differ from the functions: the witness may lie on another path
    for b, want in ctx.conds:
        try:
            if b.key[0] in ("lt", "le", "eq"):
                v = sc.evalp(b.p, e2, ctx)
                if abs(v) < 1e-9:
                    continue
                if (v < 0 and b.key[0] != "eq") != want:
                    return
            elif bool(sc.evalf(b, e2, ctx)) != want:
                return
        except (KeyError, OverflowError, ZeroDivisionError, ValueError):
            pass
    for (la, ea), (lb, eb) in zip(h.records, hc.records):
        if la != lb or len(ea) != len(eb):
            res["inconclusive"].append(f"encoding mismatch: records {la} vs {lb}")
            return
        for x, y in zip(ea, eb):
            if n > 400:
                break
            if not isinstance(x, (S, SC, Fraction, int, float)) or isinstance(y, (str, type(None))):
                continue
            try:
                v = sc.evalf(x, e2, ctx)
            except (KeyError, OverflowError, ZeroDivisionError, ValueError):
                continue
            n += 1
            if v != v and y != y:
                continue
            if abs(v - y) > 1e-6 * (1 + abs(y)) :
                res.setdefault("mismatch", []).append(f"{la}: encoded {v!r}, real {y!r}")
    res["validated"] += n
    if res.get("mismatch") and not hc.fails:
        res["inconclusive"].append("encoding mismatch: " + res["mismatch"][0])
