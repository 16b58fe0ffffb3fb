"""Make glass run on symbolic values: module globals that hold numpy, math,
array_api_compat, float or int are replaced for the duration of a symbolic run;
the glass code itself is the unmodified source of /repo."""
from __future__ import annotations

import builtins
import contextlib
import functools
import math as _math
import sys
from fractions import Fraction

import numpy as _np
import array_api_compat as _aac

from . import scalar as sc
from .array import A, NS, Sc, elem, wrap, raw
from .scalar import S, SB, SC, Unsupported, num

SYMT = (S, SB, SC, Fraction)


def _sym(x):
    return isinstance(x, (S, SB, SC, Fraction, A))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, float):
            return True
        if isinstance(x, Sc):
            return x.dt.kind == "f"
        if isinstance(x, Fraction):
            return True
        return isinstance(x, S) and not x.is_int()

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is cls

    def __call__(cls, x=0.0):
        if isinstance(x, A):
            if x.dt.kind == "c":
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            x = elem(x)
        if isinstance(x, SB):
            return Fraction(int(bool(x)))
        if isinstance(x, SC):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, S):
            return sc.S(x.n, x.d) if not x.is_int() else _real_of(x)
        if isinstance(x, Fraction):
            return x
        if isinstance(x, float):
            return float(x)
        return float(x)


def _real_of(x):
    return x


class FloatShim(metaclass=_FloatMeta):
    _symxp_np = "float64"
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, int):
            return True
        if isinstance(x, A):
            return False
        return isinstance(x, S) and x.is_int()

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is cls

    def __call__(cls, x=0, *a):
        if a:
            return int(x, *a)
        if isinstance(x, A):
            x = elem(x)
        if isinstance(x, SB):
            return int(bool(x))
        if isinstance(x, SC):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        if isinstance(x, (S, Fraction)):
            return sc.e_trunc(x)
        return int(x)


class IntShim(metaclass=_IntMeta):
    _symxp_np = "int64"


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SC)) or (isinstance(x, Sc) and x.dt.kind == "c")

    def __call__(cls, re=0, im=0):
        re = elem(re) if isinstance(re, A) else re
        im = elem(im) if isinstance(im, A) else im
        if _sym(re) or _sym(im):
            return sc.as_sc(num(re)) + sc.SC(Fraction(0), Fraction(1)) * num(im)
        return complex(re, im)


class ComplexShim(metaclass=_ComplexMeta):
    _symxp_np = "complex128"


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SB))

    def __call__(cls, x=False):
        if isinstance(x, A):
            return bool(x)
        return bool(x)


class BoolShim(metaclass=_BoolMeta):
    _symxp_np = "bool"


class MathShim:
    inf, nan = float("inf"), float("nan")
    tau_ = None
    __name__ = "math"

    @property
    def pi(self):
        return sc.PI()

    @property
    def tau(self):
        return 2 * sc.PI()

    @property
    def e(self):
        return sc.e_exp(Fraction(1))

    @staticmethod
    def _v(x):
        if isinstance(x, A):
            x = elem(x)
        if isinstance(x, SB):
            x = int(bool(x))
        if isinstance(x, (SC, complex)):
            raise TypeError("must be real number, not complex")
        if isinstance(x, float) and not isinstance(x, _np.generic):
            return num(x)
        return num(x)

    def _domain(self, r, *xs):
        if isinstance(r, float) and r != r and not any(isinstance(x, float) for x in xs):
            raise ValueError("math domain error")
        return r

    def sqrt(self, x):
        v = self._v(x)
        ctx = sc.cur()
        if ctx.opts.get("fp_sqrt") and isinstance(v, S):
            return fp_sqrt(v, ctx)
        return self._domain(sc.e_sqrt(v), v)

    def log(self, x, base=None):
        v = self._v(x)
        if bool(sc.e_le(v, 0)):
            raise ValueError("math domain error")
        r = sc.e_log(v)
        return r if base is None else sc.e_div(r, sc.e_log(self._v(base)))

    def log2(self, x): return self.log(x, 2)
    def log10(self, x): return self.log(x, 10)

    def floor(self, x):
        v = self._v(x)
        if isinstance(v, float):
            return _math.floor(v)
        return sc.e_floor(v)

    def ceil(self, x):
        v = self._v(x)
        if isinstance(v, float):
            return _math.ceil(v)
        return sc.e_ceil(v)

    def trunc(self, x): return sc.e_trunc(self._v(x))
    def isnan(self, x): v = self._v(x); return isinstance(v, float) and v != v
    def isinf(self, x): v = self._v(x); return isinstance(v, float) and v == v
    def isfinite(self, x): return not isinstance(self._v(x), float)

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def fsum(self, xs):
        r = Fraction(0)
        for x in xs:
            r = r + x
        return r

    def hypot(self, *xs):
        t = Fraction(0)
        for x in xs:
            v = self._v(x)
            t = t + v * v
        return sc.e_sqrt(t)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = self._v(a), self._v(b)
        d = sc.e_abs(a - b)
        return sc.e_le(d, sc.e_max(num(rel_tol) * sc.e_max(sc.e_abs(a), sc.e_abs(b)), num(abs_tol)))

    def pow(self, a, b): return sc.e_pow(self._v(a), self._v(b))
    def copysign(self, a, b): a, b = self._v(a), self._v(b); return -sc.e_abs(a) if bool(sc.e_lt(b, 0)) else sc.e_abs(a)
    def atan2(self, y, x): return sc.e_atan2(self._v(y), self._v(x))
    def degrees(self, x): return sc.e_div(self._v(x) * 180, sc.PI())
    def radians(self, x): return self._v(x) * sc.PI() / 180
    def isqrt(self, n):
        n = self._v(n)
        if not isinstance(n, S):
            return _math.isqrt(int(n))
        return sc.e_floor(sc.e_sqrt(n))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = {"sin": sc.e_sin, "cos": sc.e_cos, "tan": sc.e_tan, "asin": sc.e_asin, "acos": sc.e_acos, "atan": sc.e_atan,
             "exp": sc.e_exp, "expm1": sc.e_expm1, "log1p": sc.e_log1p, "tanh": sc.e_tanh, "erf": sc.e_erf,
             "fabs": sc.e_abs, "erfc": lambda v: 1 - sc.e_erf(v)}.get(name)
        if f is not None:
            return lambda x: f(self._v(x))
        if name in ("comb", "perm", "factorial", "gcd", "lcm"):
            return getattr(_math, name)
        if not hasattr(_math, name):
            raise AttributeError(name)
        raise Unsupported(f"math.{name}")


def fp_sqrt(x, ctx):
    """double-precision square root y of x, where 4x is an integer below 2**50.
    With k = floor(sqrt(4x)): rounding is monotone and exact on exact squares, and the distance of a
    non-square from the neighbouring squares exceeds the rounding error, so k <= 2y < k + 1 and
    2y = k exactly if 4x = k**2; moreover y**2 = x up to a relative error of 2**-52."""
    import z3
    P = sc.P
    if not isinstance(x, S) or x.d:
        raise Unsupported("fp_sqrt")
    y = ctx.fresh("fpsqrt", lo=0, kind="atom", meta=("sqrt", x))
    lo, hi, _, _ = ctx.interval(x.n)
    k = ctx.fresh("fpk", sort="int", lo=0, hi=None if hi is None else _math.isqrt(_math.floor(4 * hi)), kind="atom", meta=("fpk", x))
    ctx.fpk[y.idx] = k
    px = P.variables(x.n)
    X = ctx.z(P.scale(x.n, 4))
    ctx.defs[k.idx].append((frozenset({k.idx} | px), z3.And(k.z * k.z <= X, X < (k.z + 1) * (k.z + 1))))
    kr = z3.ToReal(k.z)
    ctx.defs[y.idx].append((frozenset({y.idx, k.idx} | px), z3.And(
        kr <= 2 * y.z, 2 * y.z < kr + 1, (2 * y.z == kr) == (X == k.z * k.z))))
    return ctx.S(y)


class AACShim:
    """array_api_compat with symbolic python scalars treated like floats"""
    __name__ = "array_api_compat"

    def __init__(self, default):
        self._default = default

    def array_namespace(self, *xs, api_version=None, use_compat=None):
        ys = [0.0 if isinstance(x, SYMT) else x for x in xs]
        return _aac.array_namespace(*ys, api_version=api_version, use_compat=use_compat)
    get_namespace = array_namespace

    def is_array_api_obj(self, x):
        return isinstance(x, A) or _aac.is_array_api_obj(x)

    def __getattr__(self, n):
        return getattr(_aac, n)


class Patcher:
    def __init__(self, ns, prefix="glass"):
        self.ns = ns
        self.prefix = prefix
        self.math = MathShim()
        self.aac = AACShim(ns)
        self.saved = []
        face = getattr(ns, "_numpy_face", None) or ns
        self.face = face
        m = {id(_np): face, id(_math): self.math, id(_aac): self.aac}
        for n in dir(_math):
            if n.startswith("_"):
                continue
            try:
                m[id(getattr(_math, n))] = ("m", n)
            except Exception:
                pass
        for n in dir(_aac):
            if n in ("array_namespace", "get_namespace", "is_array_api_obj"):
                m[id(getattr(_aac, n))] = getattr(self.aac, n)
        for n in dir(_np):
            if n.startswith("_"):
                continue
            v = getattr(_np, n)
            if isinstance(v, _np.ufunc) or (callable(v) and not isinstance(v, type)):
                m.setdefault(id(v), ("n", n))
        m.pop(id(float("inf")), None)
        self.map = m

    def _get(self, v):
        r = self.map.get(id(v))
        if r is None or isinstance(v, (bool, int)):
            return None
        if isinstance(r, tuple):
            kind, n = r
            if isinstance(v, float) and n not in ("pi", "e", "tau"):
                return None
            try:
                return getattr(self.math if kind == "m" else self.face, n)
            except Unsupported:
                return None
        return r

    def __enter__(self):
        shims = {"float": FloatShim, "int": IntShim, "complex": ComplexShim, "bool": BoolShim}
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == self.prefix or name.startswith(self.prefix + ".")):
                continue
            if name == "glass.jax":
                continue
            d = mod.__dict__
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                r = self._get(v)
                if r is not None:
                    self.saved.append((d, k, v))
                    d[k] = r
            for k, v in shims.items():
                if k not in d:
                    self.saved.append((d, k, _MISSING))
                    d[k] = v
        real_import = builtins.__import__
        ns, math = self.ns, self.math

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and globals is not None and str(globals.get("__name__", "")).split(".")[0] == "glass":
                if name == "numpy" and not fromlist:
                    return self.np_shim
                if name == "math" and not fromlist:
                    return math
                if name == "numpy":
                    return self.np_shim
                if name == "math":
                    return math
            return real_import(name, globals, locals, fromlist, level)
        self.real_import = real_import
        self.np_shim = getattr(ns, "_numpy_face", None) or ns
        builtins.__import__ = imp
        return self

    def __exit__(self, *a):
        builtins.__import__ = self.real_import
        for d, k, v in reversed(self.saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        self.saved = []
        return False


_MISSING = object()
