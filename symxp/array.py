"""Symbolic arrays: object ndarrays of symbolic scalars with a dtype tag, numpy
view/broadcast/in-place semantics, and a namespace object that stands in for
numpy (or, under another name, for a backend that is not numpy)."""
from __future__ import annotations

import functools
import itertools
import math as _m
import operator as _op
from fractions import Fraction

import numpy as np

from . import scalar as sc
from .scalar import S, SB, SC, Unsupported, num, INF, NAN

I64, F64, C128, BOOL = (np.dtype(t) for t in ("int64", "float64", "complex128", "bool"))
ORDER = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}
KIND = [BOOL, I64, F64, C128]


def kind(dt):
    return ORDER[dt.kind]


def to_dtype(d):
    if d is None:
        return None
    if isinstance(d, type) and getattr(d, "_symxp_np", None) is not None:
        return np.dtype(d._symxp_np)
    r = np.dtype(d)
    if r.kind not in ORDER:
        raise Unsupported(f"dtype {r}")
    return r


def elem_dt(e):
    if isinstance(e, (bool, SB, np.bool_)):
        return BOOL
    if isinstance(e, (int, np.integer)):
        return I64
    if isinstance(e, S):
        return I64 if e.is_int() else F64
    if isinstance(e, (Fraction, float, np.floating)):
        return F64
    if isinstance(e, (SC, complex, np.complexfloating)):
        return C128
    raise Unsupported(f"element of type {type(e)}")


def cast(e, dt):
    """element e as stored in an array of dtype dt (C casting)"""
    k = dt.kind
    if k == "f":
        if isinstance(e, (bool, SB)):
            return Fraction(int(bool(e)))
        if isinstance(e, SC):
            raise TypeError("cannot cast complex to real")
        if isinstance(e, int):
            return Fraction(e)
        return e
    if k in "iu":
        if isinstance(e, bool):
            return int(e)
        if isinstance(e, int):
            return e
        if isinstance(e, SB):
            return int(bool(e))
        if isinstance(e, SC):
            raise TypeError("cannot cast complex to int")
        return sc.e_trunc(e)
    if k == "c":
        return e if isinstance(e, SC) else sc.as_sc(cast(e, F64))
    if k == "b":
        return sc._bool(e)
    raise Unsupported(str(dt))


def _obj(x):
    """object array holding python object(s) x, without treating x as sequence"""
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def _frompy(f, nin):
    u = np.frompyfunc(f, nin, 1)

    def g(*args):
        r = u(*args)
        if not isinstance(r, np.ndarray):
            r = _obj(r)
        elif r.dtype != object:
            r = r.astype(object)
        return r
    return g


def _castarr(a, dt):
    if a.size == 0:
        return a
    return _frompy(lambda e: cast(e, dt), 1)(a)


def is_arr(x):
    return isinstance(x, A)


# ------------------------------------------------------------------ conversion

def raw(x, dtype=None):
    """(object ndarray, dtype, weak) of anything array-like"""
    if isinstance(x, A):
        return x.a, x.dt, False
    if isinstance(x, (S, SB, SC, Fraction)):
        return _obj(x), elem_dt(x), True
    if isinstance(x, (bool, int, float, complex)) and not isinstance(x, np.generic):
        return _obj(num(x)), elem_dt(x), True
    if isinstance(x, np.generic):
        return _obj(num(x.item())), np.dtype(x.dtype), False
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            o = _frompy(num, 1)(x)
            dt = functools.reduce(promote, (elem_dt(e) for e in o.flat), BOOL) if o.size else F64
            return o, dt, False
        o = np.empty(x.shape, dtype=object)
        fl = o.reshape(-1) if o.size else o
        for i, v in enumerate(x.reshape(-1).tolist()):
            fl[i] = num(v)
        return o, x.dtype, False
    if isinstance(x, (list, tuple, range)):
        parts = [raw(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object), F64, False
        shp = parts[0][0].shape
        for p in parts:
            if p[0].shape != shp:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        dt = functools.reduce(promote, (p[1] for p in parts))
        o = np.empty((len(parts), *shp), dtype=object)
        for i, p in enumerate(parts):
            o[i] = p[0][()] if p[0].ndim == 0 else p[0]
        return o, dt, False
    if x is None:
        raise TypeError("None is not an array")
    raise Unsupported(f"cannot make array of {type(x)}")


def promote(a, b):
    if a == b:
        return a
    return np.promote_types(a, b)


def result_dt(*rs):
    """dtype with weak python scalars; rs are (arr, dt, weak)"""
    strong = [r[1] for r in rs if not r[2]]
    weak = [r[1] for r in rs if r[2]]
    if not strong:
        return functools.reduce(promote, weak)
    d = functools.reduce(promote, strong)
    for w in weak:
        if kind(w) > kind(d):
            d = promote(d, w) if not (d.kind == "b") else w
    return d


def wrap(a, dt, ns, scalar=True):
    """result of an operation: 0-d results become scalars on the numpy face"""
    if not isinstance(a, np.ndarray):
        a = _obj(a)
    if a.ndim == 0 and scalar and ns.scalars:
        return Sc(a, dt, ns)
    return A(a, dt, ns)


def elem(x):
    """single element of scalar-like x"""
    if isinstance(x, A):
        if x.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return x.a.reshape(-1)[0]
    return num(x)


# ------------------------------------------------------------------ arrays

class A:
    __array_ufunc__ = None
    __slots__ = ("a", "dt", "ns", "ro")
    __hash__ = None

    def __init__(self, a, dt, ns, ro=False):
        assert isinstance(a, np.ndarray) and a.dtype == object, a
        self.a, self.dt, self.ns, self.ro = a, dt, ns, ro

    def __array_namespace__(self, api_version=None):
        return self.ns

    def __array__(self, dtype=None, copy=None):
        raise Unsupported("symbolic array converted to a real numpy array")

    @property
    def dtype(self): return self.dt
    @property
    def shape(self): return self.a.shape
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def T(self): return A(self.a.T, self.dt, self.ns)
    @property
    def mT(self): return A(np.swapaxes(self.a, -1, -2), self.dt, self.ns)
    @property
    def real(self): return self.ns.real(self)
    @property
    def imag(self): return self.ns.imag(self)
    @property
    def device(self): return "cpu"
    @property
    def nbytes(self): return self.a.size * self.dt.itemsize
    @property
    def itemsize(self): return self.dt.itemsize
    @property
    def flags(self):
        import types
        return types.SimpleNamespace(writeable=not self.ro)
    @property
    def flat(self): return [wrap(_obj(e), self.dt, self.ns) for e in self.a.flat]

    def to_device(self, device, **k): return self

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.a)

    def __repr__(self):
        return f"{type(self).__name__}({self.a.tolist()!r}, {self.dt})"

    def __format__(self, spec): return repr(self)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    # -- conversion
    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(sc._bool(elem(self)))

    def __index__(self):
        if self.dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        e = elem(self)
        return e if isinstance(e, int) else e.__index__()

    def __int__(self):
        e = elem(self)
        if isinstance(e, float):
            return int(e)
        t = sc.e_trunc(e) if not isinstance(e, SB) else int(bool(e))
        return t if isinstance(t, int) else sc.cur().concretize(t)

    def __float__(self):
        e = elem(self)
        if isinstance(e, S):
            raise Unsupported("float() of symbolic value")
        return float(e)

    def __complex__(self):
        raise Unsupported("complex() of symbolic value")

    def __round__(self, nd=None): return self.ns.round(self)

    def item(self, *a):
        if a:
            return elem(self[a])
        e = elem(self)
        return e

    def tolist(self): return self.a.tolist()

    # -- indexing
    def _key(self, key):
        if isinstance(key, tuple):
            out = []
            for k in key:
                k = self._key1(k)
                if isinstance(k, np.ndarray) and k.dtype == bool and k.ndim == 0:
                    k = bool(k)
                out.append(k)
            return tuple(out)
        return self._key1(key)

    def _key1(self, k):
        if isinstance(k, Sc) or (isinstance(k, A) and k.a.ndim == 0):
            if k.dt.kind == "b":
                return bool(k)
            return k.__index__()
        if isinstance(k, A):
            if k.dt.kind == "b":
                r = np.empty(k.a.shape, dtype=bool)
                for i, e in np.ndenumerate(k.a):
                    r[i] = bool(e)
                return r
            if k.dt.kind not in "iu":
                if k.a.size == 0 and False:
                    pass
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            r = np.empty(k.a.shape, dtype=np.int64)
            for i, e in np.ndenumerate(k.a):
                r[i] = _op.index(e)
            return r
        if isinstance(k, S):
            return k.__index__()
        if isinstance(k, SB):
            return bool(k)
        if isinstance(k, Fraction):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if isinstance(k, slice):
            f = lambda v: v if v is None or type(v) is int else _op.index(v)
            return slice(f(k.start), f(k.stop), f(k.step))
        if isinstance(k, list):
            ra, dt, _ = raw(k)
            if ra.size == 0:
                return np.zeros(ra.shape, dtype=np.int64)
            return self._key1(A(ra, dt, self.ns))
        if isinstance(k, tuple):
            return self._key1(list(k))
        return k

    @staticmethod
    def _full_scalar_key(r):
        return not isinstance(r, np.ndarray)

    def __getitem__(self, key):
        k = self._key(key)
        r = self.a[k]
        if not isinstance(r, np.ndarray) or r.dtype != object:
            return wrap(_obj(r), self.dt, self.ns)
        return A(r, self.dt, self.ns, self.ro)

    def __setitem__(self, key, val):
        if self.ro:
            raise ValueError("assignment destination is read-only")
        k = self._key(key)
        v, vdt, weak = raw(val)
        if vdt.kind == "c" and self.dt.kind != "c":
            raise TypeError("cannot assign complex value to a real array")
        v = _castarr(v, self.dt)
        if v.ndim == 0:
            tgt = self.a[k]
            if isinstance(tgt, np.ndarray) and tgt.dtype == object:
                fill = np.empty(tgt.shape, dtype=object)
                fill.fill(v[()])
                self.a[k] = fill
            else:
                self.a[k] = v[()]
        else:
            tgt = self.a[k]
            if not isinstance(tgt, np.ndarray) or tgt.dtype != object:
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                self.a[k] = v.reshape(-1)[0]
            else:
                self.a[k] = v.copy() if np.may_share_memory(v, self.a) else v

    # -- arithmetic
    def _b(self, f, o, swap=False, dt=None):
        if isinstance(o, (str, bytes)) or o is None or isinstance(o, (list, tuple)) and False:
            return NotImplemented
        try:
            r = raw(o)
        except Unsupported:
            return NotImplemented
        if isinstance(o, A) and o.ns is not self.ns:
            raise TypeError("mixed array namespaces")
        s = (self.a, self.dt, False)
        x, y = (r, s) if swap else (s, r)
        rdt = dt or result_dt(x, y)
        a = f(x[0], y[0])
        if a.size and rdt.kind in "fc" :
            a = _castarr(a, rdt)
        return wrap(a, rdt, self.ns)

    def __add__(self, o): return self._b(_ADD, o) if not self._bb(o) else self._b(_OR, o)
    def __radd__(self, o): return self._b(_ADD, o, True)
    def __sub__(self, o):
        if self._bb(o):
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        return self._b(_SUB, o)
    def __rsub__(self, o): return self._b(_SUB, o, True)
    def __mul__(self, o): return self._b(_MUL, o) if not self._bb(o) else self._b(_AND, o)
    def __rmul__(self, o): return self._b(_MUL, o, True)

    def _bb(self, o):
        return self.dt.kind == "b" and isinstance(o, A) and o.dt.kind == "b"

    def _fdt(self, o):
        try:
            r = raw(o)
        except Unsupported:
            return None
        d = result_dt((self.a, self.dt, False), r)
        return d if d.kind in "fc" else F64

    def __truediv__(self, o): return self._b(_DIV, o, dt=self._fdt(o))
    def __rtruediv__(self, o): return self._b(_DIV, o, True, dt=self._fdt(o))
    def __floordiv__(self, o): return self._b(_FDIV, o)
    def __rfloordiv__(self, o): return self._b(_FDIV, o, True)
    def __mod__(self, o): return self._b(_MOD, o)
    def __rmod__(self, o): return self._b(_MOD, o, True)

    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o):
        return self._b(_POW, o)

    def __rpow__(self, o): return self._b(_POW, o, True)

    def __matmul__(self, o):
        return self.ns.matmul(self, o)

    def __rmatmul__(self, o):
        return self.ns.matmul(o, self)

    def __neg__(self):
        if self.dt.kind == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return wrap(_NEG(self.a), self.dt, self.ns)

    def __pos__(self): return wrap(self.a.copy(), self.dt, self.ns)
    def __abs__(self): return self.ns.abs(self)

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self.ro:
            raise ValueError("output array is read-only")
        if kind(r.dt) > kind(self.dt):
            raise TypeError(f"Cannot cast ufunc output from {r.dt} to {self.dt} with casting rule 'same_kind'")
        if r.a.shape != self.a.shape:
            b = np.broadcast_shapes(r.a.shape, self.a.shape)
            if b != self.a.shape:
                raise ValueError("non-broadcastable output operand")
        v = _castarr(r.a, self.dt)
        if v.ndim == 0:
            self.a.fill(v[()]) if self.a.ndim else self.a.__setitem__((), v[()])
        else:
            self.a[...] = v
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ifloordiv__(self, o): return self._inplace(self // o)
    def __imod__(self, o): return self._inplace(self % o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __ixor__(self, o): return self._inplace(self ^ o)
    def __imatmul__(self, o): return self._inplace(self @ o)

    def __lt__(self, o): return self._b(_LT, o, dt=BOOL)
    def __le__(self, o): return self._b(_LE, o, dt=BOOL)
    def __gt__(self, o): return self._b(_LT, o, True, dt=BOOL)
    def __ge__(self, o): return self._b(_LE, o, True, dt=BOOL)

    def __eq__(self, o):
        r = self._b(_EQ, o, dt=BOOL)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._b(_NE, o, dt=BOOL)
        return True if r is NotImplemented else r

    def _logic(self, o, fb, fi, swap=False):
        r = raw(o)
        if self.dt.kind == "b" and r[1].kind == "b":
            return self._b(fb, o, swap)
        if self.dt.kind in "biu" and r[1].kind in "biu":
            return self._b(fi, o, swap)
        raise TypeError("ufunc 'bitwise' not supported for the input types")

    def __and__(self, o): return self._logic(o, _AND, _IAND)
    def __rand__(self, o): return self._logic(o, _AND, _IAND, True)
    def __or__(self, o): return self._logic(o, _OR, _IOR)
    def __ror__(self, o): return self._logic(o, _OR, _IOR, True)
    def __xor__(self, o): return self._logic(o, _XOR, _IXOR)
    def __rxor__(self, o): return self._logic(o, _XOR, _IXOR, True)
    def __lshift__(self, o): return self._b(_frompy(lambda a, b: a * 2 ** b, 2), o)
    def __rshift__(self, o): return self._b(_frompy(lambda a, b: a // 2 ** b, 2), o)

    def __invert__(self):
        if self.dt.kind == "b":
            return wrap(_NOT(self.a), BOOL, self.ns)
        if self.dt.kind in "iu":
            return wrap(_frompy(lambda e: -e - 1, 1)(self.a), self.dt, self.ns)
        raise TypeError("ufunc 'invert' not supported for the input types")

    # -- methods
    def astype(self, dtype, copy=True, **k): return self.ns.astype(self, dtype, copy=copy)
    def copy(self, order="C"): return A(self.a.copy(), self.dt, self.ns)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def fill(self, v): self[...] = v

    def reshape(self, *shape, order="C", **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        return self.ns.reshape(self, tuple(shape))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return A(self.a.transpose(*axes), self.dt, self.ns)

    def view(self, *a):
        if a:
            raise Unsupported("view with dtype")
        return A(self.a, self.dt, self.ns)

    def __getattr__(self, name):
        if name in _METHODS:
            return functools.partial(getattr(self.ns, _METHODS[name]), self)
        raise AttributeError(name)


_METHODS = {n: n for n in (
    "sum mean any all min max prod argsort argmax argmin cumsum cumprod squeeze ravel swapaxes dot conj conjugate "
    "nonzero round clip repeat take trace std var searchsorted diagonal ptp").split()}
_METHODS["flatten"] = "_flatten"
_METHODS["cumsum"] = "cumsum"


class Sc(A):
    """numpy scalar: immutable, rebinds on augmented assignment"""
    __slots__ = ()

    def __hash__(self):
        e = elem(self)
        if isinstance(e, (S, SB, SC)):
            raise Unsupported("hash of symbolic value")
        return hash(e)

    def _no(self, o):
        return NotImplemented
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ifloordiv__ = __imod__ = __ipow__ = _no
    __iand__ = __ior__ = __ixor__ = __imatmul__ = _no

    def __setitem__(self, k, v):
        raise TypeError("'numpy.float64' object does not support item assignment")

    def copy(self, order="C"): return self
    def is_integer(self):
        e = elem(self)
        return sc.e_eq(e, sc.e_floor(e))


def _kernels():
    g = globals()

    def add(a, b): return sc.num(a) + b if not isinstance(a, (S, SC, Fraction, int)) else a + b

    def special2(f):
        def k(a, b):
            # float specials with Fractions: python would return floats
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, (S, SC)) or isinstance(b, (S, SC)):
                    return f(a, b)
                r = f(float(a), float(b))
                return num(r)
            return f(a, b)
        return k

    def eb(x):  # booleans as integers
        return int(bool(x)) if isinstance(x, (bool, SB)) else x
    g["_ADD"] = _frompy(special2(lambda a, b: eb(a) + eb(b)), 2)
    g["_SUB"] = _frompy(special2(lambda a, b: eb(a) - eb(b)), 2)
    g["_MUL"] = _frompy(lambda a, b: sc.e_mul(eb(a), eb(b)), 2)
    g["_DIV"] = _frompy(lambda a, b: sc.e_div(eb(a), eb(b)), 2)

    def fdiv(a, b):
        a, b = eb(a), eb(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                return 0 if isinstance(a, int) and isinstance(b, int) else sc.e_div(a, b)
            return a // b
        return sc.e_floor(sc.e_div(a, b))

    def mod(a, b):
        a, b = eb(a), eb(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                return 0 if isinstance(a, int) and isinstance(b, int) else NAN
            return a % b
        return a - sc.e_mul(sc.e_floor(sc.e_div(a, b)), b)
    g["_FDIV"] = _frompy(fdiv, 2)
    g["_MOD"] = _frompy(mod, 2)
    g["_POW"] = _frompy(lambda a, b: sc.e_pow(eb(a), eb(b)), 2)
    g["_NEG"] = _frompy(lambda a: -a, 1)
    g["_LT"] = _frompy(sc.e_lt, 2)
    g["_LE"] = _frompy(sc.e_le, 2)
    g["_EQ"] = _frompy(sc.e_eq, 2)
    g["_NE"] = _frompy(sc.e_ne, 2)
    g["_AND"] = _frompy(sc.e_and, 2)
    g["_OR"] = _frompy(sc.e_or, 2)
    g["_XOR"] = _frompy(sc.e_xor, 2)
    g["_NOT"] = _frompy(sc.e_not, 1)
    ix = _op.index
    g["_IAND"] = _frompy(lambda a, b: ix(a) & ix(b), 2)
    g["_IOR"] = _frompy(lambda a, b: ix(a) | ix(b), 2)
    g["_IXOR"] = _frompy(lambda a, b: ix(a) ^ ix(b), 2)


_kernels()


# ------------------------------------------------------------------ namespace

def _shape(s):
    if s is None:
        return ()
    if isinstance(s, (tuple, list)):
        return tuple(_op.index(v) for v in s)
    if isinstance(s, A) and s.a.ndim == 1:
        return tuple(_op.index(v) for v in s)
    return (_op.index(s),)


def _axis(ax, nd):
    if ax is None:
        return None
    if isinstance(ax, (tuple, list)):
        return tuple(_axis(a, nd) for a in ax)
    ax = _op.index(ax)
    if not -nd <= ax < nd:
        raise np.exceptions.AxisError(ax, nd)
    return ax % nd


def _sumlist(xs, zero):
    """balanced sum"""
    xs = list(xs)
    if not xs:
        return zero
    xs = [int(bool(x)) if isinstance(x, (bool, SB)) else x for x in xs]
    acc = xs[0]
    for x in xs[1:]:
        if isinstance(acc, float) or isinstance(x, float):
            if not isinstance(acc, (S, SC)) and not isinstance(x, (S, SC)):
                acc = num(float(acc) + float(x))
                continue
        acc = acc + x
    return acc


class NS:
    """array namespace over symbolic arrays"""
    newaxis = None
    float64, int64, complex128, float32, int32 = np.float64, np.int64, np.complex128, np.float32, np.int32
    uint8, uint64, int8, int16 = np.uint8, np.uint64, np.int8, np.int16
    bool_ = np.bool_
    bool = np.bool_
    double, complexfloating, floating, integer, number, generic = (
        np.double, np.complexfloating, np.floating, np.integer, np.number, np.generic)
    inf, nan = INF, NAN
    dtype = np.dtype
    linalg = None
    random = None
    exceptions = np.exceptions
    lib = np.lib
    __version__ = np.__version__

    class _ND(type):
        def __instancecheck__(cls, x):
            return isinstance(x, A) and not isinstance(x, Sc) and x.ns is cls._ns
    ndarray = None

    def __init__(self, name="numpy", scalars=True):
        self.__name__ = name
        self.scalars = scalars
        self.linalg = Linalg(self)
        self.ndarray = NS._ND("ndarray", (), {"_ns": self})
        self.stubs = {}

    def __repr__(self): return f"<symbolic namespace {self.__name__}>"
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o

    @property
    def pi(self):
        return sc.PI()

    @property
    def e(self):
        return sc.e_exp(Fraction(1))

    def __array_namespace_info__(self):
        return np.__array_namespace_info__()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in _UNARY:
            f, dtf = _UNARY[name]
            return functools.partial(self._unary, name, f, dtf)
        if name in _BINARY:
            return functools.partial(self._binary, *_BINARY[name])
        if name in _STRUCT1:
            return functools.partial(self._struct1, getattr(np, name))
        if name in _STRUCTN:
            return functools.partial(self._structn, getattr(np, name))
        if name in ("errstate",):
            return np.errstate
        if name in _PASS:
            return getattr(np, name)
        if not hasattr(np, name):
            raise AttributeError(name)
        raise Unsupported(f"namespace function {name}")

    # -- helpers
    def _a(self, x):
        """A of anything"""
        if isinstance(x, A):
            if x.ns is not self:
                if self.__name__ != "numpy":
                    raise TypeError("array of another library")
                return A(x.a, x.dt, self)      # numpy converts arrays of other libraries
            return x
        a, dt, _ = raw(x)
        return A(a, dt, self)

    def _masked(self, f, args, out, where):
        """ufunc with where=: other elements keep the value of out"""
        ms = self._a(where)
        xs = [self._a(x) for x in args]
        shape = np.broadcast_shapes(ms.shape, *[x.shape for x in xs], *([out.shape] if out is not None else []))
        if out is None:
            raise Unsupported("where= in ufunc without out=")
        if tuple(out.shape) != shape:
            raise ValueError("non-broadcastable output operand")
        m = np.broadcast_to(ms.a, shape)
        xb = [np.broadcast_to(x.a, shape) for x in xs]
        res = out.a.copy()
        for i in np.ndindex(*shape):
            c = m[i]
            if isinstance(c, SB):
                c = bool(c)         # branch
            if c:
                el = [wrap(np.array(b[i], dtype=object), x.dt, self) for b, x in zip(xb, xs)]
                r = self._a(f(*el))
                res[i] = _castarr(r.a, out.dt).reshape(())[()] if r.dt != out.dt else r.a.reshape(())[()]
        out._inplace(A(res, out.dt, self))
        return out

    def _unary(self, name, f, dtf, x, out=None, where=None, dtype=None, **k):
        if isinstance(out, tuple):
            out, = out
        if where is not None and where is not True:
            return self._masked(lambda q: self._unary(name, f, dtf, q, dtype=dtype), (x,), out, where)
        x = self._a(x)
        dt = dtf(x.dt)
        r = f(x.a) if x.a.size else np.empty(x.a.shape, dtype=object)
        if not isinstance(dt, np.dtype):
            dt = np.dtype(dt)
        r = wrap(_castarr(r, dt) if dt.kind == "f" else r, dt, self)
        if out is not None:
            out._inplace(r)
            return out
        return r

    def _binary(self, op, x, y, out=None, where=None, **k):
        if isinstance(out, tuple):
            out, = out
        if where is not None and where is not True:
            return self._masked(lambda p, q: self._binary(op, p, q), (x, y), out, where)
        if not isinstance(x, A) and not isinstance(y, A):
            x = wrap(self._a(x).a, self._a(x).dt, self)
        r = op(x, y) if isinstance(op, type(_op.add)) or callable(op) else None
        if out is not None:
            out._inplace(r)
            return out
        return r

    def _struct1(self, f, x, *args, **k):
        x = self._a(x)
        conv = lambda v: (v.a.astype(int) if v.a.ndim else _op.index(v)) if isinstance(v, A) else v
        r = f(x.a, *[conv(v) for v in args], **{n: conv(v) for n, v in k.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(A(v, x.dt, self) for v in r)
        if isinstance(r, np.ndarray) and r.dtype != object:
            r = r.astype(object)
        return wrap(r, x.dt, self, scalar=False)

    def _structn(self, f, xs, *args, **k):
        rs = [raw(x) for x in xs]
        dt = result_dt(*[(r[0], r[1], False) for r in rs]) if rs else F64
        k.pop("dtype", None)
        r = f([_castarr(r[0], dt) if r[1] != dt else r[0] for r in rs], *args, **k)
        return wrap(r, dt, self, scalar=False)

    # -- creation
    def asarray(self, x, dtype=None, copy=None, device=None, **k):
        dt = to_dtype(dtype)
        if isinstance(x, A) and not isinstance(x, Sc):
            if dt is None or dt == x.dt:
                return x if (copy is not True and x.ns is self) else A(x.a.copy() if copy is not False else x.a, x.dt, self)
            return A(_castarr(x.a, dt).copy(), dt, self)
        a, d, _ = raw(x)
        if dt is None:
            dt = d
        if dt.kind == "c" or d != dt:
            a = _castarr(a, dt)
        return A(a.copy(), dt, self)

    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        r = self.asarray(x, dtype=dtype, copy=copy)
        if r.ndim < ndmin:
            r = A(r.a.reshape((1,) * (ndmin - r.ndim) + r.shape), r.dt, self)
        return r

    asanyarray = ascontiguousarray = asarray
    def asarray_chkfinite(self, x, *a, **k): return self.asarray(x, *a, **k)

    def _full(self, shape, e, dt):
        a = np.empty(_shape(shape), dtype=object)
        if a.ndim:
            a.fill(cast(e, dt))
        else:
            a[()] = cast(e, dt)
        return A(a, dt, self)

    def zeros(self, shape, dtype=None, **k): return self._full(shape, 0, to_dtype(dtype) or F64)
    def ones(self, shape, dtype=None, **k): return self._full(shape, 1, to_dtype(dtype) or F64)

    def empty(self, shape, dtype=None, **k):
        dt = to_dtype(dtype) or F64
        r = self._full(shape, 0, dt)
        if sc.CUR is not None and dt.kind in "fc":
            # uninitialised memory: arbitrary values
            ctx = sc.cur()
            for i in np.ndindex(r.a.shape):
                r.a[i] = _Lazy(dt)
            r.a = LazyObj.materialise(r.a, ctx, dt)
        return r

    def full(self, shape, fill_value, dtype=None, **k):
        v = fill_value
        a, d, _ = raw(v)
        dt = to_dtype(dtype) or d
        shape = _shape(shape)
        if a.ndim == 0:
            return self._full(shape, a[()], dt)
        return A(np.broadcast_to(_castarr(a, dt), shape).copy(), dt, self)

    def zeros_like(self, x, dtype=None, **k): x = self._a(x); return self._full(x.shape, 0, to_dtype(dtype) or x.dt)
    def ones_like(self, x, dtype=None, **k): x = self._a(x); return self._full(x.shape, 1, to_dtype(dtype) or x.dt)
    def empty_like(self, x, dtype=None, **k): x = self._a(x); return self.empty(x.shape, to_dtype(dtype) or x.dt)
    def full_like(self, x, fill_value, dtype=None, **k): x = self._a(x); return self._full(x.shape, elem(fill_value), to_dtype(dtype) or x.dt)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        return self.asarray(np.eye(_op.index(n), None if m is None else _op.index(m), k), dtype=to_dtype(dtype) or F64)

    def identity(self, n, dtype=None): return self.eye(n, dtype=dtype)

    def arange(self, start, stop=None, step=1, dtype=None, **k):
        if stop is None:
            start, stop = 0, start
        s, e, d = elem(start), elem(stop), elem(step)
        ints = all(elem_dt(v).kind in "iu" for v in (s, e, d))
        if sc.e_eq(d, 0) is True:
            raise ZeroDivisionError("division by zero")
        n = sc.e_ceil(sc.e_div(e - s, d))
        n = n if isinstance(n, int) else _op.index(n)
        n = max(n, 0)
        dt = to_dtype(dtype) or (I64 if ints else F64)
        a = np.empty((n,), dtype=object)
        for i in range(n):
            a[i] = cast(s + i * d, dt)
        return A(a, dt, self)

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
        n = _op.index(num)
        s, e = self._a(start), self._a(stop)
        sa, ea = np.broadcast_arrays(s.a, e.a)
        div = (n - 1) if endpoint else n
        cols = []
        for i in range(n):
            if div <= 0:
                cols.append(_castarr(sa, F64))
            elif endpoint and i == n - 1:
                cols.append(_castarr(ea, F64))
            else:
                cols.append(_frompy(lambda u, v: u + (v - u) * Fraction(i, div), 2)(sa, ea))
        a = np.stack([np.asarray(c, dtype=object) for c in cols], axis=axis) if cols else np.empty((0, *sa.shape), dtype=object)
        dt = to_dtype(dtype) or F64
        r = A(_castarr(a, dt), dt, self)
        if retstep:
            return r, wrap(_frompy(lambda u, v: sc.e_div(v - u, div), 2)(sa, ea), F64, self)
        return r

    def geomspace(self, start, stop, num=50, **k):
        ls, le = sc.e_log(elem(start)), sc.e_log(elem(stop))
        n = _op.index(num)
        a = np.empty((n,), dtype=object)
        for i in range(n):
            a[i] = elem(start) if i == 0 else elem(stop) if i == n - 1 else sc.e_exp(ls + (le - ls) * Fraction(i, n - 1))
        return A(a, F64, self)

    def logspace(self, start, stop, num=50, **k):
        l = sc.e_log(Fraction(10))
        x = self.linspace(start, stop, num)
        return A(_frompy(lambda v: sc.e_exp(v * l), 1)(x.a), F64, self)

    def meshgrid(self, *xs, indexing="xy", **k):
        return [A(a, self._a(x).dt, self) for a, x in zip(np.meshgrid(*[self._a(x).a for x in xs], indexing=indexing), xs)]

    # -- dtype functions
    def astype(self, x, dtype, copy=True, **k):
        dt = to_dtype(dtype)
        x = self._a(x)
        if dt == x.dt:
            return x.copy() if copy else x
        if x.dt.kind == "c" and dt.kind != "c":
            raise TypeError("cannot cast complex to real")
        r = _castarr(x.a, dt)
        return wrap(r.copy(), dt, self) if isinstance(x, Sc) else A(r.copy(), dt, self)

    def isdtype(self, dtype, kind): return np.isdtype(to_dtype(dtype), kind)
    def finfo(self, d): return np.finfo(d.dt if isinstance(d, A) else to_dtype(d))
    def iinfo(self, d): return np.iinfo(d.dt if isinstance(d, A) else to_dtype(d))
    def can_cast(self, a, b, *r): return np.can_cast(a.dt if isinstance(a, A) else a, b, *r)
    def issubdtype(self, a, b): return np.issubdtype(to_dtype(a) if not isinstance(a, type) else a, b)
    def iscomplexobj(self, x): return self._a(x).dt.kind == "c"
    def isrealobj(self, x): return self._a(x).dt.kind != "c"
    def isscalar(self, x): return isinstance(x, (Sc, S, SC, SB, int, float, complex, Fraction))
    def result_type(self, *xs):
        rs = []
        for x in xs:
            if isinstance(x, (np.dtype, type)):
                rs.append((None, to_dtype(x), False))
            else:
                rs.append(raw(x))
        return result_dt(*rs)
    promote_types = staticmethod(np.promote_types)
    def ndim(self, x): return self._a(x).ndim
    def shape(self, x): return self._a(x).shape
    def size(self, x): return self._a(x).size

    # -- shape functions
    def reshape(self, x, shape=None, *r, copy=None, **k):
        if "newshape" in k:
            shape = k["newshape"]
        x = self._a(x)
        return A(x.a.reshape(_shape(shape)), x.dt, self)

    def _flatten(self, x, *a): return A(x.a.reshape(-1).copy(), x.dt, self)

    def broadcast_to(self, x, shape, **k):
        x = self._a(x)
        a = np.broadcast_to(x.a, _shape(shape))
        return A(a, x.dt, self, ro=True)

    def broadcast_arrays(self, *xs):
        xs = [self._a(x) for x in xs]
        shp = np.broadcast_shapes(*[x.shape for x in xs])
        return tuple(A(np.broadcast_to(x.a, shp), x.dt, self, ro=x.shape != shp) for x in xs)

    def broadcast_shapes(self, *s): return np.broadcast_shapes(*[_shape(v) if isinstance(v, (tuple, list)) else _op.index(v) for v in s])

    def permute_dims(self, x, axes): return A(np.transpose(self._a(x).a, axes), self._a(x).dt, self)
    def matrix_transpose(self, x): return self._a(x).mT

    def concat(self, xs, axis=0, dtype=None, **k):
        xs = list(xs)
        r = self._structn(np.concatenate, xs, axis=axis)
        if dtype is not None:
            r = self.astype(r, dtype)
        return r
    concatenate = concat

    def append(self, x, v, axis=None):
        if axis is None:
            return self.concat([self._flatten(self._a(x)), self._flatten(self._a(v))])
        return self.concat([x, v], axis=axis)

    def unstack(self, x, axis=0): return tuple(A(a, x.dt, self) for a in np.moveaxis(x.a, axis, 0))

    def repeat(self, x, repeats, axis=None, **k):
        x = self._a(x)
        if isinstance(repeats, A):
            rr = np.array([_op.index(e) for e in repeats.a.reshape(-1)], dtype=int) if repeats.a.ndim else _op.index(repeats)
        elif isinstance(repeats, (list, tuple)):
            rr = [_op.index(e) for e in repeats]
        elif isinstance(repeats, np.ndarray):
            rr = repeats
        else:
            rr = _op.index(repeats)
        return A(np.repeat(x.a, rr, axis=axis), x.dt, self)

    def take(self, x, idx, axis=None, mode=None, **k):
        x = self._a(x)
        if axis is None:
            if x.ndim != 1:
                x = self.reshape(x, (-1,))
            axis = 0
        axis = _axis(axis, x.ndim)
        return x[(slice(None),) * axis + (idx if isinstance(idx, A) else self.asarray(idx),)]

    def pad(self, x, pad_width, mode="constant", constant_values=0, **k):
        if mode != "constant":
            raise Unsupported("pad mode")
        x = self._a(x)
        w = np.empty((x.ndim, 2), dtype=int)
        pw = raw(pad_width)[0]
        w[...] = np.broadcast_to(pw.astype(int), (x.ndim, 2))
        shape = tuple(n + a + b for n, (a, b) in zip(x.shape, w))
        r = self._full(shape, elem(constant_values), x.dt)
        r.a[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, w))] = x.a
        return r

    def split(self, x, ind, axis=0):
        x = self._a(x)
        if isinstance(ind, A):
            ind = [_op.index(e) for e in ind.a] if ind.ndim else _op.index(ind)
        elif isinstance(ind, (list, tuple)):
            ind = [_op.index(e) for e in ind]
        return [A(v, x.dt, self) for v in np.split(x.a, ind, axis=axis)]

    def array_split(self, x, ind, axis=0):
        x = self._a(x)
        if isinstance(ind, A):
            ind = [_op.index(e) for e in ind.a] if ind.ndim else _op.index(ind)
        return [A(v, x.dt, self) for v in np.array_split(x.a, ind, axis=axis)]

    # -- reductions
    def _reduce(self, x, axis, keepdims, f, dt):
        x = self._a(x)
        if axis is None:
            r = _obj(f(x.a.reshape(-1)))
            if keepdims:
                r = r.reshape((1,) * x.ndim)
            return wrap(r, dt, self)
        ax = _axis(axis, x.ndim)
        ax = ax if isinstance(ax, tuple) else (ax,)
        rest = [i for i in range(x.ndim) if i not in ax]
        t = np.transpose(x.a, rest + list(ax)).reshape([x.shape[i] for i in rest] + [-1] if x.a.size else [x.shape[i] for i in rest] + [_m.prod(x.shape[i] for i in ax)])
        o = np.empty([x.shape[i] for i in rest], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = f(t[i])
        if keepdims:
            o = o.reshape([1 if i in ax else x.shape[i] for i in range(x.ndim)])
        return wrap(o, dt, self)

    def sum(self, x, axis=None, dtype=None, keepdims=False, out=None, initial=None, where=None, **k):
        if out is not None or (where is not None and where is not True):
            raise Unsupported("sum out/where")
        x = self._a(x)
        dt = to_dtype(dtype) or (I64 if x.dt.kind == "b" else x.dt)
        z = cast(0, dt)
        i0 = [] if initial is None else [elem(initial)]
        return self._reduce(x, axis, keepdims, lambda v: _sumlist(i0 + list(v), z), dt)

    def prod(self, x, axis=None, dtype=None, keepdims=False, **k):
        x = self._a(x)
        dt = to_dtype(dtype) or (I64 if x.dt.kind == "b" else x.dt)
        return self._reduce(x, axis, keepdims, lambda v: functools.reduce(sc.e_mul, v, cast(1, dt)), dt)

    def mean(self, x, axis=None, dtype=None, keepdims=False, **k):
        x = self._a(x)
        dt = x.dt if x.dt.kind in "fc" else F64
        return self._reduce(x, axis, keepdims, lambda v: sc.e_div(_sumlist(v, Fraction(0)), len(v)), dt)

    def var(self, x, axis=None, correction=0, ddof=0, keepdims=False, **k):
        d = correction or ddof

        def f(v):
            m = sc.e_div(_sumlist(v, Fraction(0)), len(v))
            return sc.e_div(_sumlist([(e - m) * (e - m) for e in v], Fraction(0)), len(v) - d)
        return self._reduce(x, axis, keepdims, f, F64)

    def std(self, x, axis=None, **k): return self.sqrt(self.var(x, axis, **k))

    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(x, axis)
        return self.sum(x * weights, axis=axis) / self.sum(weights, axis=axis)

    def any(self, x, axis=None, keepdims=False, **k):
        return self._reduce(x, axis, keepdims, lambda v: _bal(sc.e_or, v, False), BOOL)

    def all(self, x, axis=None, keepdims=False, **k):
        return self._reduce(x, axis, keepdims, lambda v: _bal(sc.e_and, v, True), BOOL)

    def max(self, x, axis=None, keepdims=False, initial=None, **k):
        return self._minmax(sc.e_max, x, axis, keepdims, initial)

    def min(self, x, axis=None, keepdims=False, initial=None, **k):
        return self._minmax(sc.e_min, x, axis, keepdims, initial)
    amax, amin = max, min

    def _minmax(self, f, x, axis, keepdims, initial):
        x = self._a(x)
        i0 = [] if initial is None else [elem(initial)]

        def g(v):
            v = i0 + list(v)
            if not v:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return functools.reduce(f, v)
        return self._reduce(x, axis, keepdims, g, x.dt)

    def ptp(self, x, axis=None, **k): return self.max(x, axis) - self.min(x, axis)

    def _arg(self, x, axis, keepdims, better):
        def f(v):
            if len(v) == 0:
                raise ValueError("attempt to get argmax of an empty sequence")
            b = 0
            for i in range(1, len(v)):
                if bool(better(v[i], v[b])):
                    b = i
            return b
        return self._reduce(x, axis, keepdims, f, I64)

    def argmax(self, x, axis=None, keepdims=False, **k): return self._arg(x, axis, keepdims, lambda a, b: sc.e_lt(b, a))
    def argmin(self, x, axis=None, keepdims=False, **k): return self._arg(x, axis, keepdims, sc.e_lt)

    def count_nonzero(self, x, axis=None, keepdims=False, **k):
        return self._reduce(x, axis, keepdims, lambda v: sum(1 for e in v if bool(sc._bool(e))), I64)

    def cumulative_sum(self, x, axis=None, dtype=None, include_initial=False, **k):
        x = self._a(x)
        if axis is None:
            if x.ndim != 1:
                raise ValueError("axis is required for multi-dimensional arrays")
            axis = 0
        ax = _axis(axis, x.ndim)
        dt = to_dtype(dtype) or (I64 if x.dt.kind == "b" else x.dt)
        t = np.moveaxis(x.a, ax, 0)
        o = np.empty((t.shape[0] + int(include_initial), *t.shape[1:]), dtype=object)
        z = np.empty(t.shape[1:], dtype=object)
        z.fill(cast(0, dt)) if z.ndim else z.__setitem__((), cast(0, dt))
        acc = z
        if include_initial:
            o[0] = z if z.ndim else z[()]
        for i in range(t.shape[0]):
            ti = t[i] if isinstance(t[i], np.ndarray) else _obj(t[i])
            acc = _ADD(acc, ti) if i else _castarr(ti, dt)
            o[i + int(include_initial)] = acc if acc.ndim else acc[()]
        return A(np.moveaxis(o, 0, ax), dt, self)

    def cumsum(self, x, axis=None, dtype=None, out=None, **k):
        x = self._a(x)
        if axis is None:
            x = self.reshape(x, (-1,))
            axis = 0
        r = self.cumulative_sum(x, axis=axis, dtype=dtype)
        if out is not None:
            out[...] = r
            return out
        return r

    def cumprod(self, x, axis=None, **k):
        x = self._a(x)
        if axis is None:
            x = self.reshape(x, (-1,))
            axis = 0
        t = np.moveaxis(x.a, axis, 0).copy()
        for i in range(1, len(t)):
            t[i] = t[i - 1] * t[i]
        return A(np.moveaxis(t, 0, axis), x.dt, self)
    cumulative_prod = cumprod

    def diff(self, x, n=1, axis=-1, prepend=None, append=None, **k):
        x = self._a(x)
        if prepend is not None or append is not None:
            parts = [p for p in (prepend, x, append) if p is not None]
            parts = [self._a(p) if self._a(p).ndim else self._full(tuple(1 if i == axis % x.ndim else s for i, s in enumerate(x.shape)), elem(p), x.dt) for p in parts]
            x = self.concat(parts, axis=axis)
        for _ in range(n):
            t = np.moveaxis(x.a, axis, -1)
            x = A(np.moveaxis(_SUB(t[..., 1:], t[..., :-1]), -1, axis), x.dt, self)
        return x

    def ediff1d(self, x, **k): return self.diff(self.reshape(x, (-1,)))

    # -- selection
    def where(self, c, x=None, y=None):
        if x is None:
            return self.nonzero(c)
        c = self._a(c)
        rx, ry = raw(x), raw(y)
        dt = result_dt(rx, ry)
        cb, xb, yb = np.broadcast_arrays(c.a, rx[0], ry[0])
        o = np.empty(cb.shape, dtype=object)
        for i in np.ndindex(*cb.shape):
            b = sc._bool(cb[i])
            u, v = xb[i], yb[i]
            if b is True or b is False:
                o[i] = u if b else v
            elif _ident(u, v):
                o[i] = u
            else:
                o[i] = u if bool(b) else v
        return A(_castarr(o, dt), dt, self)

    def nonzero(self, x):
        x = self._a(x)
        if x.ndim == 0:
            raise ValueError("Calling nonzero on 0d arrays is not allowed.")
        m = np.empty(x.shape, dtype=bool)
        for i, e in np.ndenumerate(x.a):
            m[i] = bool(sc._bool(e))
        return tuple(self.asarray(i) for i in np.nonzero(m))

    def flatnonzero(self, x): return self.nonzero(self.reshape(x, (-1,)))[0]

    def argwhere(self, x): return self.stack(self.nonzero(x), axis=-1)

    def clip(self, x, min=None, max=None, out=None, **k):
        min = k.get("a_min", min)
        max = k.get("a_max", max)
        r = self._a(x)
        r0 = r
        if min is not None:
            r = self.maximum(r, min)
        if max is not None:
            r = self.minimum(r, max)
        if out is not None:
            out[...] = r
            return out
        return r if r is not r0 else r.copy()

    def maximum(self, x, y, **k): return self._mm(sc.e_max, x, y)
    def minimum(self, x, y, **k): return self._mm(sc.e_min, x, y)
    fmax, fmin = maximum, minimum

    def _mm(self, f, x, y):
        rx, ry = raw(x), raw(y)
        dt = result_dt(rx, ry)
        return wrap(_castarr(_frompy(f, 2)(rx[0], ry[0]), dt), dt, self)

    def select(self, conds, choices, default=0):
        r = self._a(default)
        for c, v in reversed(list(zip(conds, choices))):
            r = self.where(c, v, r)
        return r

    def round(self, x, decimals=0, **k):
        x = self._a(x)
        if x.dt.kind in "iub":
            return x.copy()
        if decimals:
            f = Fraction(10) ** decimals
            return wrap(_frompy(lambda e: sc.e_div(sc.e_round(e * f), f), 1)(x.a), x.dt, self)
        return wrap(_frompy(sc.e_round, 1)(x.a), x.dt, self)
    around = round

    # -- sorting / searching
    def _order(self, v, descending=False):
        idx = []
        for i, e in enumerate(v):
            lo, hi = 0, len(idx)
            while lo < hi:
                mid = (lo + hi) // 2
                less = bool(sc.e_lt(v[idx[mid]], e)) if descending else bool(sc.e_lt(e, v[idx[mid]]))
                if less:
                    hi = mid
                else:
                    lo = mid + 1
            idx.insert(lo, i)
        return idx

    def argsort(self, x, axis=-1, descending=False, stable=True, kind=None, **k):
        x = self._a(x)
        t = np.moveaxis(x.a, axis, -1)
        o = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape[:-1]):
            o[i] = self._order(t[i], descending)
        return A(np.moveaxis(o, -1, axis), I64, self)

    def sort(self, x, axis=-1, descending=False, stable=True, kind=None, **k):
        x = self._a(x)
        t = np.moveaxis(x.a, axis, -1)
        o = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape[:-1]):
            o[i] = [t[i][j] for j in self._order(t[i], descending)]
        return A(np.moveaxis(o, -1, axis), x.dt, self)

    def searchsorted(self, a, v, side="left", sorter=None, **k):
        a, v = self._a(a), self._a(v)
        arr = a.a if sorter is None else a.a[self._a(sorter).a.astype(int)]

        def f(e):
            lo, hi = 0, len(arr)
            while lo < hi:
                mid = (lo + hi) // 2
                go = sc.e_lt(arr[mid], e) if side == "left" else sc.e_le(arr[mid], e)
                if bool(go):
                    lo = mid + 1
                else:
                    hi = mid
            return lo
        return wrap(_frompy(f, 1)(v.a), I64, self)

    def digitize(self, x, bins, right=False): return self.searchsorted(bins, x, side="left" if right else "right")

    def bincount(self, x, weights=None, minlength=0):
        ix = [_op.index(e) for e in self._a(x).a]
        n = max([minlength] + [i + 1 for i in ix])
        w = [1] * len(ix) if weights is None else list(self._a(weights).a)
        o = np.empty((n,), dtype=object)
        o.fill(0 if weights is None else Fraction(0))
        for i, e in zip(ix, w):
            o[i] = o[i] + e
        return A(o, I64 if weights is None else F64, self)

    def _unique(self, x):
        x = self._a(x)
        fl = x.a.reshape(-1)
        order = self._order(fl)
        vals, inv, cnt, first = [], [0] * len(fl), [], []
        for j in order:
            if vals and bool(sc.e_eq(vals[-1], fl[j])):
                cnt[-1] += 1
            else:
                vals.append(fl[j])
                cnt.append(1)
                first.append(j)
            inv[j] = len(vals) - 1
        o = np.empty((len(vals),), dtype=object)
        o[:] = vals
        return (A(o, x.dt, self), self.asarray(np.array(first, dtype=int)),
                self.asarray(np.array(inv, dtype=int).reshape(x.shape)), self.asarray(np.array(cnt, dtype=int)))

    def unique_values(self, x): return self._unique(x)[0]
    def unique_counts(self, x):
        u = self._unique(x)
        return UC(u[0], u[3])
    def unique_inverse(self, x):
        u = self._unique(x)
        return UI(u[0], u[2])
    def unique_all(self, x): return UA(*self._unique(x))

    def unique(self, x, return_index=False, return_inverse=False, return_counts=False, **k):
        u = self._unique(x)
        sel = [u[0]] + ([u[1]] if return_index else []) + ([u[2]] if return_inverse else []) + ([u[3]] if return_counts else [])
        return sel[0] if len(sel) == 1 else tuple(sel)

    def union1d(self, a, b): return self.unique_values(self.concat([self._flatten(self._a(a)), self._flatten(self._a(b))]))

    def intersect1d(self, a, b, **k):
        a, b = self.unique_values(a), self.unique_values(b)
        return a[self.isin(a, b)]

    def setdiff1d(self, a, b, **k):
        a = self.unique_values(a)
        return a[~self.isin(a, b)]

    def isin(self, a, b, **k):
        a, b = self._a(a), self._a(b)
        return wrap(_frompy(lambda e: _bal(sc.e_or, [sc.e_eq(e, f) for f in b.a.reshape(-1)], False), 1)(a.a), BOOL, self)

    def array_equal(self, a, b, **k):
        a, b = self._a(a), self._a(b)
        return a.shape == b.shape and bool(self.all(a == b))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return self.abs(self._a(a) - b) <= atol + rtol * self.abs(self._a(b))

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(self.all(self.isclose(a, b, rtol, atol)))

    # -- products
    def matmul(self, x, y, **k):
        x, y = self._a(x), self._a(y)
        if x.ndim == 0 or y.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        dt = promote(x.dt, y.dt)
        a, b = x.a, y.a
        xs, ys = x.ndim == 1, y.ndim == 1
        if xs:
            a = a[None, :]
        if ys:
            b = b[:, None]
        if a.shape[-1] != b.shape[-2]:
            raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {b.shape[-2]} is different from {a.shape[-1]})")
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        aa = np.broadcast_to(a, bs + a.shape[-2:])
        bb = np.broadcast_to(b, bs + b.shape[-2:])
        o = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
        z = cast(0, dt)
        for i in np.ndindex(*o.shape):
            r, c = aa[i[:-1]], bb[i[:-2] + (slice(None), i[-1])]
            o[i] = _sumlist([sc.e_mul(u, v) for u, v in zip(r, c) if not (_iszero(u) or _iszero(v))], z)
        if xs:
            o = o[..., 0, :]
        if ys:
            o = o[..., 0]
        if not isinstance(o, np.ndarray):
            o = _obj(o)
        return wrap(_castarr(o, dt), dt, self)

    def vecdot(self, x, y, axis=-1, **k):
        x, y = self._a(x), self._a(y)
        if x.dt.kind == "c":
            x = self.conj(x)
        return self.sum(x * y, axis=axis)

    def dot(self, x, y, **k):
        x, y = self._a(x), self._a(y)
        if x.ndim == 0 or y.ndim == 0:
            return x * y
        if y.ndim <= 2 and x.ndim <= 2:
            return self.matmul(x, y)
        raise Unsupported("dot")

    def inner(self, x, y): return self.matmul(x, self._a(y).T) if self._a(y).ndim > 1 else self.sum(self._a(x) * y, axis=-1)
    def vdot(self, x, y): return self.sum(self.conj(self.reshape(x, (-1,))) * self.reshape(y, (-1,)))
    def outer(self, x, y): return self.reshape(x, (-1, 1)) * self.reshape(y, (1, -1))

    def tensordot(self, x, y, axes=2, **k):
        x, y = self._a(x), self._a(y)
        if isinstance(axes, int):
            ax, ay = list(range(x.ndim - axes, x.ndim)), list(range(axes))
        else:
            ax, ay = ([v] if isinstance(v, int) else list(v) for v in axes)
            ax, ay = [v % x.ndim for v in ax], [v % y.ndim for v in ay]
        fx = [i for i in range(x.ndim) if i not in ax]
        fy = [i for i in range(y.ndim) if i not in ay]
        n = _m.prod(x.shape[i] for i in ax)
        l = x.a.transpose(fx + ax).reshape(-1, n)
        r = y.a.transpose(ay + fy).reshape(n, -1)
        o = self.matmul(A(l, x.dt, self), A(r, y.dt, self))
        return self.reshape(o, [x.shape[i] for i in fx] + [y.shape[i] for i in fy])

    def einsum(self, subs, *ops, **k):
        ops = [self._a(o) for o in ops]
        subs = subs.replace(" ", "")
        if "->" in subs:
            ins, outs = subs.split("->")
        else:
            ins = subs
            cnt = {}
            for c in ins.replace(",", "").replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
            outs = ("..." if "..." in ins else "") + "".join(sorted(c for c, n in cnt.items() if n == 1))
        ins = ins.split(",")
        if len(ins) != len(ops):
            raise ValueError("more operands provided to einsum than specified in the subscripts string")
        # ellipsis
        nb = [o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops)]
        for s, n in zip(ins, nb):
            if n < 0 or ("..." not in s and n != 0):
                raise ValueError("einstein sum subscripts string does not match the operand")
        m = max([n for s, n in zip(ins, nb)] + [0])
        dims = {}
        terms = []
        for s, o, n in zip(ins, ops, nb):
            lab = []
            for part in (s.split("...") if "..." in s else [s, None]):
                if part is None:
                    continue
                lab.append(list(part))
            labels = lab[0] if len(lab) == 1 else lab[0] + [f"_{m - n + i}" for i in range(n)] + lab[1]
            for l, d in zip(labels, o.shape):
                if dims.get(l, 1) == 1:
                    dims[l] = d
                elif d != 1 and d != dims[l]:
                    raise ValueError("operands could not be broadcast together in einsum")
            terms.append((labels, o))
        ol = []
        p = outs.split("...")
        ol = list(p[0]) + ([f"_{i}" for i in range(m)] + list(p[1]) if len(p) > 1 else [])
        sl = [l for l in dims if l not in ol]
        dt = functools.reduce(promote, (o.dt for o in ops))
        o = np.empty([dims[l] for l in ol], dtype=object)
        for i in np.ndindex(*o.shape):
            env = dict(zip(ol, i))
            acc = []
            for j in np.ndindex(*[dims[l] for l in sl]):
                env.update(zip(sl, j))
                t = cast(1, dt)
                zero = False
                for labels, op in terms:
                    e = op.a[tuple(env[l] if d != 1 else 0 for l, d in zip(labels, op.shape))]
                    if _iszero(e):
                        zero = True
                        break
                    t = sc.e_mul(t, e)
                if not zero:
                    acc.append(t)
            o[i] = _sumlist(acc, cast(0, dt))
        return wrap(_castarr(o, dt), dt, self)

    def trapezoid(self, y, x=None, dx=1.0, axis=-1):
        y = self._a(y)
        if x is None:
            d = self._a(dx)
        else:
            x = self._a(x)
            if x.ndim == 1:
                d = self.diff(x)
                shape = [1] * y.ndim
                shape[axis] = d.shape[0]
                d = self.reshape(d, shape)
            else:
                d = self.diff(x, axis=axis)
        nd = y.ndim
        s1, s2 = [slice(None)] * nd, [slice(None)] * nd
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        return self.sum(d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0, axis=axis)
    trapz = trapezoid

    def interp(self, x, xp, fp, left=None, right=None, period=None):
        x, xp, fp = self._a(x), self._a(xp), self._a(fp)
        if period is not None:
            period = elem(period)
            if bool(sc.e_eq(period, 0)):
                raise ValueError("period must be a non-zero value")
            period = sc.e_abs(num(period))
            left = right = None
            if xp.ndim != 1 or fp.ndim != 1:
                raise ValueError("Data points must be 1-D sequences")
            if len(xp) != len(fp):
                raise ValueError("fp and xp are not of the same length")
            x, xp = x % period, xp % period
            order = self.argsort(xp)
            xp, fp = self._a(xp)[order], fp[order]
            xp = self.concat([xp[-1:] - period, xp, xp[:1] + period])
            fp = self.concat([fp[-1:], fp, fp[:1]])
        if xp.ndim != 1 or fp.ndim != 1:
            raise ValueError("Data points must be 1-D sequences")
        if len(xp) != len(fp):
            raise ValueError("fp and xp are not of the same length.")
        X, F = xp.a, fp.a
        n = len(X)
        if n == 0:
            raise ValueError("array of sample points is empty")
        lf = F[0] if left is None else elem(left)
        rt = F[-1] if right is None else elem(right)

        def f(e):
            for j in range(n):
                if _ident(e, X[j]) and not (j + 1 < n and _ident(X[j + 1], X[j])):
                    return F[j]
            if bool(sc.e_lt(e, X[0])):
                return lf
            if bool(sc.e_lt(X[-1], e)):
                return rt
            lo, hi = 1, n
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(sc.e_le(X[mid], e)):
                    lo = mid + 1
                else:
                    hi = mid
            j = lo - 1
            if j == n - 1:
                return F[-1]
            if _ident(F[j], F[j + 1]):
                return F[j]
            sl = sc.e_div(F[j + 1] - F[j], X[j + 1] - X[j])
            return sc.e_mul(sl, e - X[j]) + F[j]
        return wrap(_castarr(_frompy(f, 1)(x.a), F64), F64, self)

    def gradient(self, f, *varargs, axis=None, edge_order=1, **k):
        f = self._a(f)
        if f.ndim != 1:
            raise Unsupported("gradient of n-d arrays")
        n = len(f)
        if n < 2:
            raise ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.")
        o = np.empty((n,), dtype=object)
        v = f.a
        if not varargs:
            h = [Fraction(1)] * (n - 1)
        else:
            d = self._a(varargs[0])
            h = [elem(d)] * (n - 1) if d.ndim == 0 else list(self.diff(d).a)
        o[0] = sc.e_div(v[1] - v[0], h[0])
        o[-1] = sc.e_div(v[-1] - v[-2], h[-1])
        for i in range(1, n - 1):
            a, b = h[i - 1], h[i]
            o[i] = sc.e_div(a * a * v[i + 1] + (b * b - a * a) * v[i] - b * b * v[i - 1], a * b * (a + b))
        return A(o, F64, self)

    def vectorize(self, pyfunc, otypes=None, **k):
        ns = self

        def g(*args, **kw):
            rs = [raw(a) for a in args]
            bc = np.broadcast_arrays(*[r[0] for r in rs]) if rs else []
            shp = bc[0].shape if bc else ()
            o = np.empty(shp, dtype=object)
            dts = []
            ot = otypes
            for i in np.ndindex(*shp):
                v = pyfunc(*[wrap(_obj(b[i]), r[1], ns) for b, r in zip(bc, rs)], **kw)
                a, d, _ = raw(v)
                o[i] = a[()]
                dts.append(d)
            dt = to_dtype(ot[0] if not isinstance(ot, str) else ot[0]) if ot else (functools.reduce(promote, dts) if dts else F64)
            return wrap(_castarr(o, dt), dt, ns, scalar=False)
        return g

    def apply_along_axis(self, f, axis, arr, *args, **k):
        arr = self._a(arr)
        t = np.moveaxis(arr.a, axis, -1)
        outs = {}
        for i in np.ndindex(*t.shape[:-1]):
            outs[i] = self._a(f(A(t[i], arr.dt, self), *args, **k))
        if not outs:
            raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
        first = outs[next(iter(outs))]
        o = np.empty(t.shape[:-1] + first.shape, dtype=object)
        for i, v in outs.items():
            o[i] = v.a if v.ndim else v.a[()]
        if first.ndim == 0:
            return wrap(o, first.dt, self)
        ax = axis % arr.ndim
        # result axes replace the axis in place
        nd = t.ndim - 1
        perm = list(range(ax)) + [nd + j for j in range(first.ndim)] + list(range(ax, nd))
        return A(np.transpose(o, perm), first.dt, self)

    def apply_over_axes(self, *a): raise Unsupported("apply_over_axes")

    def ndindex(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return np.ndindex(*_shape(shape))

    def ndenumerate(self, x):
        for i in np.ndindex(*x.shape):
            yield i, x[i]

    def tril_indices(self, n, k=0, m=None): return tuple(self.asarray(a) for a in np.tril_indices(_op.index(n), k=k, m=m))
    def triu_indices(self, n, k=0, m=None): return tuple(self.asarray(a) for a in np.triu_indices(_op.index(n), k=k, m=m))
    def diag_indices(self, n, ndim=2): return tuple(self.asarray(a) for a in np.diag_indices(_op.index(n), ndim))

    def isnan(self, x): return self._test(x, lambda e: isinstance(e, float) and e != e)
    def isinf(self, x): return self._test(x, lambda e: isinstance(e, float) and e == e)
    def isfinite(self, x): return self._test(x, lambda e: not isinstance(e, float))

    def _test(self, x, f):
        x = self._a(x)
        g = lambda e: (f(e.re) or f(e.im)) if isinstance(e, SC) else f(e)
        return wrap(_frompy(g, 1)(x.a), BOOL, self)

    def nan_to_num(self, x, nan=0.0, posinf=None, neginf=None, **k):
        x = self._a(x)
        return wrap(_frompy(lambda e: num(nan) if isinstance(e, float) and e != e else e, 1)(x.a), x.dt, self)

    def copy(self, x, **k): return self._a(x).copy()
    def copyto(self, dst, src, **k): dst[...] = src

    def nextafter(self, x, y, **k):
        x = self._a(x)
        e0 = x.a
        # a float strictly next to x: modelled as a tiny relative step
        def f(e, t):
            d = Fraction(1, 2 ** 52)
            up = sc.e_lt(e, t)
            if bool(up):
                return e + d * sc.e_abs(e) if sc.e_eq(e, 0) is not True else Fraction(5, 10 ** 324)
            if bool(sc.e_eq(e, t)):
                return e
            return e - d * sc.e_abs(e) if sc.e_eq(e, 0) is not True else -Fraction(5, 10 ** 324)
        return wrap(_frompy(f, 2)(x.a, self._a(y).a), F64, self)

    def errstate(self, **k): return np.errstate(**k)

    # -- i/o stubs are installed by harnesses
    def savez(self, *a, **k): return self.stubs["savez"](*a, **k)
    def savez_compressed(self, *a, **k): return self.stubs["savez_compressed"](*a, **k)
    def load(self, *a, **k): return self.stubs["load"](*a, **k)
    def loadtxt(self, *a, **k): return self.stubs["loadtxt"](*a, **k)


class _Lazy:
    def __init__(self, dt): self.dt = dt


class LazyObj:
    @staticmethod
    def materialise(a, ctx, dt):
        if a.size > 4096:
            a = a.copy()
            a.fill(NAN if dt.kind == "f" else SC(NAN, NAN)) if a.ndim else None
            return a
        for i in np.ndindex(a.shape):
            v = ctx.S(ctx.fresh("uninit", kind="junk"))
            a[i] = v if dt.kind == "f" else SC(v, ctx.S(ctx.fresh("uninit", kind="junk")))
        return a


class UC(tuple):
    def __new__(cls, *a): return tuple.__new__(cls, a)
    values = property(lambda s: s[0])
    counts = property(lambda s: s[1])


class UI(UC):
    inverse_indices = property(lambda s: s[1])


class UA(UC):
    indices = property(lambda s: s[1])
    inverse_indices = property(lambda s: s[2])
    counts = property(lambda s: s[3])


def _iszero(e):
    if isinstance(e, S):
        return not e.n
    if isinstance(e, SC):
        return _iszero(e.re) and _iszero(e.im)
    return e == 0 and not isinstance(e, (float, SB))


def _ident(u, v):
    if u is v:
        return True
    if isinstance(u, (SB, SC)) or isinstance(v, (SB, SC)):
        return isinstance(u, SC) and isinstance(v, SC) and _ident(u.re, v.re) and _ident(u.im, v.im)
    if isinstance(u, float) or isinstance(v, float):
        return isinstance(u, float) and isinstance(v, float) and u == v
    if not isinstance(u, S) and not isinstance(v, S):
        return u == v
    return sc._same(u, v)


def _bal(f, v, unit):
    acc = unit
    for e in v:
        acc = f(acc, sc._bool(e))
        if acc is (not unit):
            return acc
    return acc


def _cf(k, kc=None):
    """unary kernel for reals (complex through kc)"""
    def f(e):
        if isinstance(e, (bool, SB)):
            e = int(bool(e))
        if isinstance(e, SC):
            if kc is None:
                raise Unsupported("complex argument")
            return kc(e)
        return k(e)
    return _frompy(f, 1)


def _flt(dt): return dt if dt.kind in "fc" else F64
def _same_dt(dt): return dt
def _real_dt(dt): return F64 if dt.kind == "c" else dt
def _bool_dt(dt): return BOOL


_UNARY = {
    "sqrt": (_cf(sc.e_sqrt), _flt), "exp": (_cf(sc.e_exp, sc.e_exp), _flt), "expm1": (_cf(sc.e_expm1), _flt),
    "log": (_cf(sc.e_log), _flt), "log1p": (_cf(sc.e_log1p), _flt),
    "log10": (_cf(lambda e: sc.e_div(sc.e_log(e), sc.e_log(Fraction(10)))), _flt),
    "log2": (_cf(lambda e: sc.e_div(sc.e_log(e), sc.e_log(Fraction(2)))), _flt),
    "sin": (_cf(sc.e_sin), _flt), "cos": (_cf(sc.e_cos), _flt), "tan": (_cf(sc.e_tan), _flt),
    "asin": (_cf(sc.e_asin), _flt), "arcsin": (_cf(sc.e_asin), _flt), "acos": (_cf(sc.e_acos), _flt), "arccos": (_cf(sc.e_acos), _flt),
    "atan": (_cf(sc.e_atan), _flt), "arctan": (_cf(sc.e_atan), _flt), "tanh": (_cf(sc.e_tanh), _flt),
    "abs": (_cf(sc.e_abs, sc.e_abs), _real_dt), "absolute": (_cf(sc.e_abs, sc.e_abs), _real_dt), "fabs": (_cf(sc.e_abs), _flt),
    "square": (_cf(lambda e: e * e if not isinstance(e, float) else abs(e), lambda e: e * e), _same_dt),
    "floor": (_cf(sc.e_floor), _flt), "ceil": (_cf(sc.e_ceil), _flt), "trunc": (_cf(sc.e_trunc), _flt), "rint": (_cf(sc.e_round), _flt),
    "sign": (_cf(sc.e_sign), _same_dt), "negative": (_NEG, _same_dt), "positive": (_frompy(lambda e: e, 1), _same_dt),
    "real": (_frompy(lambda e: e.re if isinstance(e, SC) else e, 1), _real_dt),
    "imag": (_frompy(lambda e: e.im if isinstance(e, SC) else Fraction(0), 1), _real_dt),
    "conj": (_frompy(lambda e: e.conjugate() if isinstance(e, SC) else e, 1), _same_dt),
    "conjugate": (_frompy(lambda e: e.conjugate() if isinstance(e, SC) else e, 1), _same_dt),
    "logical_not": (_frompy(lambda e: sc.e_not(sc._bool(e)), 1), _bool_dt), "invert": (_NOT, _same_dt), "bitwise_invert": (_NOT, _same_dt),
    "reciprocal": (_cf(lambda e: sc.e_div(1, e)), _flt),
    "radians": (_cf(lambda e: sc.e_mul(e, sc.PI() / 180)), _flt), "deg2rad": (_cf(lambda e: sc.e_mul(e, sc.PI() / 180)), _flt),
    "degrees": (_cf(lambda e: sc.e_div(sc.e_mul(e, 180), sc.PI())), _flt), "rad2deg": (_cf(lambda e: sc.e_div(sc.e_mul(e, 180), sc.PI())), _flt),
    "angle": (_frompy(lambda e: sc.e_atan2(e.im, e.re) if isinstance(e, SC) else sc.e_atan2(Fraction(0), e), 1), lambda d: F64),
    "signbit": (_frompy(lambda e: sc.e_lt(e, 0), 1), _bool_dt),
    "cbrt": (_cf(lambda e: sc.e_pow(e, Fraction(1, 3))), _flt),
    "sinc": (_cf(lambda e: Fraction(1) if bool(sc.e_eq(e, 0)) else sc.e_div(sc.e_sin(e * sc.PI()), e * sc.PI())), _flt),
    "exp2": (_cf(lambda e: sc.e_pow(Fraction(2), e)), _flt),
    "cosh": (_cf(lambda e: (sc.e_exp(e) + sc.e_exp(-e)) / 2), _flt), "sinh": (_cf(lambda e: (sc.e_exp(e) - sc.e_exp(-e)) / 2), _flt),
}


def _k2(kern, dt=None):
    def f(x, y):
        ns = x.ns if isinstance(x, A) else y.ns
        rx, ry = raw(x), raw(y)
        d = dt or result_dt(rx, ry)
        if dt is F64:
            pass
        return wrap(kern(rx[0], ry[0]), d, ns)
    return f


def _hyp(a, b): return sc.e_hypot(sc.cast_f(a), sc.cast_f(b)) if False else sc.e_hypot(a, b)


_BINARY = {
    "add": (_op.add,), "subtract": (_op.sub,), "multiply": (_op.mul,), "divide": (_op.truediv,), "true_divide": (_op.truediv,),
    "floor_divide": (_op.floordiv,), "remainder": (_op.mod,), "mod": (_op.mod,), "power": (_op.pow,), "pow": (_op.pow,), "float_power": (_op.pow,),
    "less": (_op.lt,), "less_equal": (_op.le,), "greater": (_op.gt,), "greater_equal": (_op.ge,), "equal": (_op.eq,), "not_equal": (_op.ne,),
    "logical_and": (_k2(_AND, BOOL),), "logical_or": (_k2(_OR, BOOL),), "logical_xor": (_k2(_XOR, BOOL),),
    "bitwise_and": (_op.and_,), "bitwise_or": (_op.or_,), "bitwise_xor": (_op.xor,),
    "hypot": (_k2(_frompy(sc.e_hypot, 2), F64),), "atan2": (_k2(_frompy(sc.e_atan2, 2), F64),), "arctan2": (_k2(_frompy(sc.e_atan2, 2), F64),),
    "copysign": (_k2(_frompy(lambda a, b: -sc.e_abs(a) if bool(sc.e_lt(b, 0)) else sc.e_abs(a), 2), F64),),
    "logaddexp": (_k2(_frompy(lambda a, b: sc.e_log(sc.e_exp(a) + sc.e_exp(b)), 2), F64),),
}

_STRUCT1 = set("flip roll tile squeeze expand_dims moveaxis swapaxes transpose tril triu diag diagonal rot90 flipud fliplr ravel "
               "delete rollaxis atleast_1d atleast_2d atleast_3d resize".split())
_STRUCTN = set("stack vstack hstack column_stack dstack block".split())
_PASS = set("seterr geterr printoptions iterable index_exp s_ ufunc typing void set_printoptions".split())


class Linalg:
    def __init__(self, ns):
        self.ns = ns
        self.contract = {}

    class LinAlgError(ValueError):
        pass
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        c = self.contract.get(name)
        if c is None:
            raise Unsupported(f"linalg.{name}")
        return c

    def diagonal(self, x, offset=0, **k):
        x = self.ns._a(x)
        return A(np.diagonal(x.a, offset=offset, axis1=-2, axis2=-1).copy(), x.dt, self.ns)

    def matrix_transpose(self, x): return self.ns._a(x).mT
    def matmul(self, x, y): return self.ns.matmul(x, y)
    def outer(self, x, y): return self.ns.outer(x, y)
    def vecdot(self, x, y, axis=-1): return self.ns.vecdot(x, y, axis=axis)
    def trace(self, x): return self.ns.sum(self.diagonal(x), axis=-1)

    def matrix_norm(self, x, ord="fro", keepdims=False, **k):
        if ord != "fro":
            raise Unsupported("matrix norm")
        x = self.ns._a(x)
        return self.ns.sqrt(self.ns.sum(self.ns.real(x * self.ns.conj(x)), axis=(-2, -1), keepdims=keepdims))

    def vector_norm(self, x, axis=None, ord=2, keepdims=False, **k):
        if ord != 2:
            raise Unsupported("vector norm")
        x = self.ns._a(x)
        return self.ns.sqrt(self.ns.sum(self.ns.real(x * self.ns.conj(x)), axis=axis, keepdims=keepdims))

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = self.ns._a(x)
        if ord in (None, "fro", 2) and not (ord == 2 and x.ndim == 2 and axis is None):
            return self.vector_norm(x, axis=axis, keepdims=keepdims)
        raise Unsupported("norm")

    def _det(self, m):
        n = len(m)
        if n == 0:
            return Fraction(1)
        if n == 1:
            return m[0][0]
        t = []
        for j in range(n):
            if not _iszero(m[0][j]):
                mn = [[r[c] for c in range(n) if c != j] for r in m[1:]]
                d = m[0][j] * self._det(mn)
                t.append(d if j % 2 == 0 else -d)
        return _sumlist(t, Fraction(0))

    def det(self, x):
        x = self.ns._a(x)
        o = np.empty(x.shape[:-2], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = self._det(x.a[i].tolist())
        return wrap(o, F64, self.ns)

    def _inv(self, m):
        """adjugate / determinant; raises LinAlgError on singular matrices"""
        n = len(m)
        d = self._det(m)
        if bool(sc.e_eq(d, 0)):
            raise np.linalg.LinAlgError("Singular matrix")
        r = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                mn = [[m[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
                c = self._det(mn)
                r[i][j] = sc.e_div(c if (i + j) % 2 == 0 else -c, d)
        return r

    # symmetric eigenvalue problem: fresh eigenpairs under their defining equations
    def _eigh1(self, m):
        n = len(m)
        low = [m[i][j] for i in range(n) for j in range(i + 1)]
        if n == 0:
            return [], []
        if n == 1:
            return [m[0][0]], [[Fraction(1)]]
        if not any(isinstance(e, sc.S) for e in low):
            if any(isinstance(e, float) for e in low):
                return [float("nan")] * n, [[float("nan")] * n for _ in range(n)]
            if all(_iszero(m[i][j]) for i in range(n) for j in range(i)):
                o = sorted(range(n), key=lambda i: m[i][i])
                return [m[i][i] for i in o], [[Fraction(int(i == k)) for k in o] for i in range(n)]
            a = np.array([[float(m[max(i, j)][min(i, j)]) for j in range(n)] for i in range(n)])
            w, v = np.linalg.eigh(a)
            return [Fraction(float(e)) for e in w], [[Fraction(float(e)) for e in r] for r in v]

        def make():
            ctx = sc.cur()
            w = [ctx.fresh("eigw", kind="contract") for _ in range(n)]
            v = [[ctx.fresh("eigv", lo=-1, hi=1, kind="contract") for _ in range(n)] for _ in range(n)]
            W = [ctx.S(q) for q in w]
            V = [[ctx.S(q) for q in r] for r in v]
            facts = []
            for i in range(n - 1):
                facts.append(sc._zle(ctx, W[i], W[i + 1], "le"))
            for i in range(n):
                for j in range(i + 1):
                    facts.append(sc._zle(ctx, m[i][j], _sumlist([V[i][k] * V[j][k] * W[k] for k in range(n)], Fraction(0)), "eq"))
                    d = Fraction(int(i == j))
                    facts.append(sc._zle(ctx, _sumlist([V[i][k] * V[j][k] for k in range(n)], Fraction(0)), d, "eq"))
                    facts.append(sc._zle(ctx, _sumlist([V[k][i] * V[k][j] for k in range(n)], Fraction(0)), d, "eq"))
            facts.append(sc._zle(ctx, _sumlist(W, Fraction(0)), _sumlist([m[i][i] for i in range(n)], Fraction(0)), "eq"))
            if n == 2:
                facts.append(sc._zle(ctx, W[0] * W[1], m[0][0] * m[1][1] - m[1][0] * m[1][0], "eq"))
            for z, vs in facts:
                for q in w:
                    ctx.defs[q.idx].append((frozenset(vs | {q.idx}), z))
                    break
            # every eigenvector entry pulls in the facts through the first eigenvalue
            tie = frozenset([w[0].idx])
            import z3
            for q in w[1:] + [q for r in v for q in r]:
                ctx.defs[q.idx].append((tie | {q.idx}, z3.BoolVal(True)))
            return W, V
        return sc._atom(f"eigh{n}", tuple(low), make)

    def _sq(self, x):
        x = self.ns._a(x)
        if x.ndim < 2 or x.shape[-1] != x.shape[-2]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return x

    def eigh(self, x, UPLO="L"):
        x = self._sq(x)
        if UPLO != "L":
            x = x.mT
        n = x.shape[-1]
        w = np.empty(x.shape[:-1], dtype=object)
        v = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-2]):
            W, V = self._eigh1(x.a[i].tolist())
            for p in range(n):
                w[i + (p,)] = W[p]
                for q in range(n):
                    v[i + (p, q)] = V[p][q]
        from collections import namedtuple
        return namedtuple("EighResult", "eigenvalues eigenvectors")(A(w, F64, self.ns), A(v, F64, self.ns))

    def eigvalsh(self, x, UPLO="L"):
        return self.eigh(x, UPLO)[0]

    def inv(self, x):
        x = self.ns._a(x)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-2]):
            r = self._inv(x.a[i].tolist())
            for p, row in enumerate(r):
                for q, e in enumerate(row):
                    o[i + (p, q)] = e
        return A(o, F64, self.ns)

    def solve(self, a, b):
        a, b = self.ns._a(a), self.ns._a(b)
        if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if b.ndim == 1:
            return self.ns.matmul(self.inv(a), b)
        return self.ns.matmul(self.inv(a), b)

    def cholesky(self, x, upper=False):
        x = self._sq(x)
        n = x.shape[-1]
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape[:-2]):
            m = x.a[i].tolist()
            L = [[Fraction(0)] * n for _ in range(n)]
            for r in range(n):
                for c in range(r + 1):
                    s = m[r][c] - _sumlist([L[r][k] * L[c][k] for k in range(c)], Fraction(0))
                    if r == c:
                        if not bool(sc.e_lt(0, s)):
                            raise np.linalg.LinAlgError("Matrix is not positive definite")
                        L[r][c] = sc.e_sqrt(s)
                    else:
                        L[r][c] = sc.e_div(s, L[c][c])
            for r in range(n):
                for c in range(n):
                    o[i + (r, c)] = L[c][r] if upper else L[r][c]
        return A(o, F64, self.ns)

    def qr(self, x, mode="reduced"):
        """Gram-Schmidt: the factors with a positive diagonal (full column rank)"""
        x = self.ns._a(x)
        m, n = x.shape[-2:]
        if mode not in ("reduced", "r") or m < n:
            raise Unsupported("qr mode")
        q, r = np.empty(x.shape, dtype=object), np.empty(x.shape[:-2] + (n, n), dtype=object)
        r[...] = Fraction(0)
        for i in np.ndindex(*x.shape[:-2]):
            a = x.a[i]
            us, ds = [], []
            for c in range(n):
                v = [a[k, c] for k in range(m)]
                u = list(v)
                for j in range(c):
                    p = _sumlist([us[j][k] * v[k] for k in range(m)], Fraction(0))
                    f = sc.e_div(p, ds[j])
                    u = [s - f * t for s, t in zip(u, us[j])]
                    r[i + (j, c)] = sc.e_mul(f, sc.e_sqrt(ds[j]))
                d = _sumlist([t * t for t in u], Fraction(0))
                if bool(sc.e_eq(d, 0)):
                    raise Unsupported("qr of dependent columns")
                us.append(u)
                ds.append(d)
                s = sc.e_sqrt(d)
                r[i + (c, c)] = s
                for k in range(m):
                    q[i + (k, c)] = sc.e_div(u[k], s)
        r = A(r, F64, self.ns)
        return r if mode == "r" else (A(q, F64, self.ns), r)

    def lstsq(self, a, b, rcond=None):
        """solution of the normal equations (full column rank)"""
        a, b = self.ns._a(a), self.ns._a(b)
        if a.ndim != 2 or b.ndim not in (1, 2) or a.shape[0] != b.shape[0]:
            raise np.linalg.LinAlgError("Incompatible dimensions")
        g = self._inv((a.mT @ a).a.tolist())
        x = A(np.array(g, dtype=object).reshape(a.shape[1], a.shape[1]), F64, self.ns) @ (a.mT @ b)
        res = b - a @ x
        return x, self.ns.sum(res * res, axis=0), a.shape[1], None


_HARMLESS = {"device", "order", "subok", "like", "casting", "copy", "kind", "assume_unique", "equal_nan", "optimize", "doc", "cache", "stable",
             "allow_pickle", "signature", "check_finite"}


def _keywords(cls, mod):
    """accept numpy's keyword names; refuse options that the symbolic version does not implement"""
    import inspect
    for n, f in list(vars(cls).items()):
        if n.startswith("_") or not inspect.isfunction(f) or not hasattr(mod, n) or n in ("savez", "savez_compressed", "load", "loadtxt", "errstate"):
            continue
        ps = list(inspect.signature(f).parameters.values())[1:]
        names = [p.name for p in ps if p.kind == p.POSITIONAL_OR_KEYWORD]
        varkw = any(p.kind == p.VAR_KEYWORD for p in ps)
        try:
            ref = [p.name for p in inspect.signature(getattr(mod, n)).parameters.values() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY)]
        except (TypeError, ValueError):
            continue
        alias = {}
        for i, (ours, theirs) in enumerate(zip(names, ref)):
            if i > 2:
                break
            if ours != theirs and theirs not in names and ours not in ref:
                alias[theirs] = ours
        alias.update({k: v for k, v in (("a_min", "min"), ("a_max", "max")) if n == "clip"})
        passes = {"pad": {"constant_values", "mode"}, "apply_along_axis": None}.get(n, set())
        keep = set(names) | {p.name for p in ps if p.kind == p.KEYWORD_ONLY}

        def g(self, *args, _f=f, _alias=alias, _keep=keep, _passes=passes, _n=n, **k):
            if not k:
                return _f(self, *args)
            out, kw = None, {}
            for q, v in k.items():
                q = _alias.get(q, q)
                if q in _keep or _passes is None or q in _passes:
                    kw[q] = v
                elif q == "out":
                    out = v[0] if isinstance(v, tuple) else v
                elif q in _HARMLESS or (q == "where" and v is True) or (q == "keepdims" and v is False) or v is None:
                    continue
                elif q == "dtype":
                    r = _f(self, *args, **{a: b for a, b in k.items() if a != "dtype"})
                    return self.asarray(r, dtype=v) if not isinstance(r, (tuple, list)) else r
                else:
                    raise Unsupported(f"{_n}({q}=)")
            r = _f(self, *args, **kw)
            if out is not None:
                out._inplace(self._a(r) if hasattr(self, "_a") else r)
                return out
            return r
        functools.update_wrapper(g, f)
        setattr(cls, n, g)


_keywords(NS, np)
_keywords(Linalg, np.linalg)
