"""Helper functions across array libraries."""
import functools
import numpy as np
import glass._array_api_utils as U
from glass._array_api_utils import xp_additions as uxpx, numpy_fallback
from symxp.engine import Case
from .common import flat, trapz
from .C14 import lininterp

FUNCTIONS = ["glass._array_api_utils.xp_additions.*", "glass._array_api_utils.numpy_fallback", "glass.jax.trapezoid"]
BOUNDS = ("three faces of the array library (the reference one, one without the helpers, one with the name of JAX), arrays of up to 3 axes with 1 to 3 symbolic entries each, "
          "every combination of optional arguments; nested arguments and results of up to three levels")
ASSUMPTIONS = ["the functions of the array libraries themselves are modelled once, for all faces; replays use the real libraries",
               "interpolation grids increase; least-squares matrices have full column rank; jax.scipy.integrate.trapezoid is the trapezoidal rule"]
FACES = {"np": None, "strict": ("symxp_strict", False), "jax": ("jax.numpy", False)}


def own(h, x, label="array of the library of the caller"):
    """x belongs to the library of the harness"""
    if h.xp.__name__ == "numpy":
        return
    ns = getattr(x, "__array_namespace__", None)
    h.fact(ns is not None and ns() is h.xp, label)


def start(h):
    if h.sym and h.xp.__name__ == "jax.numpy":
        import jax.scipy.integrate
        h.stub(jax.scipy.integrate, "trapezoid", lambda y, x=None, dx=1.0, axis=-1: h.xp.trapezoid(y, x=x, dx=dx, axis=axis))


def at(x, i):
    return x[i] if i != () else x


def val(h, x, i=()):
    """element as comparable value"""
    return x[i] if getattr(x, "ndim", 0) else x


def trap(h, ys, xs, dx, axis, pos=False):
    start(h)
    y = h.arr("y", ys, -5, 5)
    x = h.arr("x", xs, -5, 5) if xs is not None else None
    d = h.real("dx", 0.125, 2) if dx else None
    ky = y + 0
    kw = {}
    if x is not None:
        kw["x"] = x
    if dx:
        kw["dx"] = d
    if axis != -1:
        kw["axis"] = axis
    r = uxpx.trapezoid(y, x, 1.0 if d is None else d, axis) if pos else uxpx.trapezoid(y, **kw)
    ax = axis % len(ys)
    shp = ys[:ax] + ys[ax + 1:]
    h.same(tuple(r.shape), shp, "axis is integrated")
    if shp:
        own(h, r)
    n = ys[ax]
    for i in np.ndindex(*shp):
        t = 0
        for k in range(n - 1):
            a, b = i[:ax] + (k,) + i[ax:], i[:ax] + (k + 1,) + i[ax:]
            w = (x[b] - x[a] if len(xs) > 1 else x[k + 1] - x[k]) if x is not None else (1.0 if d is None else d)
            t = t + w * (ky[a] + ky[b]) / 2
        h.eq(val(h, r, i), t, "trapezoidal rule")
    h.eq(y, ky, "values unchanged")


def interp(h, n, xs, ends, period=False):
    start(h)
    q, f = h.arr("q", n, 0, 1, increasing=(0.125, 0.5)), h.arr("f", n, -3, 3)
    x = h.real("x", -1, 3) if xs is None else h.arr("x", xs, -1, 3)
    lo = h.real("left", -3, 3) if ends & 1 else None
    hi = h.real("right", -3, 3) if ends & 2 else None
    kw = {}
    if lo is not None:
        kw["left"] = lo
    if hi is not None:
        kw["right"] = hi
    if period:
        kw["period"] = 4.0      # (larger than the range)
    kx = x + 0
    r = uxpx.interp(x, q, f, **kw)
    shp = xs or ()
    h.same(tuple(r.shape), shp, "one value per point")
    own(h, r)
    pts, vals = [q[i] for i in range(n)], [f[i] for i in range(n)]
    for i in np.ndindex(*shp):
        v = kx[i] if xs is not None else kx
        if period:
            v = v + 4 if h.branch(v < 0) else v

            def out(s):
                a, b = (pts[-1] - 4, pts[0]) if s == 0 else (pts[-1], pts[0] + 4)
                return vals[-1] + (vals[0] - vals[-1]) * (v - a) / (b - a)
        else:
            def out(s):
                return (vals[0] if lo is None else lo) if s == 0 else (vals[-1] if hi is None else hi)
        h.eq(val(h, r, i), lininterp(h, v, pts, vals, out), "piecewise linear interpolant")


def gradient(h, n):
    start(h)
    f = h.arr("f", n, -5, 5)
    r = uxpx.gradient(f)
    own(h, r)
    h.same(tuple(r.shape), (n,), "one value per entry")
    for i in range(n):
        a, b = max(i - 1, 0), min(i + 1, n - 1)
        h.eq(r[i], (f[b] - f[a]) / (b - a), "differences of the neighbours")


def lstsq(h, m, n, k, rcond):
    start(h)
    a = h.arr("a", (m, n), -2, 2)
    if m == n == 1:
        h.assume(a[0, 0] > 0.125)
    else:
        # full column rank
        a = h.xp.concat([h.const(np.eye(n)), a[n:, :]]) if m > n else h.const(np.eye(n)) + a * h.const(np.triu(np.ones((n, n)), 1))
    b = h.arr("b", (m,) if k is None else (m, k), -5, 5)
    seen = []
    if h.sym:
        lib = getattr(h.xp, "_numpy_face", h.xp) if h.xp.__name__ != "jax.numpy" else h.xp
    else:
        lib = h.xp if h.xp.__name__ == "jax.numpy" else np
    real = lib.linalg.lstsq

    def spy(a, b, rcond=None, **kw):
        seen.append(rcond)
        if not h.sym:
            return real(a, b, rcond=rcond, **kw)
        r = real(a, b)
        return r[0], r[1], r[2], lib.ones(n)
    h.stub(lib.linalg, "lstsq", spy)
    kw = dict(rcond=h.real("rcond", 0.0, 0.001)) if rcond else {}
    x, res, rank, s = uxpx.linalg_lstsq(a, b, **kw)
    h.same(len(seen), 1, "one solution")
    h.fact((seen[0] is None) == (not rcond), "cut-off is passed on")
    if rcond and seen[0] is not None:
        h.true(seen[0] == kw["rcond"], "cut-off is passed on")
    own(h, x)
    own(h, s)
    h.same(tuple(x.shape), (n,) if k is None else (n, k), "one solution per right-hand side")
    for c in range(1 if k is None else k):
        xc = [x[j] if k is None else x[j, c] for j in range(n)]
        r = [(b[i] if k is None else b[i, c]) - sum(a[i, j] * xc[j] for j in range(n)) for i in range(m)]
        for j in range(n):
            h.le(sum(r[i] * a[i, j] for i in range(m)), 0, "normal equations")
            h.le(-sum(r[i] * a[i, j] for i in range(m)), 0, "normal equations")


def einsum(h, spec, shapes):
    start(h)
    ops = [h.arr(f"o{i}", s, -3, 3) for i, s in enumerate(shapes)]
    r = uxpx.einsum(spec, *ops)
    ins, out = spec.split("->")
    ins = ins.split(",")
    size = {c: s for t, shp in zip(ins, shapes) for c, s in zip(t, shp)}
    h.same(tuple(r.shape), tuple(size[c] for c in out), "shape of the sum")
    own(h, r)
    inner = [c for c in size if c not in out]
    for i in np.ndindex(*[size[c] for c in out]):
        t = 0
        for j in np.ndindex(*[size[c] for c in inner]):
            env = dict(zip(out, i)) | dict(zip(inner, j))
            p = 1
            for o, s in zip(ops, ins):
                p = p * (o[tuple(env[c] for c in s)])
            t = t + p
        h.eq(val(h, r, i), t, "sum of products")


def along(h, shp, axis, extra, scalar):
    """a function of one-dimensional slices with inputs of its own"""
    start(h)
    a = h.arr("a", shp, -3, 3)
    u = h.real("u", -3, 3) if scalar else h.arr("u", shp[axis % len(shp)], -3, 3)
    ka, ku = a + 0, u + 0
    got = []

    def fn(p, arr, *args, **kw):
        got.append((args, kw))
        return p * arr * (kw["scale"] if "scale" in kw else 1) + (args[0] if args else 0)
    args = (h.real("off", -1, 1),) if extra else ()
    kw = dict(scale=h.real("scale", -1, 1)) if extra else {}
    r = uxpx.apply_along_axis(fn, (u,), axis, a, *args, **kw)
    h.same(tuple(r.shape), shp, "shape of the result")
    own(h, r)
    ax = axis % len(shp)
    for i in np.ndindex(*shp):
        e = ka[i] * (ku if scalar else ku[i[ax]])
        if extra:
            e = e * kw["scale"] + args[0]
        h.eq(r[i], e, "function of the slice")
    h.eq(a, ka, "input unchanged")


def vectorize(h, shp, two):
    start(h)
    a = h.arr("a", shp, -3, 3)
    calls = []
    if two:
        f = uxpx.vectorize(lambda x, y: x * x + y, otypes=(float,), xp=h.xp)
        b = h.arr("b", shp[-1:], -3, 3)
        r = f(a, b)
        e = lambda i: a[i] * a[i] + (b[i[-1]] if shp else b)
    else:
        f = uxpx.vectorize(lambda x: x * x + 1, otypes=(float,), xp=h.xp)
        r = f(a)
        e = lambda i: val(h, a, i) * val(h, a, i) + 1
    h.same(tuple(r.shape), shp, "shape of the argument")
    for i in np.ndindex(*shp):
        h.eq(val(h, r, i), e(i), "function of every element")


def angles(h, shp, deg):
    start(h)
    a = h.arr("a", shp, -400, 400)
    r = uxpx.degrees(a) if deg else uxpx.radians(a)
    own(h, r)
    h.same(tuple(r.shape), shp, "shape of the argument")
    for i in np.ndindex(*shp):
        h.eq(val(h, r, i), val(h, a, i) * 180 / h.pi() if deg else val(h, a, i) * h.pi() / 180, "conversion of the angle")


def indices(h):
    for shp in ((), (1,), (3,), (2, 3), (2, 0), (0,), (2, 1, 2)):
        h.same([tuple(i) for i in uxpx.ndindex(shp, xp=h.xp)], list(np.ndindex(*shp)), "indices in order")
    for n in range(5):
        for m in (None, 1, 2, 4):
            for k in (None, -2, -1, 1, 2):
                kw = {}
                if m is not None:
                    kw["m"] = m
                if k is not None:
                    kw["k"] = k
                r = uxpx.tril_indices(n, xp=h.xp, **kw)
                h.same(len(r), 2, "rows and columns")
                got = list(zip(*[[int(v) for v in flat(h, x)] for x in r]))
                h.same(got, [(i, j) for i in range(n) for j in range(n if m is None else m) if j <= i + (k or 0)], "lower triangle in order")
                own(h, r[0])
                own(h, r[1])


def isnp(h, x):
    if h.sym:
        return type(x).__name__ in ("A", "Sc") and x.ns.__name__ == "numpy"
    return isinstance(x, np.ndarray)


class Marker:
    pass


def fallback(h, variant):
    """arguments and results of delegated functions"""
    a, b, c = h.arr("a", 2, -3, 3), h.arr("b", (1, 2), -3, 3), h.arr("c", (), -3, 3)
    ka, kb, kc = a + 0, b + 0, c + 0
    mark = Marker()
    seen = {}

    def fn(*args, **kw):
        seen["args"], seen["kw"] = args, kw
        return ret(*args, **kw)
    wrapped = numpy_fallback(fn)
    h.same(getattr(wrapped, "__name__", None), "fn", "name is kept")
    foreign = h.xp.__name__ != "numpy"

    def arg(x, k, label="array arguments are those of the reference library"):
        h.fact(isnp(h, x), label)
        h.eq(x, k, "values of the arguments")

    if variant == "plain":
        def ret(x, y, z=None):
            return x * 2
        r = wrapped(a, b, z=c)
        arg(seen["args"][0], ka)
        arg(seen["args"][1], kb)
        arg(seen["kw"]["z"], kc)
        own(h, r)
        h.eq(r, ka * 2, "result")
    elif variant == "nested":
        def ret(x, d, *rest, opts):
            return {"s": x[0] + x[1], "t": (x[1], [d["k"], "text", mark, None, 3]), "l": [x[0], {"deep": (d["k"],)}]}
        r = wrapped([a, ka], {"k": b, "n": 5, "m": mark}, 3, "text", None, opts=(1, {"u": [c, mark, (a,)]}))
        x, d, three, text, none = seen["args"]
        h.same(type(x), list, "lists stay lists")
        arg(x[0], ka)
        arg(x[1], ka)
        h.same(type(d), dict, "dictionaries stay dictionaries")
        arg(d["k"], kb)
        h.fact(d["n"] == 5 and d["m"] is mark and three == 3 and text == "text" and none is None, "other arguments are untouched")
        o = seen["kw"]["opts"]
        h.same(type(o), tuple, "tuples stay tuples")
        arg(o[1]["u"][0], kc)
        h.fact(o[1]["u"][1] is mark and o[0] == 1, "other arguments are untouched")
        arg(o[1]["u"][2][0], ka)
        h.same(list(r), ["s", "t", "l"], "keys of the result")
        own(h, r["s"])
        h.eq(r["s"], ka * 2, "nested result")
        h.same((type(r["t"]), type(r["t"][1]), type(r["l"]), type(r["l"][1])), (tuple, list, list, dict), "structure of the result")
        own(h, r["t"][0])
        own(h, r["t"][1][0])
        h.eq(r["t"][1][0], kb, "nested result")
        h.fact(r["t"][1][1:] == ["text", mark, None, 3], "other results are untouched")
        own(h, r["l"][1]["deep"][0])
        h.eq(r["l"][1]["deep"][0], kb, "nested result")
    elif variant in ("kwonly", "deep"):
        def ret(n, *, arrs):
            return [(v,) for v in arrs["in"][0]]
        r = wrapped(1, arrs={"in": ([a, b],)})
        arg(seen["kw"]["arrs"]["in"][0][0], ka)
        arg(seen["kw"]["arrs"]["in"][0][1], kb)
        h.same(seen["args"], (1,), "other arguments are untouched")
        for x, k in zip(r, (ka, kb)):
            h.same(type(x), tuple, "structure of the result")
            own(h, x[0])
            h.eq(x[0], k, "nested result")
    elif variant == "none":
        def ret(*args, **kw):
            return mark
        h.fact(wrapped(1, "x", [2], k=(3,)) is mark, "result is untouched without arrays")
        h.same((seen["args"], seen["kw"]), ((1, "x", [2]), {"k": (3,)}), "arguments are untouched without arrays")
    elif variant == "scalar":
        def ret(x):
            return 3, "s", True, None
        h.same(wrapped(a), (3, "s", True, None), "other results are untouched")
    elif variant == "error":
        def ret(x):
            raise KeyError("inner")
        h.raises(KeyError, lambda: wrapped(a), "errors are passed on")
    elif variant in ("xp", "xpnone"):
        def ret(x, **kw):
            return x + 1
        r = wrapped(a, xp=h.xp if variant == "xp" else None)
        arg(seen["args"][0], ka)
        own(h, r)
        h.eq(r, ka + 1, "result")
    elif variant == "mutable":
        box = [a]

        def ret(x):
            x.append(4)
            return len(x)
        h.same(wrapped(box), 2, "result")
        h.same(len(box), 1, "lists of the caller are not modified")
    h.eq(a, ka, "input unchanged")
    h.eq(b, kb, "input unchanged")


def missing(h, backend):
    """the reference library is the default; the error without it names what is missing"""
    h.same(U.default_xp(backend).__name__, "numpy", "default library")
    e = U.CompatibleBackendNotFoundError("numpy", backend)
    h.fact(("numpy" in str(e)) if backend is None else (backend in str(e)), "error names the library")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=3000)
    cs = []
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")
    for f, face in FACES.items():
        for ys, xs, dx, axis in (((3,), None, False, -1), ((3,), None, True, -1), ((3,), (3,), False, -1), ((2, 3), None, True, 0), ((2, 3), None, False, 0), ((2, 3), (2,), False, 0),
                                 ((2, 3), (3,), True, -1), ((2, 3), (2, 3), False, 1), ((2, 2, 2), None, True, 1), ((1,), None, False, -1), ((2, 2, 2), (2,), False, -3)):
            for pos in (False, True):
                cs.append(Case(nm(f, "trapezoid", ys, xs, dx, axis, pos), trap, dict(ys=ys, xs=xs, dx=dx, axis=axis, pos=pos), face=face, **o))
        for n, xs, ends in ((2, None, 0), (2, None, 3), (3, (1,), 1), (2, (2,), 2), (2, (1, 2), 3), (1, (1,), 3), (3, (1,), 0)):
            if xs is None and f == "jax":
                xs = ()
            cs.append(Case(nm(f, "interp", n, xs, ends), interp, dict(n=n, xs=xs, ends=ends), face=face, **o))
        for n, xs in ((2, (1,)), (3, (1,)), (2, (2,))):
            cs.append(Case(nm(f, "interp-period", n, xs), interp, dict(n=n, xs=xs, ends=0, period=True), face=face, **o))
            cs.append(Case(nm(f, "interp-period-ends", n, xs), interp, dict(n=n, xs=xs, ends=3, period=True), face=face, **o))
        for n in (2, 3, 5):
            cs.append(Case(nm(f, "gradient", n), gradient, dict(n=n), face=face, **o))
        for m, n, k, rc in ((1, 1, None, False), (2, 1, None, True), (2, 2, None, False), (3, 2, None, True), (3, 2, 2, False), (2, 2, 1, True)):
            cs.append(Case(nm(f, "lstsq", m, n, k, rc), lstsq, dict(m=m, n=n, k=k, rcond=rc), face=face, **o))
        for spec, shapes in (("ij,j->i", ((2, 3), (3,))), ("ij,ij->", ((2, 2), (2, 2))), ("...,->...".replace("...", "i"), ((3,), ())), ("ij->ji", ((2, 3),)), ("i,j,k->kij", ((2,), (1,), (2,))), ("ii->i", ((2, 2),))):
            cs.append(Case(nm(f, "einsum", spec), einsum, dict(spec=spec, shapes=shapes), face=face, **o))
        for shp, axis, extra, sc in (((3,), -1, False, False), ((2, 3), 0, True, False), ((2, 3), 1, False, True), ((2, 1, 2), -2, True, True), ((2, 2, 2), 2, True, False)):
            cs.append(Case(nm(f, "along", shp, axis, extra, sc), along, dict(shp=shp, axis=axis, extra=extra, scalar=sc), face=face, **o))
        for shp, two in (((3,), False), ((2, 2), True), ((), False), ((0,), False)):
            if not (f == "jax" and shp == (0,)):
                cs.append(Case(nm(f, "vectorize", shp, two), vectorize, dict(shp=shp, two=two), face=face, **o))
        for shp in ((), (3,), (2, 2)):
            for deg in (False, True):
                cs.append(Case(nm(f, "angles", shp, deg), angles, dict(shp=shp, deg=deg), face=face, **o))
        cs.append(Case(nm(f, "indices"), indices, face=face, **o))
        for v in ("plain", "nested", "kwonly", "none", "scalar", "error", "xp", "xpnone", "mutable"):
            cs.append(Case(nm(f, "fallback", v), fallback, dict(variant=v), face=face, **o))
    for b in (None, "array_api_strict"):
        cs.append(Case(nm("missing", b), missing, dict(backend=b)))
    return cs
