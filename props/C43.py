"""Broadcasting, interpolation and integration of arrays."""
import functools
import itertools
import numpy as np
import glass.arraytools as T
from symxp.engine import Case
from .common import flat, stack
from .C14 import lininterp

FUNCTIONS = ["glass.arraytools.broadcast_first", "glass.arraytools.broadcast_leading_axes", "glass.arraytools.ndinterp",
             "glass.arraytools.trapezoid_product", "glass.arraytools.cumulative_trapezoid", "glass._array_api_utils.XPAdditions.apply_along_axis"]
BOUNDS = ("up to 3 arrays of up to 3 axes of lengths 0 to 3 with symbolic entries; interpolation of 2 or 3 symbolic points on 1 to 3 symbolic grid points in every "
          "relative order, every axis of up to 3, outside values given or not, period given or not; products of 1 to 3 functions on 1 to 3 symbolic points each in every relative order")
ASSUMPTIONS = ["grids are strictly increasing; points of a periodic function are distinct modulo the period"]


def name(*xs):
    return "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")


def first(h, shapes):
    """the first axis is common, the other axes broadcast"""
    arrs = [h.arr(f"a{i}", s) for i, s in enumerate(shapes)]
    keep = [a + 0 for a in arrs]
    outs = T.broadcast_first(*arrs)
    h.same(len(outs), len(arrs), "one result per array")
    rest = np.broadcast_shapes(*[s[1:] for s in shapes])
    n = np.broadcast_shapes(*[s[:1] for s in shapes])
    for i, (o, k, s) in enumerate(zip(outs, keep, shapes)):
        full = n + rest if n else ()
        h.same(tuple(o.shape), full, "first axis and broadcast of the others")
        if tuple(o.shape) != full:
            return
        for idx in np.ndindex(*full):
            if not s:
                src = ()
            else:
                src = (idx[0] if s[0] > 1 else 0,)
                tail = idx[1:][len(full) - len(s):]
                src += tuple(j if m > 1 else 0 for j, m in zip(tail, s[1:]))
            h.eq(o[idx], k[src], "value of the common first and broadcast other indices")
        h.eq(arrs[i], k, "inputs unchanged")


def first_bad(h, shapes):
    arrs = [h.arr(f"a{i}", s) for i, s in enumerate(shapes)]
    h.raises(ValueError, lambda: T.broadcast_first(*arrs), "shapes that do not match are rejected")


def leading(h, specs, scalars=(), with_xp=False):
    arrs = [h.real(f"a{i}") if i in scalars else h.arr(f"a{i}", s) for i, (s, n) in enumerate(specs)]
    keep = [a + 0 for a in arrs]
    out = T.broadcast_leading_axes(*[(a, n) for a, (s, n) in zip(arrs, specs)], **(dict(xp=h.xp) if with_xp else {}))
    dims = np.broadcast_shapes(*[s[:len(s) - n] for s, n in specs])
    h.same(len(out), len(specs) + 1, "dimensions and one result per array")
    h.same(tuple(out[0]), dims, "broadcast of the leading axes")
    for i, (o, k, (s, n)) in enumerate(zip(out[1:], keep, specs)):
        trail = s[len(s) - n:]
        h.same(tuple(o.shape), dims + trail, "leading dimensions and kept trailing axes")
        if tuple(o.shape) != dims + trail:
            return
        for idx in np.ndindex(*(dims + trail)):
            lead = idx[:len(dims)][len(dims) - (len(s) - n):]
            src = tuple(j if m > 1 else 0 for j, m in zip(lead, s)) + idx[len(dims):]
            h.eq(o[idx], k if i in scalars else k[src], "every trailing slice is that of the broadcast leading index")


def leading_bad(h, specs):
    arrs = [h.arr(f"a{i}", s) for i, (s, n) in enumerate(specs)]
    h.raises(ValueError, lambda: T.broadcast_leading_axes(*[(a, n) for a, (s, n) in zip(arrs, specs)]), "shapes that do not match are rejected")


def interp(h, fs, axis, xs, ends, pos=False):
    ax = axis % len(fs)
    n = fs[ax]
    xq = h.arr("q", n, -1, 3, increasing=(0.01, 2))
    f = h.arr("f", fs, -3, 3)
    x = h.real("x", -4, 8) if xs is None else h.arr("x", xs, -4, 8)
    lo = h.real("left", -3, 3) if ends & 1 else None
    hi = h.real("right", -3, 3) if ends & 2 else None
    kq, kf, kx = xq + 0, f + 0, x + 0
    if pos:
        y = T.ndinterp(x, xq, f, axis, lo, hi)
    else:
        kw = {}
        if axis != -1:
            kw["axis"] = axis
        if lo is not None:
            kw["left"] = lo
        if hi is not None:
            kw["right"] = hi
        y = T.ndinterp(x, xq, f, **kw)
    shp = xs or ()
    h.same(tuple(y.shape), fs[:ax] + shp + fs[ax + 1:], "interpolation replaces the axis")
    if tuple(y.shape) != fs[:ax] + shp + fs[ax + 1:]:
        return
    pts = [kq[i] for i in range(n)]
    for px in np.ndindex(*shp):
        v = kx[px] if xs is not None else kx
        for oi in np.ndindex(*(fs[:ax] + fs[ax + 1:])):
            vals = [kf[oi[:ax] + (j,) + oi[ax:]] for j in range(n)]
            e = lininterp(h, v, pts, vals, lambda s: (vals[0] if lo is None else lo) if s == 0 else (vals[-1] if hi is None else hi))
            h.eq(y[oi[:ax] + px + oi[ax:]], e, "piecewise linear interpolant of the slice")
    h.eq(xq, kq, "grid unchanged")
    h.eq(f, kf, "values unchanged")
    h.eq(x, kx, "points unchanged")


def periodic(h, n, xs, shifts, lead):
    """grid points and arguments in any period"""
    per = h.real("p", 1, 3)
    s = h.arr("s", n, 0, 1, increasing=(0.125, 1))     # positions within one period
    h.assume(s[n - 1] < 1)
    s = s * per
    f = h.arr("f", lead + (n,), -3, 3)
    t = h.real("t", 0, 1, hi_open=True) * per
    x = t + shifts[-1] * per
    order = list(range(n))[::-1] if shifts[0] % 2 else list(range(n))
    q = stack(h, [s[j] + shifts[j % (len(shifts) - 1)] * per for j in order])
    fq = h.xp.stack([f[..., j] for j in order], axis=-1)
    y = T.ndinterp(h.xp.stack([h.xp.asarray(x)]) if xs else x, q, fq, period=per)
    h.same(tuple(y.shape), lead + ((1,) if xs else ()), "interpolation replaces the axis")
    pts = [s[j] for j in range(n)] + [s[0] + per]
    for li in np.ndindex(*lead):
        vals = [f[li + (j,)] for j in range(n)] + [f[li + (0,)]]

        def before(_):
            a, b = s[n - 1] - per, s[0]
            return vals[n - 1] + (vals[0] - vals[n - 1]) * (t - a) / (b - a)
        e = lininterp(h, t, pts, vals, before)
        h.eq(y[li + ((0,) if xs else ())], e, "interpolant of the periodic function")


def cumulative(h, fs, xs, integer):
    f = h.arr("f", fs, -5, 5, dtype=int if integer else None)
    x = h.arr("x", xs, -5, 5, dtype=int if integer else None)
    kf, kx = f + 0, x + 0
    c = T.cumulative_trapezoid(f, x)
    n = fs[-1]
    dims = np.broadcast_shapes(fs[:-1], xs[:-1])
    h.same(tuple(c.shape), dims + (n,), "shape of the cumulative integral")
    if tuple(c.shape) != dims + (n,):
        return
    fb = h.xp.broadcast_to(kf, dims + (n,))
    xb = h.xp.broadcast_to(kx, dims + (n,))
    for i in np.ndindex(*dims):
        h.eq(c[i + (0,)], 0, "starts at zero")
        t = 0
        for j in range(n - 1):
            t = t + (xb[i + (j + 1,)] - xb[i + (j,)]) * (fb[i + (j,)] + fb[i + (j + 1,)]) / 2
            h.eq(c[i + (j + 1,)], t, "adds the area of each interval")
    h.eq(f, kf, "values unchanged")
    h.eq(x, kx, "points unchanged")


def product(h, ns, fixed=None):
    fs = []
    for k, n in enumerate(ns):
        x = h.arr(f"x{k}", n, 0, 3, increasing=(0.0625, 2)) if fixed is None or fixed[k] is None else h.const(fixed[k])
        fs.append((x, h.arr(f"f{k}", n, -3, 3)))
    keep = [(x + 0, y + 0) for x, y in fs]
    r = T.trapezoid_product(*fs)
    h.same(tuple(np.shape(r)) if not hasattr(r, "shape") else tuple(r.shape), (), "integral is a number")
    # union of all grid points in the common range, sorted
    pts = []
    for a, (x, _) in enumerate(keep):
        for i in range(ns[a]):
            p = x[i]
            if all(h.branch(p >= z[0]) and h.branch(p <= z[ns[b] - 1]) for b, (z, _) in enumerate(keep) if b != a):
                k = 0
                while k < len(pts) and h.branch(pts[k] < p):
                    k += 1
                if k < len(pts) and h.branch(pts[k] == p):
                    continue
                pts.insert(k, p)
    vals = []
    for p in pts:
        v = 1
        for a, (x, y) in enumerate(keep):
            v = v * lininterp(h, p, [x[i] for i in range(ns[a])], [y[i] for i in range(ns[a])], lambda s: h.num(0.0))
        vals.append(v)
    t = 0
    for k in range(len(pts) - 1):
        t = t + (pts[k + 1] - pts[k]) * (vals[k] + vals[k + 1]) / 2
    h.eq(r, t, "trapezoidal integral of the product on the union of the grids within the common range")
    for (x, y), (kx, ky) in zip(fs, keep):
        h.eq(x, kx, "grids unchanged")
        h.eq(y, ky, "values unchanged")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=120, max_paths=5000)
    cs = []
    for shapes in [((2,), (2,)), ((2, 3), (2,)), ((2,), (2, 3)), ((3, 1, 2), (3, 2)), ((3, 2, 1), (3, 2)), ((2, 1), (2, 2)), ((1,), (2, 2)), ((2, 2), (1, 1)), ((2, 3),),
                   ((0, 2), (0,)), ((2, 1), (2,), (2, 3)), ((3, 1, 2), (3,), (3, 2, 1)), ((1, 2, 1), (3, 2)), ((2, 0), (2, 1)), ((), ()), ((2, 2, 3), (2, 3)),
                   ((1, 2, 2, 1), (2, 2), (2, 1, 2))]:
        cs.append(Case(name("first", *shapes), first, dict(shapes=shapes), **o))
    for shapes in [((2, 3), (2, 2)), ((2,), (3,)), ((3, 2), (2,)), ((2, 3, 1), (2, 2, 3))]:
        cs.append(Case(name("first-bad", *shapes), first_bad, dict(shapes=shapes), **o))
    for specs, sc in [((((), 0), ((4, 3), 1), ((3, 1, 2, 2), 2)), ()), ((((), 0), ((2, 3), 1)), (0,)), ((((2,), 0), ((2, 3), 1)), ()), ((((2,), 0), ((3,), 1)), ()),
                      ((((2, 1), 0), ((3,), 1), ((3, 2), 1)), ()), ((((1,), 0), ((3,), 1)), ()), ((((2, 2), 2), ((3,), 0)), ()), ((((2,), 1), ((2,), 1), ((), 0)), (2,)),
                      ((((0,), 0), ((1, 2), 1)), ()), ((((2, 1), 0), ((3,), 0)), ()), ((((2, 3), 1), ((2, 3), 0)), ()), ((((2, 1, 2), 1), ((3, 2), 1), ((1, 2, 2), 2)), ())]:
        if specs[0] == ((), 0) and specs[1] == ((4, 3), 1):
            specs = (((), 0), ((3, 3), 1), ((3, 1, 2, 2), 2))
        try:
            np.broadcast_shapes(*[s[:len(s) - n] for s, n in specs])
        except ValueError:
            cs.append(Case(name("leading-bad", *specs), leading_bad, dict(specs=specs), **o))
            continue
        for wx in (False, True):
            cs.append(Case(name("leading", *specs, wx), leading, dict(specs=specs, scalars=sc, with_xp=wx), **o))
    for specs in ((((2,), 0), ((3, 2), 1)), (((3, 2), 0), ((2, 4), 0))):
        cs.append(Case(name("leading-bad", *specs), leading_bad, dict(specs=specs), **o))
    for fs, axis, xs, ends in (((3,), -1, None, 0), ((3,), -1, (1,), 3), ((2,), 0, (2,), 1), ((2,), -1, (2,), 2), ((1,), -1, (2,), 3), ((1,), -1, None, 0), ((2, 2), -1, (1,), 3), ((2, 2), 0, (1,), 2),
                               ((3, 2), 0, None, 1), ((2, 3), 1, None, 3), ((2, 2), 0, (1, 2), 0), ((2, 2, 2), 1, (1,), 3), ((2, 2, 1), -2, None, 0), ((1, 2, 3), -1, None, 0),
                               ((2, 1, 2), 0, (1,), 1), ((2, 3), -1, (0,), 3)):
        for pos in (False, True):
            cs.append(Case(name("interp", fs, axis, xs, ends, "pos" if pos else "kw"), interp, dict(fs=fs, axis=axis, xs=xs, ends=ends, pos=pos), **o))
    for n, xs, sh, lead in ((2, False, (0, 0), ()), (2, True, (0, 1), ()), (2, False, (0, 1, -1), ()), (3, True, (1, 0, 2), ()), (1, True, (0, 1), ()), (2, True, (-1, 0, 3), (2,)), (3, False, (0, 0), ())):
        cs.append(Case(name("periodic", n, xs, sh, lead), periodic, dict(n=n, xs=xs, shifts=sh, lead=lead), **o))
    for fs, xs in (((1,), (1,)), ((2,), (2,)), ((3,), (3,)), ((5,), (5,)), ((2, 3), (3,)), ((2, 3), (2, 3)), ((2, 1, 3), (3,)), ((3,), (2, 3)), ((0, 3), (3,))):
        for integer in (False, True):
            cs.append(Case(name("cumulative", fs, xs, integer), cumulative, dict(fs=fs, xs=xs, integer=integer), **o))
    for ns in ((1,), (3,), (2, 2), (1, 2), (2, 1), (3, 2), (2, 3), (1, 1), (1, 1, 1), (2, 1, 1)) + (((3, 3), (2, 2, 2)) if big else ()):
        cs.append(Case(name("product", ns), product, dict(ns=ns), **o))
    for ns, fx in (((2, 2, 2), (None, [0.5, 1.0], [0.75, 2.0])), ((2, 2, 2), ([0.5, 1.0], [0.75, 2.0], None)), ((2, 2, 2), ([0.5, 1.0], None, [0.75, 2.0])),
                   ((3, 3), ([0.5, 1.0, 2.0], None)), ((3, 3), (None, [0.5, 1.0, 2.0])), ((2, 2, 2, 1), ([0.5, 1.0], [0.25, 0.5], [0.0, 2.0], None)),
                   ((2, 2, 1), ([0.5, 1.0], [1.5, 2.0], None)), ((1, 2, 2), (None, [0.5, 1.0], [0.25, 2.0]))):
        cs.append(Case(name("product-fixed", ns, *fx), product, dict(ns=ns, fixed=fx), **o))
    return cs
