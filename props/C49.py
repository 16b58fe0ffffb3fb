"""Wrapped HEALPix operations."""
import inspect
import os
import types
import numpy as np
import glass.healpix as H
from symxp.engine import Case
from .C44 import FACES, own, isnp

FUNCTIONS = ["glass.healpix.*", "glass._array_api_utils.numpy_fallback"]
BOUNDS = ("symbolic resolutions, mode limits, spins, angles, maps and coefficients (arrays of up to 2 axes and 6 entries, single or in lists), every combination of the flags, "
          "three faces of the array library, data path unset, a directory, a file or missing")
ASSUMPTIONS = ["the library operations are replaced by recorders with the same signatures and arbitrary (symbolic) results"]


def lib(h, module, name, result):
    """recorder in place of a library operation; the calls with all their arguments by name"""
    sig = inspect.signature(getattr(module, name))
    calls = []

    def op(*a, **k):
        b = sig.bind(*a, **k)
        given = dict(b.arguments)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return result() if callable(result) else result
    h.stub(module, name, op)
    op.defaults = {k: p.default for k, p in sig.parameters.items() if p.default is not p.empty}
    return op, calls


IGNORED = ("verbose",)


def check(h, op, calls, given, exact=()):
    """one call, with the given arguments under their names and defaults for all others"""
    h.same(len(calls), 1, "one call of the library operation")
    if not calls:
        return
    got = calls[0]
    for k, v in got.items():
        if k in IGNORED:
            continue
        want = given[k] if k in given else op.defaults.get(k, "missing")
        compare(h, v, want, k)
    h.same(sorted(set(given) - set(got)), [], "all arguments are passed")


def compare(h, v, want, k):
    label = f"argument {k}"
    if isinstance(want, (list, tuple)):
        h.fact(isinstance(v, (list, tuple)) and len(v) == len(want), label + " is a sequence")
        for a, b in zip(v, want):
            compare(h, a, b, k)
    elif want is None or isinstance(want, (bool, str)):
        h.fact(v is want or (isinstance(want, (bool, str)) and v == want and type(v) is type(want)), f"{label}: {v!r} vs {want!r}" if not h.sym else label)
    elif getattr(want, "shape", None) not in (None, ()):
        h.fact(isnp(h, v), label + " is an array of the reference library")
        h.eq(h.xp.asarray(v), h.xp.asarray(want), label)
    else:
        h.eq(v, want, label)


def cplx(h, name, shape):
    return h.arr(name, shape, -3, 3, dtype=complex)


def npface(h, x):
    """array of the reference library, as results of library operations are"""
    if h.sym:
        face = getattr(h.xp, "_numpy_face", None) or h.xp
        return type(x)(x.a, x.dt, face)
    return np.asarray(x).copy()


def flag(h, name):
    return bool(h.branch(h.int(name, 0, 1) == 1))


def opt(h, name, lo=0, hi=100):
    """absent, None or a number"""
    k = h.int("has_" + name, 0, 2)
    if h.branch(k == 0):
        return {}
    if h.branch(k == 1):
        return {name: None}
    return {name: h.int(name, lo, hi)}


def alm2map(h, many):
    alms = [cplx(h, f"a{i}", 3) for i in range(3)] if many else cplx(h, "a", 3)
    res = [h.arr(f"m{i}", 4, -3, 3) for i in range(3)] if many else h.arr("m", 4, -3, 3)
    out = [npface(h, r) for r in res] if many else npface(h, res)
    op, calls = lib(h, H.healpy, "alm2map", out)
    kw = {k: flag(h, k) for k in ("inplace", "pixwin", "pol")} | opt(h, "lmax")
    ns = h.int("nside", 1, 64)
    r = H.alm2map(alms, ns, **kw)
    check(h, op, calls, dict(alms=alms, nside=ns, **kw))
    result(h, r, res)


def result(h, r, res):
    if isinstance(res, (list, tuple)):
        h.same((type(r), len(r)), (type(res), len(res)), "structure of the result")
        for a, b in zip(r, res):
            own(h, a)
            h.eq(a, b, "result")
    else:
        own(h, r)
        h.eq(r, res, "result")


def alm2map_spin(h, out):
    alms = [cplx(h, f"a{i}", 3) for i in range(2)]
    res = [h.arr(f"m{i}", 4, -3, 3) for i in range(2)]
    ret = [npface(h, r) for r in res]
    if out == "array":
        face = (getattr(h.xp, "_numpy_face", None) or h.xp) if h.sym else np
        ret = face.stack(ret)
    op, calls = lib(h, H.healpy, "alm2map_spin", ret if out != "tuple" else tuple(ret))
    ns, s, l = h.int("nside", 1, 64), h.int("spin", 0, 5), h.int("lmax", 0, 99)
    r = H.alm2map_spin(alms, ns, s, l)
    check(h, op, calls, dict(alms=alms, nside=ns, spin=s, lmax=l))
    result(h, r, res)


def almxfl(h):
    alm, fl = cplx(h, "a", 3), h.arr("f", 2, -3, 3)
    res = cplx(h, "r", 3)
    op, calls = lib(h, H.healpy, "almxfl", npface(h, res))
    kw = {"inplace": flag(h, "inplace")} if flag(h, "has_inplace") else {}
    r = H.almxfl(alm, fl, **kw)
    check(h, op, calls, dict(alm=alm, fl=fl, **kw))
    result(h, r, res)


def ang2pix(h, shp):
    th, ph = h.arr("th", shp, 0, 3), h.arr("ph", shp, 0, 6)
    res = h.arr("r", shp, 0, 100, dtype=int)
    op, calls = lib(h, H.healpix, "ang2pix", npface(h, res))
    ns = h.int("nside", 1, 64)
    kw = {"lonlat": flag(h, "lonlat")} if flag(h, "has_lonlat") else {}
    r = H.ang2pix(ns, th, ph, **kw)
    check(h, op, calls, dict(nside=ns, theta=th, phi=ph, **kw))
    result(h, r, res)


def ang2vec(h, shp):
    th, ph = h.arr("th", shp, 0, 3), h.arr("ph", shp, 0, 6)
    res = tuple(h.arr(f"r{i}", shp, -1, 1) for i in range(3))
    op, calls = lib(h, H.healpix, "ang2vec", tuple(npface(h, x) for x in res))
    kw = {"lonlat": flag(h, "lonlat")} if flag(h, "has_lonlat") else {}
    r = H.ang2vec(th, ph, **kw)
    check(h, op, calls, dict(theta=th, phi=ph, **kw))
    result(h, r, res)


def get_nside(h):
    m, ns = h.arr("m", 4, -3, 3), h.int("ns", 1, 9999)
    op, calls = lib(h, H.healpy, "get_nside", ns)
    r = H.get_nside(m)
    check(h, op, calls, dict(m=m))
    h.eq(r, ns, "result")
    if not h.sym:
        h.same(type(r), int, "type of the result")


def counts(h):
    a, b = h.int("n", 1, 10**6), h.int("m", 1, 10**6)
    op, calls = lib(h, H.healpix, "npix2nside", b)
    h.eq(H.npix2nside(a), b, "result")
    check(h, op, calls, dict(npix=a))
    op, calls = lib(h, H.healpix, "nside2npix", a)
    h.eq(H.nside2npix(b), a, "result")
    check(h, op, calls, dict(nside=b))


PATHS = {"unset": None, "dir": os.path.dirname(os.path.abspath(__file__)), "file": os.path.abspath(__file__), "missing": "/nonexistent/path/for/C49", "nested": os.path.join(os.path.abspath(__file__), "x")}


def environ(h, path):
    env = {k: v for k, v in os.environ.items() if k != "HEALPY_DATAPATH"}
    if PATHS[path] is not None:
        env["HEALPY_DATAPATH"] = PATHS[path]
    h.stub(os, "environ", env)


def map2alm(h, many, path):
    environ(h, path)
    maps = [h.arr(f"m{i}", 4, -3, 3) for i in range(3)] if many == "list" else h.arr("m", (3, 4) if many == "array" else 4, -3, 3)
    res = [cplx(h, f"a{i}", 3) for i in range(3)] if many else cplx(h, "a", 3)
    out = [npface(h, r) for r in res] if many else npface(h, res)
    op, calls = lib(h, H.healpy, "map2alm", out)
    kw = ({k: flag(h, k) for k in ("pol", "use_pixel_weights")} if flag(h, "has_flags") else {}) | opt(h, "lmax")
    if path in ("file", "missing", "nested"):
        h.raises(ValueError, lambda: H.map2alm(maps, **kw), "data path that is not a directory is rejected")
        h.same(len(calls), 0, "no call")
        return
    r = H.map2alm(maps, **kw)
    check(h, op, calls, dict(maps=maps, datapath=PATHS[path], **kw))
    result(h, r, res)


def pixwin(h, path, withxp=True):
    environ(h, path)
    pol = flag(h, "pol")
    res = tuple(h.arr(f"w{i}", 3, 0, 1) for i in range(2)) if pol else h.arr("w", 3, 0, 1)
    op, calls = lib(h, H.healpy, "pixwin", tuple(npface(h, x) for x in res) if pol else npface(h, res))
    ns = h.int("nside", 1, 64)
    kw = ({"pol": pol} if pol or flag(h, "has_pol") else {}) | opt(h, "lmax")
    if withxp:
        xkw = {"xp": h.xp}
    else:
        xkw = {}
    if path in ("file", "missing", "nested"):
        h.raises(ValueError, lambda: H.pixwin(ns, **kw, **xkw), "data path that is not a directory is rejected")
        h.same(len(calls), 0, "no call")
        return
    r = H.pixwin(ns, **kw, **xkw)
    check(h, op, calls, dict(nside=ns, datapath=PATHS[path], **kw))
    result(h, r, res)
    for x in (r if pol else [r]):
        h.same(np.dtype(str(x.dtype).split(".")[-1]), np.dtype("float64"), "type of the result")


def query(h):
    a, b = h.real("a", 0, 3), h.real("b", 0, 3)
    op, calls = lib(h, H.healpy, "query_strip", lambda: np.asarray([1, 4]))
    r = H.query_strip(1, (a, b), xp=h.xp)
    check(h, op, calls, dict(nside=1, theta1=a, theta2=b))
    h.eq(r, h.const([1 if i in (1, 4) else 0 for i in range(12)]), "mask")


def randang(h, n, withrng):
    ipix = h.arr("ipix", n, 0, 11, dtype=int)
    res = (h.arr("t", n, 0, 3), h.arr("p", n, 0, 6))
    op, calls = lib(h, H.healpix, "randang", tuple(npface(h, x) for x in res))
    op.defaults["rng"] = None
    ns = h.int("nside", 1, 64)
    kw = {"lonlat": flag(h, "lonlat")} if flag(h, "has_lonlat") else {}
    made = []
    if not withrng:
        import glass.rng
        h.stub(glass.rng, "default_rng", lambda *, seed=42, xp: made.append((seed, xp.__name__)) or made)
    marker = types.SimpleNamespace(random=lambda size, dtype=None: None)
    r = H.randang(ns, ipix, **kw, **({"rng": marker} if withrng else {}))
    h.same(len(calls), 1, "one call of the library operation")
    got = calls[0]
    if withrng:
        h.fact(got["rng"] is not None, "generator is passed on")
    else:
        h.same((got["rng"] is made, made), (True, [(42, "numpy")]), "default generator of the reference library")
    compare(h, got["nside"], ns, "nside")
    compare(h, got["ipix"], ipix, "ipix")
    compare(h, bool(got["nest"]), False, "nest")
    compare(h, got["lonlat"], kw.get("lonlat", False), "lonlat")
    result(h, r, res)


def rotator(h, coord):
    made, maps = [], []
    m, res = h.arr("m", 4, -3, 3), h.arr("r", 4, -3, 3)
    sig = inspect.signature(H.healpy.Rotator.__init__)

    class Rotator:
        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            made.append({n: v for n, v in b.arguments.items() if n != "self"})

        def rotate_map_pixel(self, m):
            maps.append(m)
            return npface(h, res)
    h.stub(H.healpy, "Rotator", Rotator)
    r = H.Rotator(coord=coord) if coord != "-" else H.Rotator()
    out = r.rotate_map_pixel(m)
    h.same(len(made), 1, "one rotation")
    h.same(made[0], dict(rot=None, coord=None if coord == "-" else coord, inv=made[0]["inv"], deg=True, eulertype="ZYX"), "coordinate systems are passed on")
    h.fact(not made[0]["inv"], "rotation is not inverted")
    h.same(len(maps), 1, "one map is rotated")
    compare(h, maps[0], m, "map")
    result(h, out, res)


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=2000)
    cs = []
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")
    add = lambda f, name, fn, **p: cs.append(Case(nm(f, name, *p.values()), fn, p, face=FACES[f], **o))
    for f in FACES:
        for many in (False, True):
            add(f, "alm2map", alm2map, many=many)
        for out in ("list", "tuple", "array"):
            add(f, "alm2map_spin", alm2map_spin, out=out)
        add(f, "almxfl", almxfl)
        for shp in ((3,), (2, 2)):
            add(f, "ang2pix", ang2pix, shp=shp)
            add(f, "ang2vec", ang2vec, shp=shp)
        add(f, "get_nside", get_nside)
        for many in (None, "list", "array"):
            for path in PATHS:
                if many is None or path in ("unset", "dir"):
                    add(f, "map2alm", map2alm, many=many, path=path)
        for path in PATHS:
            add(f, "pixwin", pixwin, path=path)
        add(f, "query", query)
        for w in (False, True):
            add(f, "randang", randang, n=2, withrng=w)
        for c in ("-", "GC", "CE", ["C", "G"], None):
            add(f, "rotator", rotator, coord=c)
    add("np", "pixwin-noxp", pixwin, path="unset", withxp=False)
    add("np", "counts", counts)
    return cs
