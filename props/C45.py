"""Random number generators: wrappers, keys under concurrency, defaults."""
import itertools
import threading
import types
import numpy as np
import glass.healpix
import glass.rng as R
import glass.galaxies
import glass.points
import glass.shapes
import glass.fields
from symxp.engine import Case, FakeRNG
from .common import nested
from .C44 import FACES, own, isnp

try:
    import jax
    import jax.numpy
    import glass.jax as GJ
except ImportError:
    jax = GJ = None

FUNCTIONS = ["glass.rng.default_rng", "glass.rng.Generator.*", "glass.jax.Generator.*", "glass.jax._shape", "glass.healpix.randang", "glass.healpix._WritableGenerator.random"]
BOUNDS = ("symbolic locations, scales, bounds, rates, probabilities and draws in arrays of up to 2 axes and 6 entries, three faces of the array library; for the key-based generator two threads "
          "with one or two operations each (all pairs of the eight operations), all orders of their shared reads, writes and lock operations, and one operation after both")
ASSUMPTIONS = ["jax.random.split applied to different keys, or at different positions, gives different keys", "each attribute access and lock operation is atomic; operations do not branch on the value of a key",
               "the events of an operation are recorded from a run of the real code on real keys; the order of the events of two threads is decided by the solver"]


# ------------------------------------------------------------------ wrappers around another generator

class Source:
    """generator whose draws are arbitrary arrays of the reference library; records how it was called"""

    def __init__(self, h, shape, scalar=False, dtype=None):
        self.h, self.calls = h, []
        self.shape, self.scalar, self.dtype = shape, scalar, dtype

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def draw(*args, **kw):
            h = self.h
            n = f"src.{name}{len(self.calls)}"
            lo, hi = (0, 5) if self.dtype is int else (-3, 3)
            if self.scalar:
                r = h.int(n, lo, hi) if self.dtype is int else h.real(n, lo, hi)
                keep = r
            else:
                face = getattr(h.xp, "_numpy_face", None) or h.xp
                if h.sym:
                    r = h.arr(n, self.shape, lo, hi, dtype=self.dtype, face=face)
                    keep = r + 0
                else:
                    r = np.asarray(h.arr(n, self.shape, lo, hi, dtype=self.dtype))
                    keep = r.copy()
            self.calls.append((name, args, kw, keep))
            return r
        return draw


ORDER = {"random": ("size",), "standard_normal": ("size",), "normal": ("loc", "scale", "size"), "uniform": ("low", "high", "size"), "poisson": ("lam", "size"), "multinomial": ("n", "pvals", "size")}
DEFAULT = {"size": None, "loc": 0.0, "scale": 1.0, "low": 0.0, "high": 1.0}


def wrapper(h, dist, given, size, dtype=None, pos=False, scalar=False):
    """the wrapped generator's draw, in the array library of the wrapper"""
    vals = {}
    for k in given:
        vals[k] = h.int("v" + k, 0, 4) if k == "n" else h.arr("v" + k, 3, 0, 1)
    kw = dict(vals)
    if size != "-":
        kw["size"] = size
    shape = (3,) if scalar is False else ()
    src = Source(h, shape, scalar, int if dist in ("poisson", "multinomial") else None)
    rng = R.Generator(rng=src, xp=h.xp)
    h.fact(rng.rng is src, "given generator is used")
    extra = {} if dtype is None else {"dtype": getattr(h.xp, dtype)}
    fn = getattr(rng, dist)
    if pos:
        args = [kw.get(k, DEFAULT.get(k)) for k in ORDER[dist]]
        r = fn(*args, **extra)
    else:
        r = fn(**kw, **extra)
    h.same(len(src.calls), 1, "one draw of the wrapped generator")
    name, args, kws, keep = src.calls[0]
    h.same(name, dist, "distribution")
    seen = dict(zip(ORDER[dist], args)) | {k: v for k, v in kws.items() if k != "dtype"}
    for k in ORDER[dist]:
        want = kw.get(k, DEFAULT.get(k))
        got = seen.get(k, DEFAULT.get(k))
        if k in vals:
            h.eq(h.xp.asarray(got), h.xp.asarray(want), f"argument {k} is passed on")
        else:
            h.same(got, want, f"argument {k} is passed on")
    own(h, r)
    h.same(tuple(r.shape), tuple(np.shape(keep) if not h.sym else getattr(keep, "shape", ())), "shape of the draw")
    h.eq(r, keep, "value of the draw")
    dt = np.dtype(str(r.dtype).split(".")[-1])
    if dist in ("random", "standard_normal"):
        h.same(dt, np.dtype(dtype or "float64"), "type of the draw")
    elif not scalar:
        h.same(dt.kind, "i" if dist in ("poisson", "multinomial") else "f", "type of the draw")


def seeds(h, which, seed):
    """the default generator of every library is seeded with the given seed or the fixed default"""
    kw = {} if seed is None else {"seed": h.int("seed", 0, 2**31 - 1) if seed == "int" else h.arr("seed", 3, 0, 1000, dtype=int)}
    made = []

    class Made:
        def __init__(self, seed=None, **k):
            made.append(seed)
    lib = (getattr(h.xp, "_numpy_face", None) or h.xp) if h.sym else np
    h.stub(lib, "random", types.SimpleNamespace(default_rng=Made, Generator=Made))
    key = h.xp.__name__ == "jax.numpy"
    if key:
        h.stub(GJ, "Generator", Made)
    r = R.default_rng(xp=h.xp, **kw) if which == "default_rng" else R.Generator(xp=h.xp, **kw)
    h.same(len(made), 1, "one generator is made")
    if seed is None:
        h.fact(made[0] == 42, "fixed default seed")
    else:
        h.eq(h.xp.asarray(made[0]), h.xp.asarray(kw["seed"]), "seed is passed on")
    if which == "default_rng" and h.xp.__name__ in ("numpy", "jax.numpy"):
        h.fact(isinstance(r, Made), "generator of the library itself")
    else:
        h.fact(isinstance(r, R.Generator) and r.xp is h.xp and isinstance(r.rng, Made), "wrapped generator of the library")


def defaults(h, what):
    """functions without a generator draw from one with the fixed seed, and with a generator only from it"""
    made, foreign = [], []

    def make(seed=None, **k):
        made.append(seed)
        return FakeRNG(h, f"made{len(made)}", poisson_max=1)
    lib = (getattr(h.xp, "_numpy_face", None) or h.xp) if h.sym else np
    h.stub(lib, "random", types.SimpleNamespace(default_rng=make, Generator=type("G", (), {})))
    fn = CALLS[what]
    fn(h, None)
    h.fact(len(made) >= 1 and all(s == 42 for s in made), "fixed default seed without a generator")
    n = len(made)
    g = FakeRNG(h, "given", poisson_max=1)
    fn(h, g)
    h.same(len(made), n, "no other generator is made when one is given")
    h.fact(len(g.calls) >= 1, "draws come from the given generator")


def _call_positions(h, rng):
    h.stub(glass.healpix.healpix, "randang", lambda nside, ipix, nest=False, lonlat=False, rng=None: (rng.random(ipix.shape, np.double) * 0, rng.random(ipix.shape, np.double) * 0))
    list(glass.points.positions_from_delta(h.xp.asarray([0.5 + 0 * i for i in range(12)]), h.xp.zeros(12), remove_monopole=False, rng=rng))


CALLS = {
    "uniform_positions": lambda h, rng: list(glass.points.uniform_positions(h.xp.asarray(0.0), rng=rng)),
    "redshifts_from_nz": lambda h, rng: glass.galaxies.redshifts_from_nz(1, h.xp.asarray([0.0, 1.0]), h.xp.asarray([1.0, 1.0]), rng=rng, warn=False),
    "redshifts": lambda h, rng: glass.galaxies.redshifts(1, glass.RadialWindow(h.xp.asarray([0.0, 1.0]), h.xp.asarray([1.0, 1.0]), 0.5), rng=rng),
    "phz": lambda h, rng: glass.galaxies.gaussian_phz(h.xp.asarray([1.0]), 0.0, rng=rng),
    "triaxial": lambda h, rng: glass.shapes.triaxial_axis_ratio(h.xp.asarray(0.5), h.xp.asarray(0.75), size=(1,), rng=rng),
    "intnorm": lambda h, rng: glass.shapes.ellipticity_intnorm(h.xp.asarray([1]), h.xp.asarray([0.0]), rng=rng),
    "ryden04": lambda h, rng: glass.shapes.ellipticity_ryden04(h.xp.asarray(-1.0), 0.0, 0.5, 0.0, size=(1,), rng=rng),
}


# ------------------------------------------------------------------ healpix sampling

def randang(h, n, lonlat):
    """random positions within pixels come from the given generator, whatever the library"""
    ipix = h.xp.asarray(list(range(n)))
    src = Source(h, (n,))
    seen = []

    def lib(nside, ipix, nest=False, lonlat=False, rng=None):
        h.same((nside, nest), (4, False), "resolution is passed on")
        seen.append(lonlat)
        u = rng.random(ipix.shape, np.double)
        v = rng.random(ipix.shape, np.double)
        h.fact(isnp(h, u) and isnp(h, v), "draws are arrays of the reference library")
        u *= 2
        v += 1
        return u, v
    h.stub(glass.healpix.healpix, "randang", lib)
    a, b = glass.healpix.randang(4, ipix, lonlat=lonlat, rng=src)
    h.same(seen, [lonlat], "flag is passed on")
    h.same([c[0] for c in src.calls], ["random", "random"], "draws come from the given generator")
    own(h, a)
    own(h, b)
    h.eq(a, h.xp.asarray(src.calls[0][3]) * 2, "first angle from the first draw")
    h.eq(b, h.xp.asarray(src.calls[1][3]) + 1, "second angle from the second draw")


# ------------------------------------------------------------------ the key-based generator: arguments

def bshape(*shapes):
    return np.broadcast_shapes(*shapes)


def start(h):
    """symbolic draws of jax.random; returns the list of calls"""
    calls = []
    if h.sym:
        for k, v in list(vars(GJ).items()):
            if v is jax.numpy:
                h.stub(GJ, k, h.xp)

    def shp(s):
        return tuple(int(v) for v in s) if s is not None else None

    def draw(name, s, lo, hi, dtype=None):
        v = h.arr(f"{name}{len(calls)}", s, lo, hi, dtype=dtype)
        return v

    def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0, **k):
        u = draw("u", shp(shape), 0, 1)
        calls.append(("uniform", key, shp(shape), dtype, u))
        return minval + (maxval - minval) * u

    def normal(key, shape=(), dtype=None, **k):
        u = draw("z", shp(shape), -3, 3)
        calls.append(("normal", key, shp(shape), dtype, u))
        return u

    def poisson(key, lam, shape=None, dtype=None, **k):
        s = tuple(getattr(lam, "shape", ())) if shape is None else shp(shape)
        h.same(bshape(s, tuple(getattr(lam, "shape", ()))), s, "rates fit the shape")
        u = draw("p", s, 0, 9, int)
        calls.append(("poisson", key, s, dtype, u, lam))
        return u

    def multinomial(key, n, p, *, shape=None, dtype=None, **k):
        s = tuple(p.shape) if shape is None else shp(shape)
        h.same((bshape(s[:-1], tuple(n.shape)), bshape(s, tuple(p.shape))), (s[:-1], s), "counts and probabilities fit the shape")
        u = draw("m", s, 0, 9, int)
        calls.append(("multinomial", key, s, dtype, u, n, p))
        return u
    for f in (uniform, normal, poisson, multinomial):
        h.stub(jax.random, f.__name__, f)
    return calls


def kbits(key):
    return np.asarray(jax.random.key_data(key)).tobytes()


def keyed(h, dist, shapes, size, out, dtype=None):
    """location, scale, bounds and shape are combined as documented; each draw uses a fresh key"""
    calls = start(h)
    g = traced(World())(7)     # (only the locks are replaced)
    first = kbits(g.key)
    args = {}
    for k, s in shapes.items():
        lo, hi = (0, 5) if k in ("n",) else (0.125, 3)
        args[k] = (h.int("v" + k, lo, hi) if k == "n" else h.real("v" + k, lo, hi)) if s is None else h.arr("v" + k, s, lo, hi, dtype=int if k == "n" else None)
    kw = dict(args)
    if size != "-":
        kw["size"] = size
    if dtype:
        kw["dtype"] = getattr(np, dtype)
    fn = getattr(g, dist)
    if out is None:
        h.raises(ValueError, lambda: fn(**kw), "shapes that do not match are rejected")
        return
    r1 = fn(**kw)
    r2 = fn(**kw)
    h.same(len(calls), 2, "one draw per call")
    keys = [kbits(c[1]) for c in calls] + [kbits(g.key)]
    h.same(len(set(keys + [first])), 4, "keys are never reused")
    for r, c in zip((r1, r2), calls):
        h.same(c[0], {"random": "uniform", "standard_normal": "normal"}.get(dist, dist), "distribution")
        h.same(c[2], out, "shape of the draw")
        h.same(tuple(getattr(r, "shape", ())), out, "shape of the result")
        h.same(np.dtype(c[3]), np.dtype(dtype or (int if dist in ("poisson", "multinomial") else float)), "type of the draw")
        u = c[4]
        get = lambda k, d: args.get(k, d)
        if dist == "normal":
            e = get("loc", 0.0) + get("scale", 1.0) * u
        elif dist == "uniform":
            e = get("low", 0.0) + (get("high", 1.0) - get("low", 0.0)) * u
        else:
            e = u
        h.eq(r, e + h.xp.zeros(out) if dist in ("normal", "uniform") else e, "value of the draw")
        if dist == "poisson":
            h.eq(h.xp.asarray(c[5]), h.xp.asarray(args["lam"]), "rate is passed on")
        if dist == "multinomial":
            h.eq(h.xp.asarray(c[5]), h.xp.asarray(args["n"]), "number of trials is passed on")
            h.eq(h.xp.asarray(c[6]), h.xp.asarray(args["pvals"]), "probabilities are passed on")


def wrapkeys(h):
    """construction from seeds and keys"""
    made = []
    real = jax.random.key

    def key(seed, *, impl=None):
        made.append((seed, impl))
        return real(3)
    h.stub(jax.random, "key", key)
    s = h.int("seed", 0, 1000)
    g = GJ.Generator(s)
    h.same(len(made), 1, "one key")
    h.true(made[0][0] == s, "seed is passed on")
    h.fact(made[0][1] is None and kbits(g.key) == kbits(real(3)), "key of the seed")
    GJ.Generator(s, impl="rbg")
    h.same(made[1][1], "rbg", "implementation is passed on")
    k = real(5)
    w = GJ.Generator.from_key(k)
    h.fact(isinstance(w, GJ.Generator) and kbits(w.key) == kbits(k), "given key is used")
    for bad in (None, 3, "key", jax.numpy.zeros(2), jax.random.key_data(k), jax.numpy.zeros((), dtype=jax.numpy.uint32), [k], object()):
        h.raises((ValueError, TypeError, AttributeError), lambda bad=bad: GJ.Generator.from_key(bad), "other objects are rejected as keys")


def children(h):
    """numbers, shapes and types of splits and children"""
    g = traced(World())(11)
    seen = {kbits(g.key)}
    n = 1
    for size, shp in ((None, ()), (2, (2,)), ((2, 2), (2, 2)), (0, (0,)), ((1, 3), (1, 3)), ((), ())):
        k = g.split() if size is None else g.split(size)
        h.same(tuple(k.shape), shp, "shape of the keys")
        for i in np.ndindex(*shp):
            seen.add(kbits(k[i]))
            n += 1
        seen.add(kbits(g.key))
        n += 1
    for c in range(4):
        kids = g.spawn(c)
        h.same((type(kids), len(kids), all(isinstance(x, GJ.Generator) for x in kids)), (list, c, True), "number of children")
        for x in kids:
            seen.add(kbits(x.key))
            n += 1
        seen.add(kbits(g.key))
        n += 1
    h.same(len(seen), n, "keys are never reused")


# ------------------------------------------------------------------ the key-based generator: concurrency

LOCKS = (type(threading.Lock()), type(threading.RLock()))
OPS = {
    "random": lambda g: g.random(),
    "normal": lambda g: g.normal(0.0, 1.0),
    "poisson": lambda g: g.poisson(1.0),
    "standard_normal": lambda g: g.standard_normal(),
    "uniform": lambda g: g.uniform(),
    "multinomial": lambda g: g.multinomial(2, jax.numpy.asarray([0.5, 0.5])),
    "split": lambda g: [g.split()],
    "split2": lambda g: list(g.split(2)),
    "spawn": lambda g: [c.random() for c in g.spawn(2)][:0],
    "spawn1": lambda g: [g.spawn(1)[0].split()],
}


class World:
    """records the events of operations of the real generator, or makes two threads follow a given order of their events"""

    def __init__(self, order=None):
        self.order = order          # list of thread names, or None while recording
        self.pos = 0
        self.cond = threading.Condition()
        self.broken = None
        self.events = {}            # thread name -> events
        self.free = False           # after the threads: no gates
        self.refs, self.bits, self.keep = {}, {}, []
        self.used = []              # (bits) of consumed keys, in replays
        self.shared = None

    def me(self):
        return threading.current_thread().name

    def gate(self):
        """wait for the turn of this thread"""
        if self.order is None or self.free:
            return
        me = self.me()
        with self.cond:
            ok = self.cond.wait_for(lambda: self.broken or (self.pos < len(self.order) and self.order[self.pos] == me), timeout=30)
            if not ok or self.broken:
                self.broken = self.broken or f"{me} does not follow the order"
                self.cond.notify_all()
                raise RuntimeError(self.broken)

    def done(self):
        if self.order is None or self.free:
            return
        with self.cond:
            self.pos += 1
            self.cond.notify_all()

    def log(self, *ev):
        self.events.setdefault(self.me(), []).append(ev)
        return len(self.events[self.me()]) - 1

    # names of key values
    def iskey(self, v):
        return isinstance(v, jax.Array) and jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key)

    def name(self, v, ref):
        self.keep.append(v)
        self.refs[id(v)] = ref
        self.bits[self.me(), kbits(v)] = ref

    def ref(self, v):
        r = self.refs.get(id(v))
        if r is None:
            r = self.bits.get((self.me(), kbits(v)))
        return r if r is not None else ("other", kbits(v))

    def consume(self, v, kind):
        if v.shape == ():
            self.used.append((kind, kbits(v)))
            self.log("use", self.ref(v), kind)
        else:
            for i in np.ndindex(*v.shape):
                self.consume(v[i], kind)


class HookLock:
    def __init__(self, w, lock):
        self.w, self.lock = w, lock
        self.id = len(w.keep)
        w.keep.append(self)

    def acquire(self, *a, **k):
        self.w.gate()
        if not self.lock.acquire(blocking=False):
            self.w.broken = "lock is held"
            raise RuntimeError("lock is held")
        self.w.log("acquire", self.id)
        self.w.done()
        return True

    def release(self):
        self.w.gate()
        self.lock.release()
        self.w.log("release", self.id)
        self.w.done()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.lock.locked()


def traced(w):
    """class of the real generator whose accesses to keys and locks are seen"""
    base = GJ.Generator

    class Traced(base):
        def __getattribute__(self, name):
            stored = isinstance(getattr(base, name, None), types.MemberDescriptorType) or (not hasattr(base, name) and name in object.__getattribute__(self, "__dict__"))
            if not stored or name.startswith("__"):
                return super().__getattribute__(name)
            peek = super().__getattribute__(name)
            if not w.iskey(peek):
                return peek
            shared = self is w.shared
            if shared:
                w.gate()
                peek = super().__getattribute__(name)
            v = jax.random.wrap_key_data(jax.random.key_data(peek))
            if shared:
                n = w.log("read", name)
                w.name(v, ("read", w.me(), n))
                w.done()
            else:
                w.keep.append(v)
                w.refs[id(v)] = w.ref(peek)
            return v

        def __setattr__(self, name, v):
            if isinstance(v, LOCKS):
                v = HookLock(w, v)
            if w.iskey(v) and self is w.shared:
                w.gate()
                super().__setattr__(name, v)
                w.log("write", name, w.ref(v))
                w.done()
            else:
                super().__setattr__(name, v)
    for n, v in list(vars(base).items()):
        if isinstance(v, LOCKS):
            setattr(Traced, n, HookLock(w, v))
    return Traced


def world(h, order=None):
    w = World(order)
    real = jax.random.split

    def split(key, num=2):
        ks = real(key, num)
        w.used.append(("split", kbits(key)))
        n = w.log("use", w.ref(key), "split")
        for j, i in enumerate(np.ndindex(*ks.shape)):
            w.bits[w.me(), kbits(ks[i])] = ("child", w.me(), n, j)
        return ks
    h.stub(jax.random, "split", split)
    for f in ("uniform", "normal", "poisson", "multinomial", "bits", "randint", "bernoulli"):
        def draw(key, *a, _f=getattr(jax.random, f), **k):
            w.consume(key, "draw")
            return 0.0
        h.stub(jax.random, f, draw)
    for n, v in list(vars(GJ).items()):
        if isinstance(v, LOCKS):
            h.stub(GJ, n, HookLock(w, v))
    w.shared = None
    g = traced(w)(17)
    w.shared = g
    return w, g


def perform(w, g, ops):
    for o in ops:
        r = OPS[o](g)
        if isinstance(r, list):
            for k in r:
                w.consume(k, "handed out")


def run_thread(w, g, name, ops, errors):
    def body():
        try:
            perform(w, g, ops)
        except Exception as e:
            errors.append(e)
            with w.cond:
                w.broken = w.broken or repr(e)
                w.cond.notify_all()
    t = threading.Thread(target=body, name=name)
    t.start()
    return t


def threads(h, a, b):
    """no interleaving of two threads makes two draws, splits or children use the same key"""
    ops = {"A": a, "B": b}
    final = ("random",)
    # the events of each thread, from the real code
    trace = {}
    for t in "AB":
        w, g = world(h)
        errors = []
        run_thread(w, g, t, ops[t], errors).join()
        if errors:
            raise errors[0]
        trace[t] = w.events.get(t, [])
    w, g = world(h)
    errors = []
    run_thread(w, g, "F", final, errors).join()
    if errors:
        raise errors[0]
    trace["F"] = w.events.get("F", [])
    shared = {t: [i for i, e in enumerate(trace[t]) if e[0] in ("acquire", "release", "read", "write")] for t in trace}
    # symbolic times
    time = {}
    for t in "AB":
        n = len(shared[t])
        ts = h.arr("t" + t, max(n, 1), 0, 16, increasing=(0.125, 16))
        for j, i in enumerate(shared[t]):
            time[t, i] = ts[j]

    def before(x, y):
        """event x precedes event y; equal times: B first"""
        (s, i), (t, j) = x, y
        if s == t:
            return i < j
        if "F" in (s, t):
            return t == "F"
        return time[x] < time[y] if s == "A" else time[x] <= time[y]
    # mutual exclusion of critical sections of the same lock
    sect = {t: [] for t in trace}
    for t in "AB":
        held, depth = {}, {}
        for i in shared[t]:
            e = trace[t][i]
            if e[0] == "acquire":
                depth[e[1]] = depth.get(e[1], 0) + 1
                held.setdefault(e[1], i)
            elif e[0] == "release":
                depth[e[1]] -= 1
                if not depth[e[1]]:
                    sect[t].append((e[1], held.pop(e[1]), i))
    for la, i0, i1 in sect["A"]:
        for lb, j0, j1 in sect["B"]:
            if lock_index(trace["A"], la) == lock_index(trace["B"], lb):
                h.assume(_or(h, before(("A", i1), ("B", j0)), before(("B", j1), ("A", i0))))
    if not h.sym:
        return replay(h, ops, final, trace, shared, before)
    # values of keys
    codes = {}

    def code(ref):
        return codes.setdefault(ref, len(codes) + 1)

    def value(ref, depth=0):
        if ref[0] != "read":
            return h.num(code(ref))
        if depth > 3:
            raise RuntimeError("keys are copied around")
        r = (ref[1], ref[2])
        attr = trace[r[0]][r[1]][1]
        latest, val = None, h.num(code(("initial", attr)))
        # the last write before the read
        writes = [(t, i) for t in trace for i in shared[t] if trace[t][i][0] == "write" and trace[t][i][1] == attr]
        for x in writes:
            if x[0] == r[0] and x[1] > r[1] or x[0] == "F" != r[0]:
                continue
            c = before(x, r)
            for y in writes:
                if y != x and not (y[0] == r[0] and y[1] > r[1] or y[0] == "F" != r[0]):
                    # no other write between x and the read
                    c = _and(h, c, _or(h, before(y, x), before(r, y)))
            v = value(trace[x[0]][x[1]][2], depth + 1)
            val = h.xp.where(c, v, val) if not isinstance(c, bool) else (v if c else val)
        return val
    uses = [(t, i, e[1], e[2]) for t in trace for i, e in enumerate(trace[t]) if e[0] == "use"]
    vals = [value(u[2]) for u in uses]
    h.fact(len(uses) >= 3, "keys are used")
    for (i, x), (j, y) in itertools.combinations(enumerate(uses), 2):
        h.true(vals[i] != vals[j], f"same key for {x[3]} and {y[3]}")


def lock_index(tr, lid):
    """locks by order of first use within one run"""
    order = []
    for e in tr:
        if e[0] == "acquire" and e[1] not in order:
            order.append(e[1])
    return order.index(lid)


def _or(h, a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return True if a is True or b is True else (b if a is False else a)
    return a | b


def _and(h, a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return False if a is False or b is False else (b if a is True else a)
    return a & b


def replay(h, ops, final, trace, shared, before):
    """two real threads on the real generator, in the given order"""
    import functools
    evs = [(t, i) for t in "AB" for i in shared[t]]
    evs.sort(key=functools.cmp_to_key(lambda x, y: 0 if x == y else (-1 if before(x, y) else 1)))
    w, g = world(h, [t for t, _ in evs])
    errors = []
    ts = [run_thread(w, g, t, ops[t], errors) for t in "AB"]
    for t in ts:
        t.join(60)
    if errors:
        raise errors[0]
    w.free = True
    run_thread(w, g, "F", final, errors).join()
    if errors:
        raise errors[0]
    h.fact(len(w.used) >= 3, "keys are used")
    for (i, x), (j, y) in itertools.combinations(enumerate(w.used), 2):
        h.true(x[1] != y[1], f"same key for {x[0]} and {y[0]}")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=100, max_paths=2000)
    cs = []
    nm = lambda *xs: "-".join(str(x) for x in xs).replace(" ", "").replace("None", "_")
    for f, face in FACES.items():
        for dist in ("random", "standard_normal"):
            for size in ("-", None, 3, (3,)):
                for dt in (None, "float32"):
                    cs.append(Case(nm(f, dist, size, dt), wrapper, dict(dist=dist, given=(), size=size, dtype=dt), face=face, **o))
            cs.append(Case(nm(f, dist, "pos"), wrapper, dict(dist=dist, given=(), size=(3,), pos=True), face=face, **o))
            cs.append(Case(nm(f, dist, "scalar"), wrapper, dict(dist=dist, given=(), size="-", scalar=True), face=face, **o))
        for dist, names in (("normal", ("loc", "scale")), ("uniform", ("low", "high")), ("poisson", ("lam",)), ("multinomial", ("n", "pvals"))):
            opts = [()] if dist in ("normal", "uniform") else []
            if len(names) == 2 and dist != "multinomial":
                opts += [names[:1], names[1:]]
            opts.append(names)
            for given in opts:
                for size in ("-", 3, (3,)):
                    for pos in (False, True):
                        if not (pos and len(given) < len(names) and dist in ("poisson", "multinomial")):
                            cs.append(Case(nm(f, dist, "+".join(given), size, pos), wrapper, dict(dist=dist, given=given, size=size, pos=pos), face=face, **o))
        if f != "jax" or GJ is not None:
            for which in ("default_rng", "Generator"):
                for seed in (None, "int", "array"):
                    cs.append(Case(nm(f, "seed", which, seed), seeds, dict(which=which, seed=seed), face=face, **o))
        for n in (0, 1, 3):
            for ll in (False, True):
                cs.append(Case(nm(f, "randang", n, ll), randang, dict(n=n, lonlat=ll), face=face, **o))
    for what in CALLS:
        cs.append(Case(nm("defaults", what), defaults, dict(what=what), **o))
    if GJ is not None:
        jf = FACES["jax"]
        K = [("random", {}, "-", ()), ("random", {}, 2, (2,)), ("random", {}, (2, 2), (2, 2)), ("random", {}, (), ()), ("standard_normal", {}, "-", ()), ("standard_normal", {}, 3, (3,)), ("standard_normal", {}, (1, 2), (1, 2))]
        for d, x, y in (("normal", "loc", "scale"), ("uniform", "low", "high")):
            K += [(d, {}, "-", ()), (d, {}, 2, (2,)), (d, {x: 2}, "-", (2,)), (d, {y: 2}, "-", (2,)), (d, {x: 2, y: 2}, "-", (2,)), (d, {x: (2, 1), y: 3}, "-", (2, 3)), (d, {x: None, y: None}, (2, 2), (2, 2)),
                  (d, {x: None, y: (2, 2)}, (2, 2), (2, 2)), (d, {x: 2}, 2, (2,)), (d, {x: 2}, 3, None), (d, {x: 2}, (3, 2), None), (d, {x: 2, y: 3}, "-", None), (d, {x: (2, 1), y: 3}, (3, 2), None), (d, {x: 1}, (2,), None)]
        K += [("poisson", {"lam": None}, "-", ()), ("poisson", {"lam": 2}, "-", (2,)), ("poisson", {"lam": None}, (2, 2), (2, 2)), ("poisson", {"lam": (2, 2)}, (2, 2), (2, 2)), ("poisson", {"lam": 2}, 3, None), ("poisson", {"lam": 2}, (2, 2), None)]
        K += [("multinomial", {"n": None, "pvals": 3}, "-", (3,)), ("multinomial", {"n": None, "pvals": (2, 3)}, "-", (2, 3)), ("multinomial", {"n": 2, "pvals": 3}, "-", (2, 3)), ("multinomial", {"n": 2, "pvals": (2, 3)}, "-", (2, 3)),
              ("multinomial", {"n": None, "pvals": 2}, 3, (3, 2)), ("multinomial", {"n": None, "pvals": 2}, (2, 2), (2, 2, 2)), ("multinomial", {"n": 2, "pvals": 3}, 2, (2, 3)), ("multinomial", {"n": 2, "pvals": 3}, 3, None),
              ("multinomial", {"n": (2, 1), "pvals": (3, 2)}, "-", (2, 3, 2)), ("multinomial", {"n": 2, "pvals": (3, 2)}, "-", None), ("multinomial", {"n": None, "pvals": (2, 2)}, (2, 2), None)]
        for d, shapes, size, out in K:
            for dt in (None, "float32" if d not in ("poisson", "multinomial") else "int32"):
                cs.append(Case(nm("keyed", d, *[f"{k}{v}" for k, v in shapes.items()], size, dt), keyed, dict(dist=d, shapes=shapes, size=size, out=out, dtype=dt), face=jf, **o))
        cs.append(Case("wrapkeys", wrapkeys, **o))
        cs.append(Case("children", children, **o))
        names = list(OPS)
        for x, y in itertools.combinations_with_replacement(names, 2):
            cs.append(Case(nm("threads", x, y), threads, dict(a=(x,), b=(y,)), **o))
        two = [(("random", "spawn"), ("split",)), (("random", "random"), ("random", "random")), (("spawn", "normal"), ("split2", "uniform"))]
        if big:
            two += [((x, y), (z,)) for x in names for y in names for z in names]
        for x, y in two:
            cs.append(Case(nm("threads", "+".join(x), "+".join(y)), threads, dict(a=x, b=y), **o))
    return cs
