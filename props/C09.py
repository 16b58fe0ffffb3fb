"""Transformations of Gaussian fields: correlation, inverse, derivative, mean and range."""
import glass.grf as G
from symxp.engine import Case

FUNCTIONS = ["glass.grf.corr", "glass.grf.icorr", "glass.grf.dcorr", "glass.grf.Normal", "glass.grf.Lognormal", "glass.grf.SquaredNormal"]
BOUNDS = ("all pairs of the three transformations and of third-party ones; arrays of 1 to 3 points; symbolic correlations, variances and "
          "parameters (lamda in (0, 10], a in [0, 1])")
ASSUMPTIONS = ["exact reals; exp is any strictly increasing positive function with exp(0) = 1 and log is its inverse",
               "reference covariances are the textbook expectations for jointly normal variables: lognormal pair l l' (e^x - 1), lognormal and "
               "normal l x, squared normal pair l l' (2 x^2 + 4 a a' x)",
               "the inverse of the squared-normal transform is asked for on its increasing branch x >= -a a'"]


def make(h, kind, tag, unit=False):
    lam = h.num(1.0) if unit else h.real("lam" + tag, 0, 10, lo_open=True)
    if kind == "N":
        return G.Normal(), dict(k="N")
    if kind == "L":
        return (G.Lognormal() if unit else G.Lognormal(lam)), dict(k="L", l=lam)
    a = h.real("a" + tag, 0, 1)
    return (G.SquaredNormal(a) if unit else G.SquaredNormal(a, lam)), dict(k="S", l=lam, a=a)


def truth(h, p, q, x):
    """covariance of the transformed variables, its derivative"""
    ks = p["k"] + q["k"]
    if ks == "NN":
        return x, h.num(1.0)
    if ks == "LL":
        e = h.xp.exp(x)
        return p["l"] * q["l"] * (e - 1), p["l"] * q["l"] * e
    if ks in ("LN", "NL"):
        l = p["l"] if p["k"] == "L" else q["l"]
        return l * x, l
    if ks == "SS":
        aa, ll = p["a"] * q["a"], p["l"] * q["l"]
        return ll * (2 * x * x + 4 * aa * x), ll * (4 * x + 4 * aa)
    return None, None


def pair(h, k1, k2, n, unit=False):
    t1, p = make(h, k1, "1", unit)
    t2, q = make(h, k2, "2", unit)
    x = h.arr("x", n, -1, 1)
    keep = x + 0
    if truth(h, p, q, x[0])[0] is None:
        for f in (G.corr, G.icorr, G.dcorr):
            h.raises(NotImplementedError, lambda: f(t1, t2, x), "unsupported pair is refused")
            h.raises(NotImplementedError, lambda: f(t2, t1, x), "unsupported pair is refused")
        return
    c, d = G.corr(t1, t2, x), G.dcorr(t1, t2, x)
    h.same((tuple(c.shape), tuple(d.shape)), ((n,), (n,)), "shape")
    for i in range(n):
        w, dw = truth(h, p, q, keep[i])
        h.eq(c[i], w, "covariance of the transformed variables")
        h.eq(d[i], dw, "derivative of the transform")
    h.eq(G.corr(t2, t1, x), c, "transform is symmetric in the pair")
    h.eq(G.dcorr(t2, t1, x), d, "derivative is symmetric in the pair")
    if p["k"] == "S":
        for i in range(n):
            h.assume(x[i] + p["a"] * q["a"] >= 0)
    r = G.icorr(t1, t2, c)
    h.eq(r, keep, "inverse undoes the transform")
    h.eq(G.icorr(t2, t1, c), r, "inverse is symmetric in the pair")
    h.eq(x, keep, "input unchanged")


def back(h, k1, k2):
    """transform of the inverse"""
    t1, p = make(h, k1, "1")
    t2, q = make(h, k2, "2")
    y = h.arr("y", 1, -5, 5)
    if p["k"] == q["k"] == "L":
        h.assume(y[0] + p["l"] * q["l"] > 1e-6 if not h.sym else y[0] + p["l"] * q["l"] > 0)
    if p["k"] == q["k"] == "S":
        aa, ll = p["a"] * q["a"], p["l"] * q["l"]
        h.assume(y[0] + 2 * ll * aa * aa >= 0)
        if not h.sym:
            h.assume(y[0] + 2 * ll * aa * aa > 1e-9)
    h.eq(G.corr(t1, t2, G.icorr(t1, t2, y)), y, "transform undoes the inverse")


def call(h, kind, n, unit=False):
    t, p = make(h, kind, "1", unit)
    x = h.arr("X", n, -6, 6)
    keep = x + 0
    var = h.real("var", 0, 4) if kind != "S" else 1 - p["a"] * p["a"]
    out = t(x, var)
    h.same(tuple(out.shape), (n,), "shape")
    for i in range(n):
        X = keep[i]
        if kind == "N":
            h.eq(out[i], X, "identity")
        elif kind == "L":
            # mean of exp(X - var/2) is one for a normal X of variance var
            h.eq(out[i], p["l"] * (h.xp.exp(X - var / 2) - 1), "lognormal variable of zero mean")
            h.le(-p["l"], out[i], "not below minus the shift")
        else:
            # mean of (X - a)^2 is var + a^2 = 1
            h.eq(out[i], p["l"] * (X * X - 2 * p["a"] * X + p["a"] * p["a"] - 1), "squared normal variable of zero mean")
            h.le(-p["l"], out[i], "not below minus the shift")
    h.eq(x, keep, "field unchanged")


class Third:
    def __init__(self, answers):
        self.answers = answers
        self.calls = []

    def _f(self, name, other, x):
        self.calls.append((name, other, x))
        return self.answers.get(name, NotImplemented)

    def corr(self, other, x): return self._f("corr", other, x)
    def icorr(self, other, x): return self._f("icorr", other, x)
    def dcorr(self, other, x): return self._f("dcorr", other, x)


def dispatch(h, name):
    f = getattr(G, name)
    x = h.arr("x", 2)
    r1, r2 = h.arr("r", 2), h.arr("s", 2)
    other = [n for n in ("corr", "icorr", "dcorr") if n != name]
    noise = {n: h.arr("n" + n, 2) for n in other}
    a, b = Third({name: r1, **noise}), Third({name: r2, **noise})
    h.eq(f(a, b, x), r1, "first transformation decides")
    u, b = Third(noise), Third({name: r2, **noise})
    h.eq(f(u, b, x), r2, "second transformation decides if the first cannot")
    h.fact(all(c[0] == name and c[1] is u for c in b.calls), "the second transformation is asked about the first")
    h.fact(all(c[0] == name and c[1] is b for c in u.calls), "the first transformation is asked about the second")
    h.raises(NotImplementedError, lambda: f(Third({}), Third({}), x), "pair without an implementation is refused")
    for t in (G.Normal(), G.Lognormal(), G.SquaredNormal(h.num(0.5))):
        h.raises(NotImplementedError, lambda: f(t, Third({}), x), "unknown partner is refused")
        h.eq(f(t, Third({name: r1}), x), r1, "unknown partner may implement the pair")
        h.eq(f(Third({name: r1}), t, x), r1, "unknown partner may implement the pair")


def cases(tier):
    cs = []
    for k1 in "NLS":
        for k2 in "NLS":
            for n in (1, 3):
                cs.append(Case(f"pair-{k1}{k2}-{n}", pair, dict(k1=k1, k2=k2, n=n)))
            cs.append(Case(f"pair-{k1}{k2}-unit", pair, dict(k1=k1, k2=k2, n=2, unit=True)))
            if k1 + k2 in ("NN", "LL", "LN", "NL", "SS"):
                cs.append(Case(f"back-{k1}{k2}", back, dict(k1=k1, k2=k2)))
        for n in (1, 2):
            cs.append(Case(f"call-{k1}-{n}", call, dict(kind=k1, n=n)))
            cs.append(Case(f"call-{k1}-{n}-unit", call, dict(kind=k1, n=n, unit=True)))
    for name in ("corr", "icorr", "dcorr"):
        cs.append(Case(f"dispatch-{name}", dispatch, dict(name=name)))
    return cs
