"""Relative weights for angular clustering."""
import numpy as np
import glass.points as P
from symxp.engine import Case

FUNCTIONS = ["glass.points.position_weights", "glass.arraytools.broadcast_first"]
BOUNDS = "1 to 4 shells, densities and biases with up to 2 extra axes of size 1 or 2, scalar biases; symbolic positive densities"
ASSUMPTIONS = ["densities of each combination of extra axes have a positive sum"]


def run(h, sd, sb):
    d = h.arr("d", sd, 0.1, 9)
    keep = d + 0
    b = None if sb is None else h.real("b", -3, 3) if sb == "scalar" else h.arr("b", sb, -3, 3)
    kb = None if b is None else b + 0
    if sb is None:
        out = P.position_weights(d)
    else:
        out = P.position_weights(d, b) if sd != (3,) else P.position_weights(densities=d, bias=b)
    # first axis is the shell; the others broadcast from the right
    es = () if sb in (None, "scalar", ()) else sb[1:]
    extra = np.broadcast_shapes(sd[1:], es)
    n = max(sd[0], 1 if sb in (None, "scalar", ()) else sb[0])
    h.same(tuple(out.shape), (n,) + extra, "shape of the weights")
    for k in np.ndindex(*extra):
        def pick(x, sh, i):
            e = k[len(k) - (len(sh) - 1):] if len(sh) > 1 else ()
            return x[(0 if sh[0] == 1 else i,) + tuple(0 if s == 1 else q for s, q in zip(sh[1:], e))]
        tot = sum([pick(keep, sd, i) for i in range(1, n)], pick(keep, sd, 0))
        s = 0.0
        for i in range(n):
            want = pick(keep, sd, i)
            got = out[(i,) + k]
            if sb is not None:
                want = want * (kb if sb in ("scalar", ()) else pick(kb, sb, i))
            h.eq(got * tot, want, "normalised density times bias")
            s = s + got
        if sb is None:
            h.eq(s, h.num(1.0), "weights sum to one")
    h.eq(d, keep, "densities unchanged")
    if b is not None:
        h.eq(b, kb, "bias unchanged")


def cases(tier):
    cs = []
    dens = ((1,), (2,), (3,), (2, 2), (3, 1), (2, 1, 2), (2, 2, 1)) + (((4, 2), (3, 2, 2)) if tier != "quick" else ())
    for sd in dens:
        n = sd[0]
        for sb in (None, "scalar", (), (n,), (1,), (n, 2), (n, 1), (1, 2), (n, 2, 1), (n, 1, 2)):
            cs.append(Case(f"weights-{sd}-{sb}".replace(" ", ""), run, dict(sd=sd, sb=sb)))
    cs.append(Case("weights-one-density", run, dict(sd=(1,), sb=(3,))))
    return cs
