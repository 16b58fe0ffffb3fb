"""Radial windows."""
import dataclasses
import math
import glass.shells as S
from symxp.engine import Case
from .common import trapz

FUNCTIONS = ["glass.shells.RadialWindow", "glass._array_api_utils.XPAdditions.trapezoid"]
BOUNDS = "window functions of 0 to 5 grid points (8 thorough), symbolic redshifts, weights and effective redshift"
ASSUMPTIONS = ["the integral of the window is not zero when its effective redshift is asked for"]


def given(h, n):
    za, wa, ze = h.arr("z", n, 0, 5, increasing=(0, 3)), h.arr("w", n), h.real("zeff", -5, 5)
    ka, kw = za + 0, wa + 0
    w = S.RadialWindow(za, wa, ze)
    h.eq(w.za, ka, "redshifts kept")
    h.eq(w.wa, kw, "weights kept")
    h.eq(w.zeff, ze, "effective redshift kept")
    a, b, c = w
    h.eq(a, ka, "first item of unpacking")
    h.eq(b, kw, "second item of unpacking")
    h.eq(c, ze, "third item of unpacking")
    w2 = S.RadialWindow(wa=wa, zeff=ze, za=za)
    h.eq(w2.za, ka, "redshifts by name")
    h.eq(w2.wa, kw, "weights by name")
    for name in ("za", "wa", "zeff"):
        def assign(name=name):
            setattr(w, name, 1.0)

        def delete(name=name):
            delattr(w, name)
        h.raises(dataclasses.FrozenInstanceError, assign, "attributes cannot be assigned")
        h.raises(dataclasses.FrozenInstanceError, delete, "attributes cannot be deleted")
    h.eq(w.za, ka, "redshifts kept after failed assignment")
    h.eq(w.zeff, ze, "effective redshift kept after failed assignment")
    y = h.real("other", -5, 5)
    w3 = dataclasses.replace(w, zeff=y)
    h.eq(w3.zeff, y, "changed copy")
    h.eq(w3.wa, kw, "unchanged part of the copy")
    h.eq(w.zeff, ze, "original unchanged by the copy")


def mean(h, n, positive, explicit):
    za = h.arr("z", n, 0, 5, increasing=(0.01, 3))
    wa = h.arr("w", n, 0 if positive else -5, 5)
    den = trapz(wa, za)
    h.assume(den >= 0.01)
    num = trapz([za[i] * wa[i] for i in range(n)], za)
    w = S.RadialWindow(za, wa, math.nan) if explicit else S.RadialWindow(za, wa)
    h.eq(w.zeff * den, num, "effective redshift is the weighted mean")
    if positive:
        h.le(za[0], w.zeff, "not below the first redshift")
        h.le(w.zeff, za[n - 1], "not above the last redshift")
    a, b, c = w
    h.eq(c * den, num, "third item of unpacking")
    h.eq(a, za, "redshifts kept")
    h.eq(b, wa, "weights kept")


def empty(h):
    w = S.RadialWindow(h.arr("z", 0), h.arr("w", 0))
    h.fact(w.zeff != w.zeff, "undefined for an empty window")
    x = h.real("zeff")
    h.eq(S.RadialWindow(h.arr("z2", 0), h.arr("w2", 0), x).zeff, x, "given for an empty window")


def cases(tier):
    big = tier != "quick"
    cs = [Case("empty", empty)]
    for n in (0, 1, 3):
        cs.append(Case(f"given-{n}", given, dict(n=n)))
    for n in (2, 3, 4, 5) + ((6, 7, 8) if big else ()):
        for positive in (True, False):
            for explicit in (True, False):
                cs.append(Case(f"mean-{n}-{positive}-{explicit}", mean, dict(n=n, positive=positive, explicit=explicit), timeout=100))
    return cs
