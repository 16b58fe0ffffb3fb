"""Multi-plane convergence."""
import numpy as np
import glass.lensing as L
import glass.shells as S
from symxp.engine import Case
from .common import stack, trapz

FUNCTIONS = ["glass.lensing.MultiPlaneConvergence", "glass.lensing.MultiPlaneConvergence.add_plane", "glass.lensing.MultiPlaneConvergence.add_window",
             "glass.lensing.multi_plane_matrix", "glass.lensing.multi_plane_weights"]
BOUNDS = ("up to 4 planes (6 thorough) of 2 pixels with symbolic values, weights, redshifts, distances, Hubble function, matter density and Hubble "
          "distance; every order of rejected and accepted planes for 3 attempts (4 thorough); matrices and weights of up to 4 shells with 2 to 3 "
          "symbolic nodes each, weights with up to 2 extra axes")
ASSUMPTIONS = ["distances follow the addition law of a homogeneous geometry (flat, or with free curvature terms)", "distances between planes are positive"]


class Cosmo:
    """cosmology with arbitrary function values at the redshifts in use"""

    def __init__(self, h, curved=False):
        self.h, self.zs, self.curved = h, [], curved
        self.hubble_distance = h.real("dh", 0.5, 8)
        self.Omega_m0 = h.real("om", 0, 2)

    def add(self, z):
        k = len(self.zs)
        h = self.h
        x = h.real(f"x{k}", 0.0625, 4)
        c = h.real(f"c{k}", 0.25, 2) if self.curved else 1.0
        e = h.real(f"e{k}", 0.25, 4)
        for _, y, d, _ in self.zs:
            h.assume(x * d - y * c > 0)
        self.zs.append((z, x, c, e))
        return x, c, e

    def at(self, z):
        from symxp.scalar import _same
        z = z.a.reshape(-1)[0] if hasattr(z, "a") else z
        for y, *r in self.zs:
            y = y.a.reshape(-1)[0] if hasattr(y, "a") else y
            if _same(y, z) if self.h.sym else float(y) == float(z):
                return r
        if not self.h.sym and float(z) == 0.0 or self.h.sym and _same(z, 0):
            return 0.0, 1.0, 1.0
        self.h.fact(False, "distance asked for a redshift that is not in use")
        return 1.0, 1.0, 1.0

    def dist(self, a, b):
        x, c, _ = self.at(a)
        y, d, _ = self.at(b)
        return y * c - x * d

    def _each(self, f, *args):
        if any(isinstance(a, (list, tuple)) or getattr(a, "shape", ()) != () for a in args):
            n = max(len(a) if isinstance(a, (list, tuple)) else a.shape[0] if getattr(a, "shape", ()) else 1 for a in args)
            args = [[a[i] for i in range(n)] if isinstance(a, (list, tuple)) or getattr(a, "shape", ()) != () else [a] * n for a in args]
            return stack(self.h, [f(*t) for t in zip(*args)])
        return f(*args)

    def transverse_comoving_distance(self, z, z2=None):
        if z2 is None:
            return self._each(lambda a: self.at(a)[0] * self.hubble_distance, z)
        return self._each(lambda a, b: self.dist(a, b) * self.hubble_distance, z, z2)

    def comoving_distance(self, z, z2=None):
        return self.transverse_comoving_distance(z, z2)

    def H_over_H0(self, z):
        return self._each(lambda a: self.at(a)[2], z)


def term(cosmo, zi, zs, w):
    xi, _, e = cosmo.at(zi)
    xs = cosmo.at(zs)[0]
    return 3 * cosmo.Omega_m0 / 2 * xi * cosmo.dist(zi, zs) / xs * (1 + zi) / e * w


def planes(h, n, shape, curved, default):
    cosmo = Cosmo(h, curved)
    m = L.MultiPlaneConvergence(cosmo)
    zs = h.arr("z", n, 0.0625, 3, increasing=(0.0625, 1))
    zs = [zs[i] for i in range(n)]
    seen = []
    for k in range(n):
        cosmo.add(zs[k])
        d = h.arr(f"d{k}", shape, -1, 3)
        w = 1.0 if default else h.real(f"w{k}", 0, 2)
        keep = d + 0
        m.add_plane(d, zs[k], *(() if default else (w,)))
        seen.append((zs[k], keep, w, d))
        want = keep * 0
        for zi, di, wi, _ in seen[:-1]:
            want = want + di * term(cosmo, zi, zs[k], wi)
        h.eq(m.kappa, want, "convergence is the lensing sum over earlier planes")
        h.same(tuple(m.kappa.shape), tuple(d.shape), "shape of the convergence")
        h.eq(m.zsrc, zs[k], "current source redshift")
        h.eq(m.wlens, w, "current weight")
        h.eq(m.delta, keep, "current matter plane")
        for _, di, _, dd in seen:
            h.eq(dd, di, "matter planes unchanged")


def rejected(h, n):
    cosmo = Cosmo(h)
    m = L.MultiPlaneConvergence(cosmo)
    cur, seen, state = 0.0, [], None
    for k in range(n):
        z = h.real(f"z{k}", -1, 3)
        d, w = h.arr(f"d{k}", 1, -1, 3), h.real(f"w{k}", 0, 2)
        keep = d + 0
        if h.branch(z <= cur):
            h.raises(ValueError, lambda: m.add_plane(d, z, w), "source redshifts must increase")
        else:
            cosmo.add(z)
            m.add_plane(d, z, w)
            seen.append((z, keep, w))
            cur = z
        if not seen:
            continue
        want = h.const(np.zeros(1))
        for zi, di, wi in seen[:-1]:
            want = want + di * term(cosmo, zi, cur, wi)
        h.eq(m.kappa, want, "rejected planes do not change the convergence")
        h.eq(m.zsrc, cur, "rejected planes do not change the redshift")
        h.eq(m.wlens, seen[-1][2], "rejected planes do not change the weight")
        h.eq(m.delta, seen[-1][1], "rejected planes do not change the matter plane")


def windows(h, cosmo, n):
    """overlapping shells: each with its effective redshift on or between nodes; returns shells and lensing weights"""
    shells, ws, zeffs = [], [], []
    for k in range(n):
        za = np.array([0.25 * k + 0.125, 0.25 * k + 0.375, 0.25 * k + 0.625][: 2 + k % 2])
        wa = h.arr(f"w{k}", len(za), 0.25, 2)
        ze = (za[0] + za[1]) / 2 if k % 3 == 0 else za[0] * 0.75 + za[1] * 0.25 if k % 3 == 1 else float(za[0]) + 0.0625
        t = (ze - za[0]) / (za[1] - za[0])
        at = wa[0] * (1 - t) + wa[1] * t
        ze = float(ze)
        cosmo.add(ze)
        zeffs.append(ze)
        ws.append(trapz([wa[i] for i in range(len(za))], za) / at)
        shells.append(S.RadialWindow(h.const(za), wa, ze))
    return shells, ws, zeffs


def matrix(h, n, curved):
    cosmo = Cosmo(h, curved)
    shells, ws, zeffs = windows(h, cosmo, n)
    mat = L.multi_plane_matrix(shells, cosmo)
    h.same(tuple(mat.shape), (n, n), "one row and column per shell")
    for i in range(n):
        for j in range(n):
            h.eq(mat[i, j], term(cosmo, zeffs[j], zeffs[i], ws[j]) if j < i else 0.0, "contribution of a shell to the convergence")
    # the same maps plane by plane
    d = h.arr("d", (n, 2), -1, 3)
    m = L.MultiPlaneConvergence(cosmo)
    for i in range(n):
        m.add_window(d[i] + 0, shells[i])
        h.eq(m.wlens, ws[i], "weight of a window")
        h.eq(m.zsrc, zeffs[i], "redshift of a window")
        for p in range(2):
            h.eq(m.kappa[p], sum((term(cosmo, zeffs[j], zeffs[i], ws[j]) * d[j, p] for j in range(i)), h.num(0.0)), "convergence of windows")


def weights(h, n, extra):
    cosmo = Cosmo(h)
    shells, ws, zeffs = windows(h, cosmo, n)
    w = h.arr("n", (n,) + extra, 0.0625, 2)
    keep = w + 0
    out = L.multi_plane_weights(w, shells, cosmo)
    h.same(tuple(out.shape), (n,) + extra, "one weight per shell and distribution")
    for k in np.ndindex(*extra):
        tot = sum((keep[(i,) + k] for i in range(1, n)), keep[(0,) + k])
        for j in range(n):
            want = sum((keep[(i,) + k] / tot * term(cosmo, zeffs[j], zeffs[i], ws[j]) for i in range(j + 1, n)), h.num(0.0))
            h.eq(out[(j,) + k], want, "effective lensing weight")
    h.eq(w, keep, "weights unchanged")


def mismatch(h, n):
    cosmo = Cosmo(h)
    shells, ws, zeffs = windows(h, cosmo, n)
    for s in ((n + 1,), (n - 1,), (n + 1, n), ()):
        if 0 in s:
            continue
        w = h.const(np.ones(s))
        h.raises(ValueError, lambda w=w: L.multi_plane_weights(w, shells, cosmo), "weights must match the shells")


def cases(tier):
    big = tier != "quick"
    o = dict(timeout=150 if not big else 1500, max_paths=3000)
    cs = []
    for n in range(1, 5 if not big else 7):
        for curved in (False, True):
            cs.append(Case(f"planes-{n}-{'curved' if curved else 'flat'}", planes, dict(n=n, shape=2 if n < 4 else 1, curved=curved, default=False), **o))
    cs.append(Case("planes-default-weight", planes, dict(n=3, shape=2, curved=False, default=True), **o))
    cs.append(Case("planes-matrix", planes, dict(n=3, shape=(2, 2), curved=False, default=False), **o))
    cs.append(Case("rejected", rejected, dict(n=3 if not big else 4), **o))
    for n in (1, 2, 3, 4):
        cs.append(Case(f"matrix-{n}", matrix, dict(n=n, curved=False), **o))
    cs.append(Case("matrix-3-curved", matrix, dict(n=3, curved=True), **o))
    for n, e in ((1, ()), (2, ()), (3, ()), (3, (2,)), (2, (2, 1)), (4, ()), (2, (1, 3))):
        cs.append(Case(f"weights-{n}-{e}".replace(" ", ""), weights, dict(n=n, extra=e), **o))
    cs.append(Case("mismatch", mismatch, dict(n=2), **o))
    return cs
