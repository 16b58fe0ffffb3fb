From 3baa45d6fd19dff74087b56940b431dcdfb23d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 01/11] fix: keep the clipping threshold of cov_clip from going
 negative

---
 glass/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..ecfefdb 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -141,7 +141,9 @@ def cov_clip(
         rtol = max(v.shape[-2], v.shape[-1]) * xp.finfo(w.dtype).eps
 
     # clip negative diagonal values
-    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)
+    # the threshold itself must not be negative if all eigenvalues are
+    wmin = rtol * xp.max(w, axis=-1, keepdims=True)
+    w = xp.clip(w, xp.where(wmin > 0, wmin, xp.zeros_like(wmin)), None)
 
     # put matrix back together
     # enforce symmetry
-- 
2.43.0


From c4eb0ff80eef4608e67c3f6ab718e2c33cc169d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 02/11] fix: nnls steps towards, not away from, the
 unconstrained solution

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index ecfefdb..67f6e89 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,7 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
+            alpha = xp.min(xq[t] / (xq[t] - sq[t]))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From 236289261ba53107c8a72c2b7791f4a2f71a292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 03/11] fix: nnls does not hang on a zero step

---
 glass/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 67f6e89..252a5ed 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,9 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = xp.min(xq[t] / (xq[t] - sq[t]))
+            # step to the boundary; rounding can leave zeros in both xq and sq
+            d = xq[t] - sq[t]
+            alpha = xp.min(xq[t] / xp.where(d > 0, d, xp.ones_like(d)))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From 9ff3a9cdf1ee231f3180f5483e7b2f9d964da4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 04/11] fix: fields without a variance of their own do not
 contribute in iternorm

---
 glass/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..320d74b 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -155,8 +155,9 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
                 xp.ones(n, dtype=atm.dtype),
                 xp.zeros(n, dtype=atm.dtype),
             )
-            # assemble the new row
-            r = xp.concat([-atm, u[..., None, None]], axis=-1)
+            # assemble the new row, which is zero where s is zero
+            u = u[..., None, None]
+            r = xp.concat([-u * atm, u], axis=-1)
             # set zero standard deviation to unity to prevent division by zero
             # this should be fine as corresponding entries in r are zero
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
-- 
2.43.0


From c14f6db4e82d6099c34f2390232942fc08a27807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 05/11] fix: multi_plane_weights combines weights with extra
 axes along the shells

---
 glass/lensing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..fbaaf3d 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -681,7 +681,7 @@ def multi_plane_weights(
     weights = weights / xp.sum(weights, axis=0)
     # combine weights and the matrix of lensing contributions
     mat = multi_plane_matrix(shells, cosmo)
-    return xp.matmul(mat.T, weights)
+    return xp.tensordot(mat.T, weights, axes=1)
 
 
 def deflect(
-- 
2.43.0


From 2ab964041596773842329a572acfe1a2f08269d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 06/11] fix: redshifts_from_bins assigns redshifts to the
 entries of multi-dimensional catalogues

---
 glass/galaxies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..d60e5ef 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -172,8 +172,8 @@ def redshifts_from_bins(
     ])
 
     # argsort the runs of redshifts into their intended positions
-    # argsort 1: sort bin_index into runs of the same bin
-    bin_index = xp.argsort(bin_index)
+    # argsort 1: sort flattened bin_index into runs of the same bin
+    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))
     # argsort 2: invert the sort
     bin_index = xp.argsort(bin_index)
     # apply to runs of redshifts
-- 
2.43.0


From 310ffd2cd26e8947cf816f703c69508e6e6c87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 07/11] fix: resample_shapes with zero reduced-shear variance
 keeps the moduli

---
 glass/shapes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..2fa30b4 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,13 +411,13 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
-        r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
-        )
+        b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
+        # form of the solution without cancellation, which is regular for varg = 0
+        if varg < 0.5:  # noqa: PLR2004
+            r *= xp.sqrt(2 * (vare - varg) / (d + b))
+        else:
+            r *= xp.sqrt((d - b) / (2 * varg * eve4))
 
     # assign random orientations to shapes
     return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))
-- 
2.43.0


From 67ce80d468ec5683c4fceaa27b4f00ee4412ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 08/11] fix: positions in pixels are drawn from the given
 generator

---
 glass/healpix.py | 59 +++++++++++++++++++++++++++++++++++++++++++-----
 glass/points.py  |  7 +++++-
 2 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..8c6303e 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -25,7 +25,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -395,20 +401,57 @@ def query_strip(
     return xp.asarray(output, dtype=dtype)
 
 
+class _WritableGenerator:
+    """
+    Draw writable NumPy arrays from a random number generator.
+
+    Sampling in HEALPix pixels modifies the random numbers in place, which
+    is not possible for the read-only data of some array backends.
+
+    """
+
+    def __init__(self, rng: UnifiedGenerator) -> None:
+        """
+        Create a wrapper for the given generator.
+
+        Parameters
+        ----------
+        rng
+            The random number generator to draw from.
+
+        """
+        self.rng = rng
+
+    def random(self, size: tuple[int, ...], dtype: DTypeLike) -> FloatArray:
+        """
+        Return writable random floats in the half-open interval [0.0, 1.0).
+
+        Parameters
+        ----------
+        size
+            Output shape.
+        dtype
+            Desired data type.
+
+        Returns
+        -------
+            Array of random floats.
+
+        """
+        return np.array(self.rng.random(size), dtype=dtype)
+
+
 @numpy_fallback
 def randang(
     nside: int,
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
-
     Parameters
     ----------
     nside
@@ -417,6 +460,8 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
@@ -427,7 +472,9 @@ def randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=(
+            glass.rng.default_rng(xp=np) if rng is None else _WritableGenerator(rng)
+        ),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 593c023..77fe3f7 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator for the positions in each pixel.
 
     Yields
     ------
@@ -428,6 +432,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +542,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 9a4b87b1c34dbd293440e9ca82d064761b194fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 09/11] fix: product of three or more functions without common
 range integrates to zero

---
 glass/arraytools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/arraytools.py b/glass/arraytools.py
index 5340640..9d64fb6 100644
--- a/glass/arraytools.py
+++ b/glass/arraytools.py
@@ -181,6 +181,9 @@ def trapezoid_product(
     x: FloatArray
     x, _ = f
     for x_, _ in ff:
+        if x.shape[0] == 0:
+            # there is no common range, hence nothing to integrate
+            break
         x = typing.cast(
             "FloatArray",
             xpx.union1d(
-- 
2.43.0


From 53d2bacb4865005a68658bcc4114f655a9b6920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 10/11] fix: nearest correlation matrix of stacks with several
 axes

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 252a5ed..1f60910 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -199,7 +199,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From fd4b677e969b27ab062375628ee8e3546aa36412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 11/11] fix: trapezoid without sample points for backends
 without the function

---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..2009eb4 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = None if x is None else dxp.asarray(x, copy=True)
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0

