From 59fbe7d8475c9f76b45203d6abfc060054f70906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 01/40] fix: BSplineRedshift normalises the density it
 evaluates and vanishes outside the spline domain

---
 gwinferno/models/bsplines/single.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..a36e15a 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -463,10 +463,9 @@ class BSplineRedshift(Base1DBSplineModel):
         float
             The redshift normalization constant.
         """
-        return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
-            self.zgrid,
-        )
+        valid = (self.zgrid >= self.xmin) & (self.zgrid <= self.xmax)
+        rate = self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs))
+        return trapezoid(jnp.where(valid, rate, 0), self.zgrid)
 
     def __call__(self, coefs, pe_samples=True):
         """Evaluate the merger-rate per unit redshift in the detector-frame :math:`R`. Use flag
@@ -485,8 +484,9 @@ class BSplineRedshift(Base1DBSplineModel):
         array_like
             Merger-rate per unit redshift in the detector-frame :math:`R`.
         """
-        return (
+        rate = (
             jnp.exp(self.funcs[1](coefs)) * self.differential_comov_vols[1] / (1 + self.zs[1]) / self.normalization(coefs)
             if pe_samples
             else jnp.exp(self.funcs[0](coefs)) * self.differential_comov_vols[0] / (1 + self.zs[0]) / self.normalization(coefs)
         )
+        return jnp.where(self._valid_xx if pe_samples else self._valid_xx_inj, rate, 0)
-- 
2.43.0


From 9e3a67da0315b199e0e70c4e5cf2e833d30934fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:31 +0000
Subject: [PATCH 02/40] fix: smoothing window is 1 above and 0 below the
 smoothing region

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From bdb6c0c25eaa84bcf9cc1a76841a002536977d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 03/40] fix: PowerlawBasisSplinePrimaryRatio no longer reads a
 nonexistent attribute on construction

---
 gwinferno/models/spline_perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..3decc76 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -217,7 +217,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
+        self.qshapes = [(self.n_splines_q, 1), (self.n_splines_q, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
-- 
2.43.0


From 7094ee0c13ede9b5645d012b6e8c8688bd12efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 04/40] fix: spline perturbation mass models build their bases
 with the requested order

---
 gwinferno/models/spline_perturbation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 3decc76..602192a 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -54,7 +54,7 @@ class PowerlawBasisSplinePrimaryPowerlawRatio(object):
             ]
         )
         self.knots = knots
-        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=4, **kwargs)
+        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=k, **kwargs)
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
         self.dmats = [self.inj_design_matrix, self.pe_design_matrix]
@@ -202,7 +202,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsm,
             interior_knots=interior_mknots,
             xrange=(np.log(mmin), np.log(mmax)),
-            k=4,
+            k=k,
         )
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
@@ -212,7 +212,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsq,
             interior_knots=interior_qknots,
             xrange=(0, 1),
-            k=4,
+            k=k,
         )
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
-- 
2.43.0


From 6e6e32c3505053e41163e03a0921878731b4ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:58 +0000
Subject: [PATCH 05/40] fix: Sine and Cosine log_prob are normalised over the
 requested interval

---
 gwinferno/numpyro_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..7424dd3 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -47,7 +47,7 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
@@ -84,7 +84,7 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
-- 
2.43.0


From 823b6fe1162926224c09e25e29873ba2c8884b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:58 +0000
Subject: [PATCH 06/40] fix: PowerlawSmoothedPowerlaw normalisation has the
 sign of its lower power law right

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7424dd3..716205a 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -220,7 +220,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
         self.k1 = -gamma / (
-            1
+            -1
             + gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-- 
2.43.0


From 3edefdab89b5ddceaef402cf03f5f1d6d59e2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:49 +0000
Subject: [PATCH 07/40] fix: Powerlaw log_prob with index -1 is normalised

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 716205a..71822c4 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -128,7 +128,7 @@ class Powerlaw(Distribution):
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
-- 
2.43.0


From 0ba82099a61a68c18d1ba53b4f7ca53d431dc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 08/40] fix: natural cubic spline has zero second derivative at
 both ends

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..055cf53 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From ff80253bc3b9ea62b785db187069f7fc1d1a646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 09/40] fix: NaturalCubicUnivariateSpline follows the pytree
 flatten protocol

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 055cf53..c108e66 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,10 +43,10 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
+    def tree_unflatten(cls, aux_data, children):
         x, y, coefs = children
         return cls(x, y, coefs)
 
-- 
2.43.0


From 70250743cc0b9477febd3049c2698dd25efb1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 10/40] fix: BasisSpline.project leaves the caller's
 coefficients unchanged

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index c108e66..b9fc336 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -203,7 +203,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs /= jnp.sum(coefs)
+        coefs = coefs / jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0


From 02e5e85214cea3149b7ae478bccfd69a0b6dbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 11/40] fix: RectBivariateBasisSpline.bases calls the reset
 method that exists

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index b9fc336..6792e5e 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -522,7 +522,7 @@ class RectBivariateBasisSpline(object):
         out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From 43708b2f0e065b551d53ebce3ad3f43074c67bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 12/40] fix: RectBivariateBasisSpline bases are ordered (x, y)
 as documented

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 6792e5e..7a3397c 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -519,7 +519,7 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
         self._reset_bases()
-- 
2.43.0


From 7e8b9525de9e32abc180a09652f92a569c1851b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:32 +0000
Subject: [PATCH 13/40] fix: RectBivariateBasisSpline normalisation integrates
 each axis over its own grid

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 7a3397c..da5265f 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -499,7 +499,7 @@ class RectBivariateBasisSpline(object):
         Returns:
             float: the normalization factor given the coefficients
         """
-        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridy), self.gridx) if self.normalize else 1.0
+        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridx), self.gridy) if self.normalize else 1.0
         return n
 
     def _reset_bases(self):
-- 
2.43.0


From 2d4a36f992524f9032138ed04901850c80ba8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:53 +0000
Subject: [PATCH 14/40] fix: powerlaw_pdf accepts index -1 given as a plain
 number

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..2859894 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -112,7 +112,7 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
     norm = jnp.where(
         alpha == -1,
         1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        jnp.divide(1 + alpha, high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob *= norm
 
-- 
2.43.0


From 932cb3b6294f059d9ad1039b26525615c94bfce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:53 +0000
Subject: [PATCH 15/40] fix: Powerlaw density and quantile accept index -1
 given as a plain number

---
 gwinferno/numpyro_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 71822c4..18c4b06 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -127,7 +127,7 @@ class Powerlaw(Distribution):
     @validate_sample
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
-        logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
+        logp = logp + jnp.log(jnp.divide(1.0 + self.alpha, self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
         logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
@@ -147,7 +147,7 @@ class Powerlaw(Distribution):
 
     def icdf(self, q):
         icdf = (self.minimum ** (1.0 + self.alpha) + q * (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha))) ** (
-            1.0 / (1.0 + self.alpha)
+            jnp.divide(1.0, 1.0 + self.alpha)
         )
         icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
-- 
2.43.0


From bbd5dc601fe11c21aeda91386d27b678d341d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:45 +0000
Subject: [PATCH 16/40] fix: BasisSpline places its knots at the interior knots
 it is given

---
 gwinferno/interpolation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index da5265f..a6976b9 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -98,8 +98,15 @@ class BasisSpline(object):
         if knots is None:
             if interior_knots is None:
                 interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
-            dx = interior_knots[1] - interior_knots[0]
-            knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+            interior_knots = np.asarray(interior_knots)
+            pad = np.arange(1, k)
+            knots = jnp.concatenate(
+                [
+                    interior_knots[0] - (interior_knots[1] - interior_knots[0]) * pad[::-1],
+                    interior_knots,
+                    interior_knots[-1] + (interior_knots[-1] - interior_knots[-2]) * pad,
+                ]
+            )
 
         self.knots = knots
         self.interior_knots = interior_knots
-- 
2.43.0


From d7eaeb115226a96093c7563733aa80a06eb74331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:25 +0000
Subject: [PATCH 17/40] fix: DL2z extends the distance table for distances
 beyond it

---
 gwinferno/cosmology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..d65d1fc 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -125,7 +125,8 @@ class Cosmology(object):
         """
         max_DL = jnp.max(DL)
         if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
+            # Dc does not decrease, so DL = (1 + z) * Dc reaches max_DL before z = max_DL / max(Dc)
+            self.extend(max_z=max_DL / jnp.max(self.Dc), dz=dz)
         return jnp.interp(DL, self.DL, self.z)
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From d943ba0ff7edc60c843d4ef253a665038f528164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:25 +0000
Subject: [PATCH 18/40] fix: the cosmological distance table reaches the
 requested redshift

---
 gwinferno/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index d65d1fc..7a147a0 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -67,7 +67,7 @@ class Cosmology(object):
         integrate to solve for distance measures.
         """
 
-        self.z = jnp.arange(0, max_z, dz)
+        self.z = jnp.arange(0, max_z + dz, dz)  # the last point is not below max_z
         Dc = jnp.zeros_like(self.z)
         Vc = jnp.zeros_like(self.z)
 
-- 
2.43.0


From f502c6985d4f06d8d2652e0462a4ca05df9b50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:44 +0000
Subject: [PATCH 19/40] fix: alpha_beta_from_mu_var leaves the caller's arrays
 unchanged

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From 0891c49bc4a46aeecd4f4508b1c5b78df4bce041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:44 +0000
Subject: [PATCH 20/40] fix: effective spin prior on a case boundary uses the
 mass ratio of its own sample

---
 gwinferno/preprocess/priors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..1abfddb 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -182,9 +182,10 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     fallback = np.zeros_like(chi_eff)
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
+        q_boundaries = np.broadcast_to(q, boundaries.shape)[boundaries]
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q_boundaries, a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q_boundaries, a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From 468726d0c7fb6965db72b62767ad0a42d3045788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:44 +0000
Subject: [PATCH 21/40] fix: largest precessing spin at fixed effective spin
 respects the maximum spin magnitude

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 1abfddb..fa88bca 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -318,7 +318,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0


From eb7eb555ffa80f2793bf436b9226382e901a8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:16 +0000
Subject: [PATCH 22/40] fix: effective spin prior accepts one spin value with
 many mass ratios

---
 gwinferno/preprocess/priors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index fa88bca..70558ba 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -179,13 +179,14 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         caseF_pdfs = 0.0
 
     # Deal with spins on the boundary between cases
-    fallback = np.zeros_like(chi_eff)
-    boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
+    boundaries = ~(caseZ | caseA | caseB | caseC | caseD | caseE | caseF)
+    fallback = np.zeros(boundaries.shape)
     if np.any(boundaries):
+        chi_eff_boundaries = np.broadcast_to(chi_eff, boundaries.shape)[boundaries]
         q_boundaries = np.broadcast_to(q, boundaries.shape)[boundaries]
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q_boundaries, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q_boundaries, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff_boundaries + 1e-6, q_boundaries, a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff_boundaries - 1e-6, q_boundaries, a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From 7e9bfe0d70161b60bc1a3d7ded01be64512fedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 23/40] fix: load_posterior_dataset says which argument is
 missing before opening the key file

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..3f8e0fd 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -144,10 +144,10 @@ def append_prior_to_processed_catalog(catalog_dataset, param_names):
 
 def load_posterior_dataset(maximum_mass=100.0, catalog_metadata=None, key_file=None, param_names=["mass_1", "mass_ratio", "redshift"]):
     if catalog_metadata is None:
-        with open(key_file, "r") as f:
-            catalog_metadata = json.load(f)
         if key_file is None:
             raise AssertionError("catalog_metadata or key_file must be specified")
+        with open(key_file, "r") as f:
+            catalog_metadata = json.load(f)
 
     posterior_dict = unprocessed_catalog_dict_from_metadata(catalog_metadata)
     catalog_dataset = processed_catalog_dataset_from_dict(posterior_dict, mmax=maximum_mass)
-- 
2.43.0


From bf389035e55204e408348185aacd5b1a85264c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 24/40] fix: effective precession of a posterior catalogue has
 one row per event

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 3f8e0fd..232da58 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -339,7 +339,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From 49d9166cc7acf77deacbed4fcfe928811e5ab4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 25/40] fix: O3 injections without in-plane spins are read with
 zero in-plane spin

---
 gwinferno/preprocess/selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..850e0ae 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,6 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros(found.size))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros(found.size))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From b56f3ee5b661ef808066e1caf014b745ffc6c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 26/40] fix: effective precession datasets store one prior
 value per sample

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 232da58..f4d432f 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -249,7 +249,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             np.array(q[ii]),
                             a_max=1.0,
                         )
-                    )
+                    )[0]
                 )
             else:
 
@@ -280,7 +280,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 np.array(q[ii][jj]),
                                 a_max=1.0,
                             )
-                        )
+                        )[0]
                     )
                 else:
                     new_prior[ii][jj] = (
-- 
2.43.0


From ae942e20b6cd6f4aeaf58cb68df6a062984c44ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 27/40] fix: ignored events do not count as observations

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..8ec7037 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -89,7 +89,7 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
+    nObs = pedict[param_names[0]].shape[0]
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From e4b7956dda7cde61c90fce18b9dc62f5d5fc09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 28/40] fix: converting posterior samples to a dataset leaves
 the caller's dictionary unchanged

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 8ec7037..dbb2e9f 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -218,15 +218,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    xr_dict = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        xr_dict[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if posteriors[key].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key].shape) - 1)]
+            xr_dict[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(xr_dict)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From 6cf924194c3d86357fa5725c75c3ec327328a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 29/40] fix: datasets of subpopulation curves keep the redshift
 curves and the caller's dictionary

---
 gwinferno/pipeline/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index dbb2e9f..fa69617 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -237,10 +237,9 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         xr_dict = xr_dict | pdfs
     else:
         z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = xr_dict | z
         for i, nm in enumerate(subpop_names):
-            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
+            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items() if key != "redshift"}
             xr_dict = xr_dict | single
 
     coords = {key: ([key], item) for key, item in param_dict.items()}
-- 
2.43.0


From d08cc5af925c650e58a82c4a54f61bebb7ef5b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 30/40] fix: numbers of splines given on the command line are
 integers

---
 gwinferno/pipeline/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index fa69617..2e87afa 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -26,11 +26,11 @@ def load_base_parser():
     )
     parser.add_argument("--run-label", type=str)
     parser.add_argument("--result-dir", type=str)
-    parser.add_argument("--m-nsplines", type=str, default=50)
-    parser.add_argument("--q-nsplines", type=str, default=30)
-    parser.add_argument("--a-nsplines", type=str, default=16)
-    parser.add_argument("--tilt-nsplines", type=str, default=16)
-    parser.add_argument("--z-nsplines", type=str, default=20)
+    parser.add_argument("--m-nsplines", type=int, default=50)
+    parser.add_argument("--q-nsplines", type=int, default=30)
+    parser.add_argument("--a-nsplines", type=int, default=16)
+    parser.add_argument("--tilt-nsplines", type=int, default=16)
+    parser.add_argument("--z-nsplines", type=int, default=20)
     parser.add_argument("--mmin", type=float, default=3.0)
     parser.add_argument("--mmax", type=float, default=100.0)
     parser.add_argument("--chains", type=int, default=1)
-- 
2.43.0


From abee7bde317ca87674126216b1e4a784d63920f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:25 +0000
Subject: [PATCH 31/40] fix: --save-plots False switches plots off

---
 gwinferno/pipeline/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 2e87afa..e5bc35d 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -18,6 +18,10 @@ from gwinferno.models.bsplines.smoothing import apply_difference_prior
 from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel
 
 
+def str_to_bool(value):
+    return value.strip().lower() not in ("false", "f", "no", "n", "0", "")
+
+
 def load_base_parser():
     parser = ArgumentParser()
     parser.add_argument(
@@ -39,7 +43,7 @@ def load_base_parser():
     parser.add_argument("--warmup", type=int, default=1000)
     parser.add_argument("--skip-inference", action="store_true", default=False)
     parser.add_argument("--rngkey", type=int, default=1)
-    parser.add_argument("--save-plots", type=bool, default=True)
+    parser.add_argument("--save-plots", type=str_to_bool, default=True)
     return parser
 
 
-- 
2.43.0


From fa6eda4683c138f31f1958da877ef9175adc0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 32/40] fix: redshift models built from a configuration get the
 redshift grid and volume element they need

---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..12d4352 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology as Planck15
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -370,6 +371,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = Planck15.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -389,7 +391,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[v] = k
-- 
2.43.0


From 3baff7278fd0bd43d1ac06f8ccb1488ef1b360fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 33/40] fix: a parameter sharing another one's model gets that
 model, not the reverse

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 12d4352..e72105b 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -395,7 +395,7 @@ def construct_hierarchical_model(
                     hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 442b52d7ea9fa863ef18de4ff063b0e57c3970ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 34/40] fix: PowerlawSmoothedPowerlaw keeps the alpha_max it
 was given, which argument validation checks

---
 gwinferno/numpyro_distributions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 18c4b06..496fff4 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -213,7 +213,6 @@ class PowerlawSmoothedPowerlaw(Distribution):
 
     def __init__(self, alpha, minimum, maximum, alpha_max, alpha_min, low, high, validate_args=None):
         self.minimum, self.maximum, self.alpha, self.alpha_max, self.alpha_min = promote_shapes(minimum, maximum, alpha, alpha_max, alpha_min)
-        self.alpha_max = -self.alpha_max
         self._support = constraints.interval(low, high)
         self.low, self.high = low, high
         batch_shape = broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(alpha), jnp.shape(alpha_max), jnp.shape(alpha_min))
@@ -226,13 +225,13 @@ class PowerlawSmoothedPowerlaw(Distribution):
             * self.minimum ** (self.alpha_min - self.alpha)
             * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
             + gamma
-            / (self.alpha_max + 1)
+            / (1 - self.alpha_max)
             * self.minimum ** (self.alpha_min - self.alpha)
-            * self.maximum ** (self.alpha - self.alpha_max)
-            * (self.maximum ** (self.alpha_max + 1) - self.high ** (self.alpha_max + 1))
+            * self.maximum ** (self.alpha + self.alpha_max)
+            * (self.maximum ** (1 - self.alpha_max) - self.high ** (1 - self.alpha_max))
         )
         self.k2 = self.k1 * self.minimum ** (self.alpha_min - self.alpha)
-        self.k3 = self.k2 * self.maximum ** (self.alpha - self.alpha_max)
+        self.k3 = self.k2 * self.maximum ** (self.alpha + self.alpha_max)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
     def support(self):
@@ -246,7 +245,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
     @validate_sample
     def log_prob(self, value):
         low_pl = jnp.where(jnp.less(value, self.minimum), jnp.log(self.k1) + jnp.log(value) * self.alpha_min, 0.0)
-        high_pl = jnp.where(jnp.greater(value, self.maximum), jnp.log(self.k3) + jnp.log(value) * self.alpha_max, 0.0)
+        high_pl = jnp.where(jnp.greater(value, self.maximum), jnp.log(self.k3) - jnp.log(value) * self.alpha_max, 0.0)
         mid_pl = jnp.where(
             jnp.greater_equal(value, self.minimum),
             jnp.where(jnp.less_equal(value, self.maximum), jnp.log(self.k2) + jnp.log(value) * self.alpha, 0.0),
-- 
2.43.0


From 6963f881b55f29171e3691f0c361d368bea806fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 35/40] fix: BSplineDistribution is one distribution, not one
 per spline coefficient

---
 gwinferno/numpyro_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 496fff4..4cd2ca1 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -265,7 +265,8 @@ class BSplineDistribution(Distribution):
     def __init__(self, minimum, maximum, cs, grid, grid_dmat, validate_args=None):
         self.maximum, self.minimum, self.cs = promote_shapes(maximum, minimum, cs)
         self._support = constraints.interval(minimum, maximum)
-        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(cs))
+        # one density per coefficient vector, the coefficients are not a batch
+        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum))
         super(BSplineDistribution, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         self.grid = grid
         # grid_dmat will contain nan's where the grid is outside the support
-- 
2.43.0


From b56b24550f26d2d5bc4fca279a912854471f2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 36/40] fix: distributions keep their support and tables when
 JAX flattens and rebuilds them

---
 gwinferno/numpyro_distributions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 4cd2ca1..19b3c79 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -30,6 +30,7 @@ class Sine(Distribution):
         "maximum": constraints.real,
     }
     reparametrized_params = ["minimum", "maximum"]
+    pytree_data_fields = ("minimum", "maximum", "_support")
 
     def __init__(self, minimum=0.0, maximum=jnp.pi, validate_args=None):
         self.minimum, self.maximum = promote_shapes(minimum, maximum)
@@ -67,6 +68,7 @@ class Cosine(Distribution):
         "maximum": constraints.real,
     }
     reparametrized_params = ["minimum", "maximum"]
+    pytree_data_fields = ("minimum", "maximum", "_support")
 
     def __init__(self, minimum=-jnp.pi / 2.0, maximum=jnp.pi / 2.0, validate_args=None):
         self.minimum, self.maximum = promote_shapes(minimum, maximum)
@@ -105,6 +107,7 @@ class Powerlaw(Distribution):
         "alpha": constraints.real,
     }
     reparametrized_params = ["minimum", "maximum", "alpha"]
+    pytree_data_fields = ("minimum", "maximum", "alpha", "_support")
 
     def __init__(self, alpha, minimum=0.0, maximum=1.0, low=0.0, high=1.0, validate_args=None):
         self.minimum, self.maximum, self.alpha = promote_shapes(minimum, maximum, alpha)
@@ -159,6 +162,7 @@ class PowerlawRedshift(Distribution):
         "lamb": constraints.real,
     }
     reparametrized_params = ["maximum", "lamb"]
+    pytree_data_fields = ("maximum", "lamb", "_support", "zs", "dVdc_", "pdfs", "norm", "cdfgrid")
 
     def __init__(self, lamb, maximum, zgrid, dVcdz, low=0.0, high=1000.0, validate_args=None):
         self.maximum, self.lamb = promote_shapes(maximum, lamb)
@@ -210,6 +214,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
         "alpha_min": constraints.positive,
     }
     reparametrized_params = ["minimum", "maximum", "alpha", "alpha_max", "alpha_min"]
+    pytree_data_fields = ("minimum", "maximum", "alpha", "alpha_max", "alpha_min", "_support", "low", "high", "k1", "k2", "k3")
 
     def __init__(self, alpha, minimum, maximum, alpha_max, alpha_min, low, high, validate_args=None):
         self.minimum, self.maximum, self.alpha, self.alpha_max, self.alpha_min = promote_shapes(minimum, maximum, alpha, alpha_max, alpha_min)
@@ -261,6 +266,7 @@ class BSplineDistribution(Distribution):
         "cs": constraints.real_vector,
     }
     reparametrized_params = ["maximum", "minimum", "cs"]
+    pytree_data_fields = ("maximum", "minimum", "cs", "_support", "grid", "lpdfs", "pdfs", "norm", "cdfgrid")
 
     def __init__(self, minimum, maximum, cs, grid, grid_dmat, validate_args=None):
         self.maximum, self.minimum, self.cs = promote_shapes(maximum, minimum, cs)
@@ -302,6 +308,8 @@ class BSplineDistribution(Distribution):
 class PSplineCoeficientPrior(Distribution):
     arg_constraints = {"inv_var": constraints.positive}
     reparametrized_params = ["inv_var"]
+    pytree_data_fields = ("inv_var", "_support")
+    pytree_aux_fields = ("diff_order", "N")
 
     def __init__(self, N, inv_var, diff_order=2, validate_args=None):
         (self.inv_var,) = promote_shapes(inv_var)
-- 
2.43.0


From f9c67860ff7342ae960c47055fe71954568b35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 37/40] fix: the model is read from the Python file given, not
 from another module of the same name

---
 gwinferno/pipeline/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..eb5448a 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -2,9 +2,12 @@
 a module that stores tools for parsing CLI arguments and config files for analysis pipelines
 """
 
+import os
 import sys
 from argparse import ArgumentParser
 from importlib import import_module
+from importlib.util import module_from_spec
+from importlib.util import spec_from_file_location
 
 import jax.numpy as jnp
 import yaml
@@ -32,10 +35,11 @@ class PopMixtureModel(PopModel):
 
 
 def load_model_from_python_file(path):
-    fn = path.split("/")[-1]
-    direct = path.replace(f"/{fn}", "")
-    sys.path.append(direct)
-    return getattr(import_module(fn.replace(".py", "")), "model")
+    sys.path.append(os.path.dirname(os.path.abspath(path)))
+    spec = spec_from_file_location(os.path.splitext(os.path.basename(path))[0], path)
+    module = module_from_spec(spec)
+    spec.loader.exec_module(module)
+    return module.model
 
 
 def load_dist_from_string(dist):
-- 
2.43.0


From ae67d29d19b1d288574b5b5b21de343215e9b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 38/40] fix: plots are saved before the figure is shown, which
 discards it in interactive sessions

---
 gwinferno/postprocess/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/postprocess/plot.py b/gwinferno/postprocess/plot.py
index d897fa2..20bb5f7 100644
--- a/gwinferno/postprocess/plot.py
+++ b/gwinferno/postprocess/plot.py
@@ -24,9 +24,9 @@ def plot_mass_pdfs(mpdfs, qpdfs, m1, q, names, label, result_dir, save=True, col
     plt.xlabel("m1")
     plt.legend()
     plt.xlim(m1[0], m1[-1])
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/mass_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
     plt.figure(figsize=(10, 7))
@@ -37,9 +37,9 @@ def plot_mass_pdfs(mpdfs, qpdfs, m1, q, names, label, result_dir, save=True, col
     plt.xlabel("q")
     plt.legend()
     plt.xlim(0, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/mass_ratio_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
 
@@ -57,9 +57,9 @@ def plot_spin_pdfs(a_pdfs, tilt_pdfs, aa, cc, names, label, result_dir, save=Tru
     plt.xlabel(f"a{comp}")
     plt.legend()
     plt.xlim(0, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/spin_mag{comp}_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
     plt.figure(figsize=(10, 7))
@@ -69,9 +69,9 @@ def plot_spin_pdfs(a_pdfs, tilt_pdfs, aa, cc, names, label, result_dir, save=Tru
     plt.xlabel(rf"cos$\theta${comp}")
     plt.legend()
     plt.xlim(-1, 1)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/cos_tilt{comp}_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
 
 
@@ -84,7 +84,7 @@ def plot_rate_of_z_pdfs(z_pdfs, z, label, result_dir, save=True):
     plt.legend()
     plt.xlim(z[0], 1.5)
     plt.ylim(5, 1e3)
-    plt.show()
     if save:
         plt.savefig(result_dir + f"/redshift_pdf_{label}.png", dpi=100)
+    plt.show()
     plt.close()
-- 
2.43.0


From b64887db5ebf6e7e8855a2b552ce491dc4e322a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:43 +0000
Subject: [PATCH 39/40] fix: the power-law spline redshift model evaluates its
 log probability, with the spline, instead of failing on a missing argument

---
 gwinferno/models/spline_perturbation.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 602192a..c09df88 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -351,6 +351,29 @@ class PowerlawSplineRedshiftModel(PowerlawRedshiftModel):
         ndim = len(z.shape)
         return dVdz * jnp.power(1.0 + z, lamb - 1.0) * jnp.exp(self.interpolator.project(self.dmats[ndim - 1], cs))
 
+    def log_prob(self, z: jnp.ndarray, lamb: float, cs: jnp.ndarray) -> jnp.ndarray:
+        """
+        log_prob Returns log probability
+
+        Args:
+            z (jnp.ndarray): Redshift
+            lamb (float): Power-law exponent for redshift model
+            cs (jnp.ndarray): B-Spline coefficients
+
+        Returns:
+            jnp.ndarray:
+        """
+        ndim = len(z.shape)
+        dVdz = self.dVdzs[ndim - 1]
+        return jnp.where(
+            jnp.less_equal(z, self.zmax),
+            jnp.log(dVdz)
+            + (lamb - 1.0) * jnp.log(1.0 + z)
+            + self.interpolator.project(self.dmats[ndim - 1], cs)
+            - jnp.log(self.normalization(lamb, cs)),
+            jnp.nan_to_num(-jnp.inf),
+        )
+
     def __call__(self, z: jnp.ndarray, lamb: float, cs: jnp.ndarray) -> jnp.ndarray:
         """
         __call__
-- 
2.43.0


From fc76020f61655905ba1970ff8f9b1b999b4ecb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:32 +0000
Subject: [PATCH 40/40] fix: spline basis functions at samples of integer type
 are not truncated to zero

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index a6976b9..869a897 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -146,9 +146,9 @@ class BasisSpline(object):
             array_like: the ith basis component of order k evaluated at xs
         """
         if self.knots[i + k] - self.knots[i] < 1e-6:
-            return np.zeros_like(xs)
+            return np.zeros_like(xs, dtype=float)
         elif k == 1:
-            v = np.zeros_like(xs)
+            v = np.zeros_like(xs, dtype=float)
             v[(xs >= self.knots[i]) & (xs < self.knots[i + 1])] = 1 / (self.knots[i + 1] - self.knots[i])
             return v
         else:
-- 
2.43.0

