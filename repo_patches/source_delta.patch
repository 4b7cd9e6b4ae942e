From b6ec347997c3da460a56570fb12db280c47ecbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 01/42] fix: Lomax shape and scale swapped in
 exponential_gamma_predictive

The predictive of an Exponential(rate) likelihood under Gamma(alpha, beta) is
Lomax with shape alpha and scale beta; the two were passed the wrong way round.
---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..f218ec4 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -692,7 +692,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 7cf75654fbce567ba2d9c768eb361b3b0980d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 02/42] fix: Uniform.dist upper bound

scipy's uniform takes loc and scale, so low=10, high=20 covered [10, 30].
---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..55c47eb 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(self.low, np.subtract(self.high, self.low))
 
 
 @dataclass
-- 
2.43.0


From fa404fa90d0041ce87c5558d1eb8d414fa90bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 03/42] fix: LogNormal.dist mean of the logarithm

mu was passed as scipy's loc, which shifts the support instead of setting the
mean of log(x); scipy expects scale=exp(mu).
---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 55c47eb..20fcefa 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From 6beeb1b29fa789f802d84afa750c59bd78629c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 04/42] fix: beta geometric pmf off by one

The pmf of the distribution starting at 1 was the one of the distribution
starting at 0 (and that one was shifted by another 1), so the probabilities did
not sum to one over the support and did not match the samples. Values outside
the support have probability 0, and the ratio of beta functions is taken on the
log scale as both underflow for large parameters.
---
 conjugate/_beta_geometric.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..03381b3 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -3,16 +3,22 @@
 import numpy as np
 
 from scipy import stats
-from scipy.special import beta
+from scipy.special import betaln
 
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
 
-    if not one_start:
-        x = x + 1
+    if one_start:
+        x = x - 1
 
-    return beta(a + 1, x + b) / beta(a, b)
+    # x is now the number of failures before the first success
+    in_support = (x >= 0) & (x == np.floor(x))
+    x = np.where(in_support, x, 0)
+
+    pmf = np.exp(betaln(a + 1, x + b) - betaln(a, b))
+
+    return np.where(in_support, pmf, 0.0)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From c5d1396835479a2a238574d9a2cde710b28236ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 05/42] fix: compound gamma pdf for large parameters

beta(a, b) underflows for large parameters, which a posterior reaches after a
few hundred observations, and the pdf became nan or inf. The compound gamma is
scipy's betaprime with a scale. The pdf is now also 0 for negative values.
---
 conjugate/_compound_gamma.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..23ea0fa 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,11 +1,10 @@
 import numpy as np
 
-from scipy.special import beta
-from scipy.stats import gamma
+from scipy.stats import betaprime, gamma
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    return betaprime.pdf(x, a, b, scale=q)
 
 
 class compound_gamma:
-- 
2.43.0


From c07a36c0ffad1f88763678c4d0207533d3f73c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 06/42] fix: plot_cdf of BetaGeometric and CompoundGamma

plot_cdf raised AttributeError as the two hand written distributions had no
cdf method.
---
 conjugate/_beta_geometric.py | 17 +++++++++++++++++
 conjugate/_compound_gamma.py |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 03381b3..6eafaea 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -21,6 +21,20 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     return np.where(in_support, pmf, 0.0)[()]
 
 
+def beta_geometric_cdf(x, a, b, one_start: bool = True):
+    x, a, b = np.broadcast_arrays(x, a, b)
+
+    if one_start:
+        x = x - 1
+
+    in_support = x >= 0
+    x = np.where(in_support, np.floor(x), 0)
+
+    sf = np.exp(betaln(a, x + b + 1) - betaln(a, b))
+
+    return np.where(in_support, 1.0 - sf, 0.0)[()]
+
+
 class beta_geometric:
     """Implementation to work like scipy distribution classes.
 
@@ -52,3 +66,6 @@ class beta_geometric:
 
     def pmf(self, x):
         return beta_geometric_pmf(x, self.a, self.b, one_start=self.one_start)
+
+    def cdf(self, x):
+        return beta_geometric_cdf(x, self.a, self.b, one_start=self.one_start)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 23ea0fa..bacd52b 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -7,6 +7,10 @@ def compound_gamma_pdf(x, a, b, q):
     return betaprime.pdf(x, a, b, scale=q)
 
 
+def compound_gamma_cdf(x, a, b, q):
+    return betaprime.cdf(x, a, b, scale=q)
+
+
 class compound_gamma:
     """Implementation to work like scipy distribution classes.
 
@@ -32,3 +36,6 @@ class compound_gamma:
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
+
+    def cdf(self, x):
+        return compound_gamma_cdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 3658d534dbbb957e84bb9f70528d5772b8728fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 07/42] fix: scale of the marginal of MultivariateStudentT

sigma of the multivariate distribution is a (squared) shape matrix while sigma
of StudentT is a scale, so the marginal needs the square root of the diagonal.
---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 20fcefa..b9375c0 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From 34b417727a739e44dd8c9310801d926b14b90266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 08/42] fix: index multivariate distributions with numpy
 integers

A numpy integer, as from np.argmax or iterating np.arange, raised IndexError.
---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index b9375c0..5bcd986 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -479,7 +479,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -707,7 +707,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From 7bff95dc82c947064b7ecbc9620294c07cf95776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 09/42] fix: Dirichlet posterior of plain Python sequences

Lists (or tuples) for both the prior and the counts were concatenated instead
of added, and counts for a different number of categories than the prior were
silently cut to the shorter of the two.
---
 conjugate/models.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f218ec4..3bb35fd 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -428,10 +428,19 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
-    try:
-        return alpha_prior + x
-    except Exception:
-        return [alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x)]
+    # + on two lists or two tuples would concatenate them
+    both_sequences = isinstance(alpha_prior, (list, tuple)) and isinstance(
+        x, (list, tuple)
+    )
+    if not both_sequences:
+        try:
+            return alpha_prior + x
+        except Exception:
+            pass
+
+    return [
+        alpha_prior_i + x_i for alpha_prior_i, x_i in zip(alpha_prior, x, strict=True)
+    ]
 
 
 def get_categorical_dirichlet_posterior_params(
-- 
2.43.0


From 5191c5a0bd2ddc66218bfa39fded8ac530094f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 10/42] fix: Dirichlet.dist with a list of parameters

Dirichlet([1, 1, 1]).dist raised AttributeError for the missing ndim.
---
 conjugate/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 5bcd986..ea5a7b8 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -160,10 +160,12 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
-            return stats.dirichlet(self.alpha)
+        alpha = np.asarray(self.alpha)
 
-        return VectorizedDist(self.alpha, dist=stats.dirichlet)
+        if alpha.ndim == 1:
+            return stats.dirichlet(alpha)
+
+        return VectorizedDist(alpha, dist=stats.dirichlet)
 
 
 @dataclass
-- 
2.43.0


From 3d363c5f83f3f3f2bd2e6d08410d8cd47247f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 11/42] fix: wrong type error for models accepting several
 distributions

A union of types has no __name__, so a wrong prior raised AttributeError instead
of the ValueError with the explanation.
---
 conjugate/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 3bb35fd..fcd7121 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -79,8 +79,9 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_name = getattr(expected_type, "__name__", str(expected_type))
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From faaef18c418e49339d9a473f26b4d3e2997be084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 12/42] fix: posterior of the von Mises direction with known
 concentration

The prior exp(a cos(mu - b)) times the likelihood exp(kappa sum cos(x - mu)) is
exp(a' cos(mu - b')) with a' the length and b' the direction of the resultant
(a cos b + kappa sum cos x, a sin b + kappa sum sin x). Instead, a' was kappa
times the sine component, negative for half of the circle, and kappa was left
out of b'. The log likelihood of the distribution added a to the cosine rather
than multiplying by it, so it did not depend on the concentration.
---
 conjugate/distributions.py | 2 +-
 conjugate/models.py        | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index ea5a7b8..5621502 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -923,7 +923,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
diff --git a/conjugate/models.py b/conjugate/models.py
index fcd7121..e3139b3 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1693,10 +1693,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From 67b6af39970859ed93f2d907a868bfa52b3d8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 13/42] fix: variance samples of NormalGamma, NormalWishart and
 NormalInverseWishart

sample_variance returned the variance of the mean (divided by lam or kappa)
rather than the variance of the observations it is documented to return and
NormalInverseGamma does return. The samples of the mean are unchanged.
---
 conjugate/distributions.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 5621502..e3f6c0b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1033,7 +1033,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1073,7 +1073,7 @@ class NormalGamma:
 
         """
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
@@ -1161,9 +1161,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1192,7 +1190,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
                     size=1,
                     random_state=random_state,
                 )
@@ -1250,10 +1248,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1280,7 +1275,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance
-- 
2.43.0


From 76262ea175f6ce05e315f4c3a615c57bfd10e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 14/42] fix: normal posterior without observations

n = 0, like a group without data among others, gave nan (or a
ZeroDivisionError) instead of the prior because of the division by n, which
cancels anyway.
---
 conjugate/models.py  | 4 +---
 docs/examples/sql.md | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index e3139b3..b0b502a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1234,10 +1234,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index 0f20ea6..da26e45 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
-- 
2.43.0


From 91830fca111f9107da059d2142bd4f680599d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 15/42] fix: poisson_gamma_predictive for n other than 1

The count over n units of time has one common rate: it is Poisson(n * lambda)
with lambda ~ Gamma(alpha, beta), so NegativeBinomial(alpha, beta / (n + beta)).
Scaling alpha instead is the sum of counts with independent rates, which
understates the variance.
---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index b0b502a..873a69d 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -621,10 +621,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 # Just happen to be the same as above
-- 
2.43.0


From 21ede99f32a5922c7888330efc4cb13f177c91c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 16/42] fix: conditional plots of several distributions

The probabilities were divided by the sum over all the distributions rather
than by the sum of each.
---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..b5acc8a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -322,7 +322,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From a44e8a05163d633815d9c18bdcca3045013438c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 17/42] fix: Exponential takes a rate

lam is documented as the rate, and is the parameter exponential_gamma has a
Gamma posterior for, but was used as the mean.
---
 conjugate/distributions.py |  4 ++--
 docs/examples/thompson.md  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index e3f6c0b..d4a80a8 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -217,10 +217,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / np.asarray(self.lam))
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 114121c..7f2e902 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -25,10 +25,10 @@ import numpy as np
 
 import matplotlib.pyplot as plt
 
-lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
-n_groups = len(lam)
+mean_wait = np.array([0.5, 0.55, 0.6, 0.8, 1])
+n_groups = len(mean_wait)
 
-true_dist = Exponential(lam=lam)
+true_dist = Exponential(lam=1 / mean_wait)
 ```
 
 We will create some helper functions to abstract:
@@ -93,7 +93,7 @@ fig, axes = plt.subplots(ncols=2)
 fig.suptitle("Thompson Sampling using conjugate-models")
 
 ax = axes[0]
-estimate.set_max_value(2).plot_pdf(label=lam, ax=ax)
+estimate.set_max_value(2).plot_pdf(label=mean_wait, ax=ax)
 ax.legend(title="True Mean")
 ax.set(
     xlabel="Mean Wait Time",
@@ -102,7 +102,7 @@ ax.set(
 
 ax = axes[1]
 n_times_sampled = estimate.beta - 1
-ax.scatter(lam, n_times_sampled / total_samples)
+ax.scatter(mean_wait, n_times_sampled / total_samples)
 ax.set(
     xlabel="True Mean Wait Time",
     ylabel="% of times sampled",
-- 
2.43.0


From 624e928ec75c4b73011677ec9fd6b61723543941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 18/42] fix: use the inv argument throughout the multivariate
 normal models

The matrix inversion passed by the user was not used for the posterior mean.
---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 873a69d..4cbc8e6 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1772,6 +1772,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1829,6 +1830,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From 41be26ceae62a606a41b5e0964fdffe25a1ff7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 19/42] fix: dependent samples from an integer random_state

Samplers made of several draws passed an integer seed to each of them, so each
started from the same state: all the coefficients of sample_beta had the same
normal deviates, and the mixing variables of the other samplers were correlated
with the draws given them.
---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 15 +++++++++++++++
 conjugate/distributions.py   |  5 +++++
 4 files changed, 26 insertions(+)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 6eafaea..ae0c019 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import betaln
 
+from conjugate._random import share_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -56,6 +58,7 @@ class beta_geometric:
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
 
+        random_state = share_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index bacd52b..cbdba5a 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -2,6 +2,8 @@ import numpy as np
 
 from scipy.stats import betaprime, gamma
 
+from conjugate._random import share_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     return betaprime.pdf(x, a, b, scale=q)
@@ -31,6 +33,7 @@ class compound_gamma:
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
 
+        random_state = share_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
 
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..66877fb
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,15 @@
+from numbers import Integral
+
+import numpy as np
+
+
+def share_random_state(random_state):
+    """Make a random state that several draws can take in turn.
+
+    An integer seed given to each of the draws would start them all from the same
+    state, so their results would not be independent of each other.
+    """
+    if isinstance(random_state, Integral):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index d4a80a8..af047fa 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import share_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -656,6 +657,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1072,6 +1074,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1186,6 +1189,7 @@ class NormalWishart:
 
         """
 
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1271,6 +1275,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 2ad1e54fe51798da431ce5b2531db76e819291a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 20/42] fix: random_state for samples of several Dirichlet
 distributions

rvs of a Dirichlet with a row of parameters per distribution did not take
random_state, unlike that of one distribution.
---
 conjugate/distributions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index af047fa..1152d35 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -134,8 +134,14 @@ class VectorizedDist:
         self.params = params
         self.dist = dist
 
-    def rvs(self, size: int = 1) -> np.ndarray:
-        return np.stack([self.dist(param).rvs(size=size) for param in self.params])
+    def rvs(self, size: int = 1, random_state=None) -> np.ndarray:
+        random_state = share_random_state(random_state)
+        return np.stack(
+            [
+                self.dist(param).rvs(size=size, random_state=random_state)
+                for param in self.params
+            ]
+        )
 
     def mean(self) -> np.ndarray:
         return np.stack([self.dist(param).mean() for param in self.params])
-- 
2.43.0


From 25fb6a0b40a73f639e906481168580d20154bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 21/42] fix: indexing a distribution out of range

Every failure to index a parameter gave the whole parameter: an index out of
range returned all of the distributions, iterating over a distribution never
ended, and selecting several elements of a list had no effect.
---
 conjugate/slice.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..3c07025 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -1,5 +1,7 @@
 from dataclasses import asdict
 
+import numpy as np
+
 
 class SliceMixin:
     """Mixin in order to slice the parameters"""
@@ -10,10 +12,20 @@ class SliceMixin:
 
     def __getitem__(self, key):
         def take_slice(value, key):
+            if np.ndim(value) == 0:
+                return value
+
             try:
                 return value[key]
-            except Exception:
-                return value
+            except TypeError:
+                # list and tuple only take integers and slices
+                return np.asarray(value)[key]
+            except IndexError:
+                if np.shape(value)[0] == 1:
+                    # broadcasts with the other parameters
+                    return value
+
+                raise
 
         new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
 
-- 
2.43.0


From 688bf85223f09246bd8a7ba8075789d8cc10f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 22/42] fix: default plotting bounds of vector parameters

Several Uniform distributions, or counts that come as a list or pandas.Series
rather than a numpy array, could not be plotted as the bounds were not scalars.
---
 conjugate/distributions.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 1152d35..57e4cee 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -57,6 +57,14 @@ from conjugate.plot import (
 from conjugate.slice import SliceMixin
 
 
+def _extreme(func: Callable, value: Any) -> Any:
+    """Single plotting bound out of one or many values."""
+    if isinstance(value, (list, tuple)) or hasattr(value, "__array__"):
+        return func(np.asarray(value))
+
+    return value
+
+
 def get_beta_param_from_mean_and_alpha(mean: NUMERIC, alpha: NUMERIC) -> NUMERIC:
     beta = alpha * ((1 / mean) - 1)
 
@@ -117,10 +125,7 @@ class Binomial(DiscretePlotMixin, SliceMixin):
     p: NUMERIC
 
     def __post_init__(self):
-        if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
-        else:
-            self.max_value = self.n
+        self.max_value = _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -300,10 +305,7 @@ class Hypergeometric(DiscretePlotMixin, SliceMixin):
     n: NUMERIC
 
     def __post_init__(self) -> None:
-        if isinstance(self.N, np.ndarray):
-            self.max_value = self.N.max()
-        else:
-            self.max_value = self.N
+        self.max_value = _extreme(np.max, self.N)
 
     @property
     def dist(self):
@@ -352,10 +354,7 @@ class BetaBinomial(DiscretePlotMixin, SliceMixin):
     beta: NUMERIC
 
     def __post_init__(self):
-        if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
-        else:
-            self.max_value = self.n
+        self.max_value = _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -378,10 +377,7 @@ class BetaNegativeBinomial(DiscretePlotMixin, SliceMixin):
     beta: NUMERIC
 
     def __post_init__(self):
-        if isinstance(self.n, np.ndarray):
-            self.max_value = self.n.max()
-        else:
-            self.max_value = self.n
+        self.max_value = _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -508,8 +504,8 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        self.min_value = _extreme(np.min, self.low)
+        self.max_value = _extreme(np.max, self.high)
 
     @property
     def dist(self):
-- 
2.43.0


From 7a9807bba83aae6beb15aa30a6a487be9b9dd390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 23/42] fix: plot with a single color

A name like "C2" or "black" and an RGB tuple are iterable and were taken for a
color cycle, which raised or set the cycle of the axes for all later plots.
---
 conjugate/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index b5acc8a..9137d68 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -57,6 +58,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     return label
 
 
+def is_color_cycle(color) -> bool:
+    """A color for each of the lines as opposed to a single color, also iterable."""
+    return isinstance(color, Iterable) and not is_color_like(color)
+
+
 class PlotDistMixin:
     """Base mixin in order to support plotting. Requires the dist attribute of the scipy distribution."""
 
@@ -178,7 +184,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +346,7 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From 0c334ebfcee0213b6f7974edab650fe991aee8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 24/42] fix: callable label for a single distribution

The label was the representation of the function instead of its result.
---
 conjugate/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 9137d68..0aca447 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -48,13 +48,13 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
+    if callable(label):
+        return label(0)
+
     return label
 
 
-- 
2.43.0


From 853c74490fb3cb4095585b52310f2b12997ab896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 25/42] fix: exponential gamma posterior

The posterior added the sum of the outcomes to the shape and the number of
samples to the rate, the update of a Poisson likelihood. For an exponential
likelihood the number of samples adds to the shape and the sum to the rate.
---
 conjugate/models.py       | 13 +++++++++++--
 docs/examples/thompson.md |  9 +++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 4cbc8e6..e6d2018 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -626,8 +626,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=distribution.alpha, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 7f2e902..8f7680f 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -63,7 +63,8 @@ def bayesian_update_stats(
 def thompson_step(estimate: Gamma, rng) -> Gamma:
     sample = estimate.dist.rvs(random_state=rng)
 
-    group_to_sample = np.argmin(sample)
+    # The highest rate has the lowest wait time
+    group_to_sample = np.argmax(sample)
 
     group_sample = sample_true_distribution(group_to_sample, rng=rng)
     x, n = bayesian_update_stats(group_to_sample, group_sample)
@@ -93,15 +94,15 @@ fig, axes = plt.subplots(ncols=2)
 fig.suptitle("Thompson Sampling using conjugate-models")
 
 ax = axes[0]
-estimate.set_max_value(2).plot_pdf(label=mean_wait, ax=ax)
+estimate.set_max_value(4).plot_pdf(label=mean_wait, ax=ax)
 ax.legend(title="True Mean")
 ax.set(
-    xlabel="Mean Wait Time",
+    xlabel="Rate (1 / Mean Wait Time)",
     title="Posterior Distribution by Group",
 )
 
 ax = axes[1]
-n_times_sampled = estimate.beta - 1
+n_times_sampled = estimate.alpha - 1
 ax.scatter(mean_wait, n_times_sampled / total_samples)
 ax.set(
     xlabel="True Mean Wait Time",
-- 
2.43.0


From 607c8f0eeefe90fc34d378686913038c523e880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 26/42] docs: leave the examples as they were

---
 docs/examples/sql.md      |  4 ++--
 docs/examples/thompson.md | 17 ++++++++---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/docs/examples/sql.md b/docs/examples/sql.md
index da26e45..0f20ea6 100644
--- a/docs/examples/sql.md
+++ b/docs/examples/sql.md
@@ -73,8 +73,8 @@ Which results in this query:
 
 ```sql
 SELECT "group",
-       (0.0+SUM("sales"))/(0.1+COUNT(*)) "mu",
-       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+SUM("sales"))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
+       (0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)) "mu",
+       POW((1+0.5*(0.0+SUM(POW("sales", 2))-POW((0.0+COUNT(*)*SUM("sales")/COUNT(*))/(0.1+COUNT(*)), 2)*(0.1+COUNT(*))))*(0.1+COUNT(*)+1)/((0.1+COUNT(*))*(0.1+COUNT(*)/2)), 0.5) "sigma",
        2*(0.1+COUNT(*)/2) "nu"
 FROM "events"
 GROUP BY "group"
diff --git a/docs/examples/thompson.md b/docs/examples/thompson.md
index 8f7680f..114121c 100644
--- a/docs/examples/thompson.md
+++ b/docs/examples/thompson.md
@@ -25,10 +25,10 @@ import numpy as np
 
 import matplotlib.pyplot as plt
 
-mean_wait = np.array([0.5, 0.55, 0.6, 0.8, 1])
-n_groups = len(mean_wait)
+lam = np.array([0.5, 0.55, 0.6, 0.8, 1])
+n_groups = len(lam)
 
-true_dist = Exponential(lam=1 / mean_wait)
+true_dist = Exponential(lam=lam)
 ```
 
 We will create some helper functions to abstract:
@@ -63,8 +63,7 @@ def bayesian_update_stats(
 def thompson_step(estimate: Gamma, rng) -> Gamma:
     sample = estimate.dist.rvs(random_state=rng)
 
-    # The highest rate has the lowest wait time
-    group_to_sample = np.argmax(sample)
+    group_to_sample = np.argmin(sample)
 
     group_sample = sample_true_distribution(group_to_sample, rng=rng)
     x, n = bayesian_update_stats(group_to_sample, group_sample)
@@ -94,16 +93,16 @@ fig, axes = plt.subplots(ncols=2)
 fig.suptitle("Thompson Sampling using conjugate-models")
 
 ax = axes[0]
-estimate.set_max_value(4).plot_pdf(label=mean_wait, ax=ax)
+estimate.set_max_value(2).plot_pdf(label=lam, ax=ax)
 ax.legend(title="True Mean")
 ax.set(
-    xlabel="Rate (1 / Mean Wait Time)",
+    xlabel="Mean Wait Time",
     title="Posterior Distribution by Group",
 )
 
 ax = axes[1]
-n_times_sampled = estimate.alpha - 1
-ax.scatter(mean_wait, n_times_sampled / total_samples)
+n_times_sampled = estimate.beta - 1
+ax.scatter(lam, n_times_sampled / total_samples)
 ax.set(
     xlabel="True Mean Wait Time",
     ylabel="% of times sampled",
-- 
2.43.0


From 42cb853d3313d9a4b6990212235a5a3163b1c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 27/42] fix: log likelihoods of the von Mises models for large
 concentrations

---
 conjugate/distributions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 57e4cee..513e6e9 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -43,7 +43,7 @@ from packaging import version
 import numpy as np
 
 from scipy import stats, __version__ as scipy_version
-from scipy.special import gammaln, i0
+from scipy.special import gammaln, i0, i0e
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
@@ -65,6 +65,15 @@ def _extreme(func: Callable, value: Any) -> Any:
     return value
 
 
+def _log_i0(x: NUMERIC, ln: Callable, bessel: Callable) -> NUMERIC:
+    """Log of the modified bessel function of order 0."""
+    if ln is np.log and bessel is i0:
+        # i0 itself overflows for x larger than about 700
+        return np.log(i0e(x)) + np.abs(x)
+
+    return ln(bessel(x))
+
+
 def get_beta_param_from_mean_and_alpha(mean: NUMERIC, alpha: NUMERIC) -> NUMERIC:
     beta = alpha * ((1 / mean) - 1)
 
@@ -927,7 +936,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a * cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - _log_i0(self.a, ln, i0)
 
 
 @dataclass
@@ -956,7 +965,7 @@ class VonMisesKnownDirectionProportional:
             log likelihood up to a constant
 
         """
-        return kappa * self.r - self.c * ln(i0(kappa))
+        return kappa * self.r - self.c * _log_i0(kappa, ln, i0)
 
 
 @dataclass
-- 
2.43.0


From da154b606fb18e280d162df0b50dfa6c587788a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 28/42] fix: multivariate normal posterior without observations

---
 conjugate/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index e6d2018..9563504 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1956,7 +1956,8 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
+    # without observations there is no mean
+    X_mean = X.mean(axis=0) if n > 0 else prior.mu
     C = (X - X_mean).T @ (X - X_mean)
 
     mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
-- 
2.43.0


From 1d63865c088cfc23242fc939f09ab3ebd88c7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 29/42] fix: sample size of zero for beta geometric and
 compound gamma

---
 conjugate/_beta_geometric.py | 2 +-
 conjugate/_compound_gamma.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index ae0c019..3af0751 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -56,7 +56,7 @@ class beta_geometric:
         random_state: np.random.Generator | None = None,
     ):
         a, b = np.broadcast_arrays(self.a, self.b)
-        size = np.broadcast_shapes(a.shape, b.shape, size or ())
+        size = np.broadcast_shapes(a.shape, b.shape, () if size is None else size)
 
         random_state = share_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index cbdba5a..7acb2a7 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -31,7 +31,9 @@ class compound_gamma:
         random_state: np.random.Generator | None = None,
     ):
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
-        size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
+        size = np.broadcast_shapes(
+            a.shape, b.shape, q.shape, () if size is None else size
+        )
 
         random_state = share_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-- 
2.43.0


From 9cf2b53f0b9afbde01d1bfec454783e7642fdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 30/42] fix: samples of one dimensional NormalWishart and
 NormalInverseWishart

---
 conjugate/distributions.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 513e6e9..8e69d35 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1175,12 +1175,10 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
 
-        if size == 1:
-            variance = variance[None, ...]
-
-        return variance
+        # scipy leaves out the dimensions of length 1
+        return inv(np.reshape(precision, (*np.atleast_1d(size), *np.shape(self.W))))
 
     def sample_mean(
         self,
@@ -1264,10 +1262,9 @@ class NormalInverseWishart:
 
         """
         variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-        if size == 1:
-            variance = variance[None, ...]
 
-        return variance
+        # scipy leaves out the dimensions of length 1
+        return np.reshape(variance, (*np.atleast_1d(size), *np.shape(self.psi)))
 
     def sample_mean(
         self,
-- 
2.43.0


From 5ad6ba6bbae0c4bc415aa3ba697139cd328fd96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 31/42] fix: keep leading axes of length one in compound gamma
 samples

---
 conjugate/_compound_gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7acb2a7..2c49ca1 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -37,7 +37,7 @@ class compound_gamma:
 
         random_state = share_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 3cbdaf960ff404a7d587038bc9617f69f3d432b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 32/42] fix: raise for an index out of range of parameters of
 length one

A parameter of length one is only kept whole where it broadcasts with a longer
one, which slices now respect too.
---
 conjugate/slice.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index 3c07025..f97bb61 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -11,21 +11,24 @@ class SliceMixin:
         return asdict(self)
 
     def __getitem__(self, key):
+        length = max(
+            (np.shape(v)[0] for v in self.params.values() if np.ndim(v) > 0),
+            default=0,
+        )
+
         def take_slice(value, key):
             if np.ndim(value) == 0:
                 return value
 
+            if np.shape(value)[0] == 1 and length > 1:
+                # broadcasts with the other parameters
+                return value
+
             try:
                 return value[key]
             except TypeError:
                 # list and tuple only take integers and slices
                 return np.asarray(value)[key]
-            except IndexError:
-                if np.shape(value)[0] == 1:
-                    # broadcasts with the other parameters
-                    return value
-
-                raise
 
         new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
 
-- 
2.43.0


From 4418bb88c7f7f974654fd81cb4c0f8518b2d9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 33/42] fix: select none of the distributions with natural
 bounds

The extreme of no values raised an error.
---
 conjugate/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 8e69d35..daee6ec 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -60,7 +60,8 @@ from conjugate.slice import SliceMixin
 def _extreme(func: Callable, value: Any) -> Any:
     """Single plotting bound out of one or many values."""
     if isinstance(value, (list, tuple)) or hasattr(value, "__array__"):
-        return func(np.asarray(value))
+        value = np.asarray(value)
+        return func(value) if value.size else value
 
     return value
 
-- 
2.43.0


From 0ef541cfdc4564e891efd3ddf661acf028369e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 34/42] fix: plot bounds follow the parameters that they come
 from

The bounds of distributions with a natural one were those of the parameters at
the time of construction: changing a parameter left them as they were.
---
 conjugate/distributions.py | 30 +++++++++++++++++++-----------
 conjugate/plot.py          | 15 +++++++++------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index daee6ec..9cf8754 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -134,8 +134,9 @@ class Binomial(DiscretePlotMixin, SliceMixin):
     n: NUMERIC
     p: NUMERIC
 
-    def __post_init__(self):
-        self.max_value = _extreme(np.max, self.n)
+    @property
+    def _natural_max_value(self):
+        return _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -314,8 +315,9 @@ class Hypergeometric(DiscretePlotMixin, SliceMixin):
     k: NUMERIC
     n: NUMERIC
 
-    def __post_init__(self) -> None:
-        self.max_value = _extreme(np.max, self.N)
+    @property
+    def _natural_max_value(self):
+        return _extreme(np.max, self.N)
 
     @property
     def dist(self):
@@ -363,8 +365,9 @@ class BetaBinomial(DiscretePlotMixin, SliceMixin):
     alpha: NUMERIC
     beta: NUMERIC
 
-    def __post_init__(self):
-        self.max_value = _extreme(np.max, self.n)
+    @property
+    def _natural_max_value(self):
+        return _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -386,8 +389,9 @@ class BetaNegativeBinomial(DiscretePlotMixin, SliceMixin):
     alpha: NUMERIC
     beta: NUMERIC
 
-    def __post_init__(self):
-        self.max_value = _extreme(np.max, self.n)
+    @property
+    def _natural_max_value(self):
+        return _extreme(np.max, self.n)
 
     @property
     def dist(self):
@@ -513,9 +517,13 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     low: NUMERIC
     high: NUMERIC
 
-    def __post_init__(self):
-        self.min_value = _extreme(np.min, self.low)
-        self.max_value = _extreme(np.max, self.high)
+    @property
+    def _natural_min_value(self):
+        return _extreme(np.min, self.low)
+
+    @property
+    def _natural_max_value(self):
+        return _extreme(np.max, self.high)
 
     @property
     def dist(self):
diff --git a/conjugate/plot.py b/conjugate/plot.py
index 0aca447..c275dd1 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -74,10 +74,13 @@ class PlotDistMixin:
 
     @property
     def max_value(self) -> float:
-        if not hasattr(self, "_max_value"):
-            raise ValueError("Set the max value before plotting.")
+        if hasattr(self, "_max_value"):
+            return self._max_value
 
-        return self._max_value
+        if hasattr(self, "_natural_max_value"):
+            return self._natural_max_value
+
+        raise ValueError("Set the max value before plotting.")
 
     @max_value.setter
     def max_value(self, value: float) -> None:
@@ -90,10 +93,10 @@ class PlotDistMixin:
 
     @property
     def min_value(self) -> float:
-        if not hasattr(self, "_min_value"):
-            self._min_value = 0.0
+        if hasattr(self, "_min_value"):
+            return self._min_value
 
-        return self._min_value
+        return getattr(self, "_natural_min_value", 0.0)
 
     @min_value.setter
     def min_value(self, value: float) -> None:
-- 
2.43.0


From 5062abc84cf17c8ef503995c7208992da4014228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 35/42] fix: hypergeometric posterior does not share its n with
 the prior

Changing the array of the prior afterwards changed the posterior.
---
 conjugate/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 9563504..c804ccf 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -32,6 +32,7 @@ Below are the supported models:
 
 """
 
+from copy import copy
 from functools import wraps
 from typing import Callable
 
@@ -341,7 +342,8 @@ def hypergeometric_beta_binomial(
     alpha_post = prior.alpha + x_total
     beta_post = prior.beta + (n - x_total)
 
-    return BetaBinomial(n=n, alpha=alpha_post, beta=beta_post)
+    # the posterior has its own n
+    return BetaBinomial(n=copy(n), alpha=alpha_post, beta=beta_post)
 
 
 @validate_prior_type
-- 
2.43.0


From 47b97780877cd90ce1e41d70d99cd0b77ec98875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 36/42] fix: half of an SQL count is not an integer division

The shape of the posterior of the normal models had n / 2, which is truncated by
SQLite, PostgreSQL and others for a count of rows. The linear regression has the
product with 0.5 already.
---
 conjugate/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index c804ccf..48f294a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1114,7 +1114,7 @@ def _normal_known_mean_inverse_gamma_prior(
     mu: NUMERIC,
     prior: InverseGamma,
 ) -> InverseGamma:
-    alpha_post = prior.alpha + (n / 2)
+    alpha_post = prior.alpha + (0.5 * n)
     beta_post = prior.beta + (0.5 * (x2_total - (2 * mu * x_total) + (n * (mu**2))))
 
     return InverseGamma(alpha=alpha_post, beta=beta_post)
@@ -1247,7 +1247,7 @@ def _normal(
     nu_post = nu + n
     mu_post = ((nu * mu_0) + x_total) / nu_post
 
-    alpha_post = alpha + (n / 2)
+    alpha_post = alpha + (0.5 * n)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
 
     return mu_post, nu_post, alpha_post, beta_post
-- 
2.43.0


From d9f0597af37f41bdae61f7bf7f0189622d0bf40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 37/42] fix: plot discrete distributions at the integers within
 fractional bounds

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index c275dd1..970b98c 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -316,7 +316,7 @@ class DiscretePlotMixin(PlotDistMixin):
         return self._plot(ax=ax, cdf=True, mark=mark, conditional=conditional, **kwargs)
 
     def _create_x_values(self) -> np.ndarray:
-        return np.arange(self.min_value, self.max_value + 1, 1)
+        return np.arange(np.ceil(self.min_value), np.floor(self.max_value) + 1, 1)
 
     def _create_plot_on_axis(
         self,
-- 
2.43.0


From 470c4d8db92159d0db384b5d8e8da154d9539e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 38/42] fix: a color for each line of a Dirichlet plot

---
 conjugate/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 970b98c..31dce52 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -227,6 +227,9 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
             kwargs.pop("label", None), distribution_samples.shape[1]
         )
 
+        if "color" in kwargs and is_color_cycle(kwargs["color"]):
+            ax.set_prop_cycle(color=kwargs.pop("color"))
+
         for x, label in zip_longest(distribution_samples.T, labels):
             kde = gaussian_kde(x)
 
-- 
2.43.0


From 1c04de5081475ce66f5d3f5d44706e3342cafe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 39/42] fix: colors of the default cycle in a sequence of
 colors

---
 conjugate/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 31dce52..2bd6a5c 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,7 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
-from matplotlib.colors import is_color_like
+from matplotlib.colors import is_color_like, to_rgba
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -188,7 +188,7 @@ class ContinuousPlotDistMixin(PlotDistMixin):
             label = None
 
         if "color" in kwargs and is_color_cycle(kwargs["color"]):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
 
         ax.plot(x, yy, label=label, **kwargs)
         self._setup_labels(ax=ax, cdf=cdf)
@@ -228,7 +228,7 @@ class DirichletPlotDistMixin(ContinuousPlotDistMixin):
         )
 
         if "color" in kwargs and is_color_cycle(kwargs["color"]):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
 
         for x, label in zip_longest(distribution_samples.T, labels):
             kde = gaussian_kde(x)
@@ -353,7 +353,7 @@ class DiscretePlotMixin(PlotDistMixin):
             label = None
 
         if "color" in kwargs and is_color_cycle(kwargs["color"]):
-            ax.set_prop_cycle(color=kwargs.pop("color"))
+            ax.set_prop_cycle(color=[to_rgba(c) for c in kwargs.pop("color")])
 
         ax.plot(x, yy, mark, label=label, **kwargs)
 
-- 
2.43.0


From 22c40b8c81000a8d4f24510331a342d7890c772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 40/42] fix: beta geometric samples too large for an integer

---
 conjugate/_beta_geometric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 3af0751..4111119 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -60,8 +60,13 @@ class beta_geometric:
 
         random_state = share_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
+        p = np.maximum(p, np.finfo(float).tiny)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
+        # negative when too large for an integer
+        result = np.where(result < 1, np.iinfo(np.int64).max, result)
+        result = result if result.ndim else result.item()
+
         if not self.one_start:
             result -= 1
 
-- 
2.43.0


From d9a29abd1b704e3d26560048512a99ac4283addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 41/42] fix: index parameters of different shapes as they
 broadcast

Each parameter was indexed along its own first axis, so parameters of fewer
dimensions, or the vectors of the multinomial distributions, lost other
elements than the ones selected.
---
 conjugate/distributions.py |  4 ++++
 conjugate/slice.py         | 33 ++++++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9cf8754..35628b4 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -204,6 +204,8 @@ class Multinomial(SliceMixin):
     n: NUMERIC
     p: NUMERIC
 
+    _vectors = ("p",)
+
     @property
     def dist(self):
         return stats.multinomial(n=self.n, p=self.p)
@@ -222,6 +224,8 @@ class DirichletMultinomial(SliceMixin):
     alpha: NUMERIC
     n: NUMERIC
 
+    _vectors = ("alpha",)
+
     @property
     def dist(self):
         return stats.dirichlet_multinomial(self.alpha, self.n)
diff --git a/conjugate/slice.py b/conjugate/slice.py
index f97bb61..9d67601 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -10,19 +10,30 @@ class SliceMixin:
     def params(self):
         return asdict(self)
 
-    def __getitem__(self, key):
-        length = max(
-            (np.shape(v)[0] for v in self.params.values() if np.ndim(v) > 0),
-            default=0,
-        )
+    # parameters with a vector for each of the distributions
+    _vectors = ()
 
-        def take_slice(value, key):
-            if np.ndim(value) == 0:
+    def __getitem__(self, key):
+        params = self.params
+        shapes = {
+            k: np.shape(v)[:-1] if k in self._vectors else np.shape(v)
+            for k, v in params.items()
+        }
+        try:
+            shape = np.broadcast_shapes(*shapes.values())
+        except ValueError:
+            # labels decide how the parameters go together
+            shape = None
+
+        def take_slice(value, key, own_shape):
+            if own_shape == ():
                 return value
 
-            if np.shape(value)[0] == 1 and length > 1:
-                # broadcasts with the other parameters
-                return value
+            unlabelled = isinstance(value, (np.ndarray, list, tuple))
+            if unlabelled and shape is not None and own_shape != shape:
+                # as it broadcasts with the other parameters
+                vector = np.shape(value)[len(own_shape) :]
+                value = np.array(np.broadcast_to(value, shape + vector))
 
             try:
                 return value[key]
@@ -30,6 +41,6 @@ class SliceMixin:
                 # list and tuple only take integers and slices
                 return np.asarray(value)[key]
 
-        new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
+        new_params = {k: take_slice(v, key, shapes[k]) for k, v in params.items()}
 
         return self.__class__(**new_params)
-- 
2.43.0


From 45819e3dd8648b458cad00ce7bab1263c1cf17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 42/42] fix: sample means whose covariance is badly scaled

A posterior of a regression on features in different units, or a drawn
covariance close to singular, made sample_beta and sample_mean raise
LinAlgError, as scipy takes such a covariance for singular.
---
 conjugate/distributions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 35628b4..3b5157b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -639,7 +639,7 @@ class NormalInverseGamma:
         variance = (self.delta_inverse[None, ...].T * variance).T
         return np.stack(
             [
-                stats.multivariate_normal(self.mu, v).rvs(
+                stats.multivariate_normal(self.mu, v, allow_singular=True).rvs(
                     size=1, random_state=random_state
                 )
                 for v in variance
@@ -1216,7 +1216,9 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
+                stats.multivariate_normal(
+                    self.mu, cov=cov / self.lam, allow_singular=True
+                ).rvs(
                     size=1,
                     random_state=random_state,
                 )
@@ -1301,9 +1303,9 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
-                    size=1, random_state=random_state
-                )
+                stats.multivariate_normal(
+                    self.mu, cov=cov / self.kappa, allow_singular=True
+                ).rvs(size=1, random_state=random_state)
                 for cov in variance
             ]
         )
-- 
2.43.0

