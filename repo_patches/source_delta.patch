From 50679e2e84631f39f2c0c095bfb6709b454da93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 01/34] fix: derivative of the InverseSoftPlus link is 1 / (1 -
 exp(-x))

---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..3a65051 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, 1 - robust_exp(-x))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From 5d2d3884c1f43d95d35d016cf3ccef905ec5eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:54 +0000
Subject: [PATCH 02/34] fix: rvs of the mixed distributions returns
 (theta.shape[0], size) draws

---
 src/ondil/distributions/betainflated.py      | 4 ++--
 src/ondil/distributions/betainflatedzero.py  | 4 ++--
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..37a37af 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -221,8 +221,8 @@ class BetaInflated(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..a742a2a 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -181,8 +181,8 @@ class BetaInflatedZero(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..0f839be 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -143,8 +143,8 @@ class ZeroAdjustedGamma(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From b8ac49d46106003cb981222cc0c0b8139a7e3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:54 +0000
Subject: [PATCH 03/34] fix: mixed distributions have zero density and correct
 cdf outside the support

---
 src/ondil/distributions/betainflated.py      | 2 +-
 src/ondil/distributions/betainflatedzero.py  | 1 +
 src/ondil/distributions/zeroadjustedgamma.py | 8 ++++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 37a37af..6ba27b1 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -233,7 +233,7 @@ class BetaInflated(Distribution):
 
         result = np.where(
             (y < 0) | (y > 1),
-            0,
+            -np.inf,
             np.where(
                 y == 0,
                 np.log(nu) - np.log(1 + nu + tau),
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index a742a2a..852932f 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -195,6 +195,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.where(y > 0, logpdf_beta, logfy)
         logfy = np.where(y == 0, np.log(nu), logfy)
         result = logfy - np.log(1 + nu)
+        result = np.where((y < 0) | (y >= 1), -np.inf, result)
 
         return result
 
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 0f839be..f85619b 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -113,7 +113,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, nu, cont_cdf)
 
-        return result
+        return np.where(y < 0, 0, result)
 
     def pdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -128,6 +128,8 @@ class ZeroAdjustedGamma(Distribution):
             / (y * spc.gamma(1 / sigma**2))
         )
 
+        result = np.where(y < 0, 0, result)
+
         return np.where(y == 0, nu, result)
 
     def ppf(self, q, theta):
@@ -157,6 +159,8 @@ class ZeroAdjustedGamma(Distribution):
             - spc.gammaln(1 / sigma**2)
         )
 
+        result = np.where(y < 0, -np.inf, result)
+
         return np.where(y == 0, np.log(nu), result)
 
     def logcdf(self, y, theta):
@@ -168,7 +172,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, np.log(nu), cont_logcdf_gamma)
 
-        return result
+        return np.where(y < 0, -np.inf, result)
 
     def logpmf(self, y, theta):
         return super().logpmf(y, theta)
-- 
2.43.0


From bac4ff27eeb8bae792c6e05d60baf22c779118d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:29 +0000
Subject: [PATCH 04/34] fix: LogNormal has zero density and cdf for
 non-positive values

---
 src/ondil/distributions/lognormal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..524592e 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -94,18 +94,19 @@ class LogNormal(ScipyMixin, Distribution):
         Probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return (
+        pdf = (
             1
             / (y * sigma * np.sqrt(2 * np.pi))
             * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
         )
+        return np.where(y > 0, pdf, 0.0)
 
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Cumulative distribution function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return st.norm.cdf((np.log(y) - mu) / sigma)
+        return np.where(y > 0, st.norm.cdf((np.log(y) - mu) / sigma), 0.0)
 
     def ppf(self, p: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
@@ -119,9 +120,10 @@ class LogNormal(ScipyMixin, Distribution):
         Logarithm of the probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
+        logpdf = np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
             -((np.log(y) - mu) ** 2) / (2 * sigma**2)
         )
+        return np.where(y > 0, logpdf, -np.inf)
 
     def logcdf(self, y, theta):
         return np.log(self.cdf(y, theta))
-- 
2.43.0


From 04eaea30663ebf7d0e9eee71426d5aa7dbe9a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:44 +0000
Subject: [PATCH 05/34] fix: derivative methods reject negative and
 out-of-range parameter indices

---
 src/ondil/base/distribution.py             | 4 ++--
 src/ondil/distributions/inversegaussian.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..b1212a2 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -80,7 +80,7 @@ class Distribution(ABC):
     def _validate_dln_dpn_inputs(
         self, y: np.ndarray, theta: np.ndarray, param: int
     ) -> None:
-        if param >= self.n_params:
+        if param < 0 or param >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {param}. Please remember we start counting at 0."
             )
@@ -88,7 +88,7 @@ class Distribution(ABC):
     def _validate_dl2_dpp_inputs(
         self, y: np.ndarray, theta: np.ndarray, params: Tuple[int, int]
     ) -> None:
-        if max(params) >= self.n_params:
+        if min(params) < 0 or max(params) >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {params}. Please remember we start counting at 0."
             )
diff --git a/src/ondil/distributions/inversegaussian.py b/src/ondil/distributions/inversegaussian.py
index a874dff..0c46b07 100644
--- a/src/ondil/distributions/inversegaussian.py
+++ b/src/ondil/distributions/inversegaussian.py
@@ -87,8 +87,7 @@ class InverseGaussian(ScipyMixin, Distribution):
     def dl2_dpp(
         self, y: np.ndarray, theta: np.ndarray, params: tuple[int, int] = (0, 1)
     ) -> np.ndarray:
-        if params[0] == params[1]:
-            raise ValueError("Cross derivatives must use different parameters.")
+        self._validate_dl2_dpp_inputs(y, theta, params)
         return np.zeros_like(y)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From bbc2714c453fb2a3b998448ff02c75952be1f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:47 +0000
Subject: [PATCH 06/34] fix: zero is outside the support of LogNormal,
 LogNormalMedian and InverseGamma

---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 524592e..5612acd 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From 1c8baef0bc952269ca3c9f80d96de80b7c9b6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:30 +0000
Subject: [PATCH 07/34] fix: largest lambda uses the absolute gradient when all
 coefficients are regularized

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From 5a9266751992e4d6592ad1cecc874edb74414277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:30 +0000
Subject: [PATCH 08/34] fix: start value "average" is no longer overwritten by
 the previous fit

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From ffd834caf917cc98d34216c0ffe7bfab99cccb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:30 +0000
Subject: [PATCH 09/34] fix: coordinate descent runs at most max_iterations
 sweeps

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index 56042ad..a6a77eb 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -86,7 +86,7 @@ def online_coordinate_descent(
                 )
         if np.max(np.abs(beta_now - beta_star)) <= tolerance * np.max(np.abs(beta_now)):
             break
-        if i > max_iterations:
+        if i >= max_iterations:
             break
     return beta_now, i
 
-- 
2.43.0


From 3a3b9cb2126cbdeafb8b5411af70ba1a8d0ae4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 10/34] fix: predict_median() failed for every distribution (no
 median method)

---
 src/ondil/base/distribution.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index b1212a2..35e8c3c 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,18 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """
+        Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.quantile(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From 1a0ca30c80ee8ac902e4ea7b0934bf2f68680f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 11/34] fix: predict() failed for the mixed distributions (no
 mean method)

---
 src/ondil/distributions/betainflated.py      | 4 ++++
 src/ondil/distributions/betainflatedzero.py  | 4 ++++
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 6ba27b1..ff32139 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -217,6 +217,10 @@ class BetaInflated(Distribution):
 
         return result
 
+    def mean(self, theta):
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 852932f..5b051d8 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -177,6 +177,10 @@ class BetaInflatedZero(Distribution):
 
         return result
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index f85619b..29f2639 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -141,6 +141,10 @@ class ZeroAdjustedGamma(Distribution):
 
         return np.where(q <= nu, 0, result)
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
-- 
2.43.0


From 9c21680146bd86c3dbddc38f8954ce5df9a1fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 12/34] fix: AICC failed for arrays of parameter counts

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From 368e3b31c36faad56e064cdf45d01c629764b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 13/34] fix: fit() wrote defaults into the user's parameter and
 equation dictionaries

---
 src/ondil/estimators/online_gamlss.py | 4 ++++
 src/ondil/utils.py                    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..686c715 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,8 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            # Do not fill the defaults into the dictionary of the user
+            attribute = dict(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +309,8 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            # Do not fill the defaults into the dictionary of the user
+            equation = dict(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
diff --git a/src/ondil/utils.py b/src/ondil/utils.py
index 79e80b2..47b8d77 100644
--- a/src/ondil/utils.py
+++ b/src/ondil/utils.py
@@ -36,6 +36,8 @@ def handle_param_dict(
     """
     # Handle (incomplete) dictionaries of parameters.
     if isinstance(param, dict):
+        # Do not fill the defaults into the dictionary of the user
+        param = dict(param)
         for p in range(n_params):
             if p not in param.keys():
                 warnings.warn(
-- 
2.43.0


From 90b894e59d31e1e861d83ed3c4b19eda0846bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 14/34] fix: step sizes were assigned to parameters by dict
 insertion order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 686c715..02adf15 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -637,7 +637,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From ec46707ed5a5ad3e25ed8a6a256efd27e1e9ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 15/34] fix: the documented per-parameter dictionaries were
 rejected by the parameter validation

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 02adf15..33cc9c2 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 59e8b5cb676411cc6a162dec2b256273b7938754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 16/34] fix: cautious updates failed for more than one new
 observation

---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 33cc9c2..fcd337c 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -854,8 +854,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.prefit_update)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
-- 
2.43.0


From e25d35467b872e9464efe7f0f372fd075bdacbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:32 +0000
Subject: [PATCH 17/34] fix: outer iterations ran past max_it_outer
 (IndexError) for larger minimum iterations

---
 src/ondil/estimators/online_gamlss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index fcd337c..a8fdf87 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -896,6 +896,9 @@ class OnlineDistributionalRegression(
         it_outer = 0
 
         while True:
+            if it_outer >= self.max_it_outer:
+                break
+
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -915,9 +918,6 @@ class OnlineDistributionalRegression(
                 #     self._print_message(message=message, level=1)
                 #     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
             global_dev_old = global_dev
             it_outer += 1
 
@@ -947,6 +947,9 @@ class OnlineDistributionalRegression(
         it_outer = 0
 
         while True:
+            if it_outer >= self.max_it_outer:
+                break
+
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -958,9 +961,6 @@ class OnlineDistributionalRegression(
                 if np.abs(global_dev_old - global_dev) < self.abs_tol_outer:
                     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
                 if global_dev > global_dev_old:
                     message = (
                         f"Outer iteration {it_outer}: Global deviance increased. Breaking."
-- 
2.43.0


From 4397029f24ce1d6d60f23588f92d47be22f6f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 18/34] fix: working weights in update() are kept positive as
 in fit()

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a8fdf87..6091331 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1231,7 +1231,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From b705a09ecad1d3f4e4a4be9ba5b5f4b4739cafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 19/34] fix: update() reused the minimum outer iterations of
 the previous call

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 6091331..e62820c 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -852,6 +852,8 @@ class OnlineDistributionalRegression(
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_update] = 1
             self._current_min_it_outer = int(self.prefit_update)
+        else:
+            self._current_min_it_outer = int(self.min_it_outer)
 
         if self.cautious_updates:
             lower = self.distribution.quantile(0.005, self._fv)
-- 
2.43.0


From 31d189153893c9d621ebf95ba9af1fd374aa2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 20/34] fix: get_debug_information() looked up the wrong inner
 iteration

---
 src/ondil/estimators/online_gamlss.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e62820c..b708797 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -823,6 +823,7 @@ class OnlineDistributionalRegression(
             self._debug_dl2dlp2 = {}
             self._debug_eta = {}
             self._debug_fv = {}
+            self._debug_dv = {}
             self._debug_coef = {}
             self._debug_coef_path = {}
 
@@ -1244,6 +1245,7 @@ class OnlineDistributionalRegression(
                 self._debug_dl2dlp2[key] = copy.copy(dl2dp2)
                 self._debug_eta[key] = copy.copy(eta)
                 self._debug_fv[key] = copy.copy(fv_it)
+                self._debug_dv[key] = float(dv_iterations[it_inner])
 
             x_gram_it = self._method[param].update_x_gram(
                 gram=self._x_gram[param],
@@ -1526,5 +1528,11 @@ class OnlineDistributionalRegression(
                 "Debug mode is not enabled. Please set debug=True when initializing the OnlineDistributionalRegression estimator."
             )
 
-        key = (param, it_outer, it_inner + 1)
+        if variable == "X_scaled":
+            return self._debug_X_scaled
+        if variable == "X_dict":
+            return self._debug_X_dict[param]
+
+        # Inner iterations are stored starting from zero
+        key = (param, it_outer, it_inner - 1)
         return getattr(self, f"_debug_{variable}")[key]
-- 
2.43.0


From cff207f58d3d820ffa2e0206177460cf94d9534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 21/34] fix: update() of an unfitted estimator raises
 NotFittedError

---
 src/ondil/estimators/online_gamlss.py       | 1 +
 src/ondil/estimators/online_linear_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index b708797..f68e264 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -790,6 +790,7 @@ class OnlineDistributionalRegression(
             y (np.ndarray): Response variable $Y$.
             sample_weight (Optional[np.ndarray], optional): User-defined sample weights. Defaults to None (all observations have the same weight).
         """
+        check_is_fitted(self)
         X, y = validate_data(
             self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
         )
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..4a743ee 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -188,6 +188,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             sample_weight (Optional[np.ndarray], optional): The weight for the new observations. `None` implies all observations have weight 1. Defaults to None.
         """
 
+        check_is_fitted(self)
         X, y = validate_data(
             self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
         )
-- 
2.43.0


From 5bd7cc6ca7bffad023770e17783de147558fa2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 22/34] fix: a rejected fit() no longer marks the estimator as
 fitted

---
 src/ondil/estimators/online_gamlss.py       | 17 +++++++++--------
 src/ondil/estimators/online_linear_model.py | 18 ++++++++++--------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index f68e264..2a6b836 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -673,14 +673,6 @@ class OnlineDistributionalRegression(
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         self._validate_inputs(X, y)
 
-        self.n_observations_ = sample_weight.sum()
-        self.n_training_ = {
-            p: calculate_effective_training_length(
-                self._forget[p], self.n_observations_
-            )
-            for p in range(self.distribution.n_params)
-        }
-
         self._fv = self.distribution.initial_values(y=y)
         self.n_features_ = self.get_J_from_equation(X=X)
 
@@ -692,6 +684,15 @@ class OnlineDistributionalRegression(
             for p in range(self.distribution.n_params)
         }
 
+        # Marks the estimator as fitted for partial_fit()
+        self.n_observations_ = sample_weight.sum()
+        self.n_training_ = {
+            p: calculate_effective_training_length(
+                self._forget[p], self.n_observations_
+            )
+            for p in range(self.distribution.n_params)
+        }
+
         for p, x in X_dict.items():
             cond_num = np.linalg.cond(x)
             if cond_num > 100:
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 4a743ee..84670ef 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -116,27 +116,29 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         _ = type_of_target(y, raise_unknown=True)
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
 
-        self.n_observations_ = np.sum(sample_weight)
+        n_observations = np.sum(sample_weight)
         self.n_features_ = X.shape[1] + int(self.fit_intercept)
 
-        if self.n_observations_ <= self.n_features_ and self.method == "ols":
+        if n_observations <= self.n_features_ and self.method == "ols":
             raise ValueError(
-                f"You have tried to fit using n_samples={self.n_observations_} and n_features={self.n_features_}. "
+                f"You have tried to fit using n_samples={n_observations} and n_features={self.n_features_}. "
                 "Since we need calculate the inverse Gram matrix, we need at least as many observations as features for OLS-based methods"
             )
-        if self.n_observations_ == 1:
+        if n_observations == 1:
             raise ValueError(
                 "You have tried to fit using only one sample. This is not supported for online linear regression."
             )
 
-        self.n_training_ = calculate_effective_training_length(
-            self.forget, self.n_observations_
-        )
-
         self._scaler.fit(X, sample_weight=sample_weight)
         X_scaled = self._scaler.transform(X)
         X_scaled = self.get_design_matrix(X=X_scaled)
 
+        # Marks the estimator as fitted for partial_fit()
+        self.n_observations_ = n_observations
+        self.n_training_ = calculate_effective_training_length(
+            self.forget, self.n_observations_
+        )
+
         self._is_regularized = np.repeat(True, self.n_features_)
         if self.fit_intercept:
             self._is_regularized[0] = self.regularize_intercept
-- 
2.43.0


From 187dfd4cd5d0bac694054d7ecdbdb67ab85087b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:07 +0000
Subject: [PATCH 23/34] fix: OnlineLasso stores its parameters (get_params,
 set_params and clone failed)

---
 src/ondil/estimators/online_lasso.py | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..1735253 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,23 +46,39 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
+            method=self._make_method(),
             ic=ic,
         )
+
+    def _make_method(self) -> LassoPath:
+        return LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+
+    def _prepare_fit(self):
+        # The parameters might have been changed by set_params()
+        self.method = self._make_method()
+        super()._prepare_fit()
-- 
2.43.0


From a0cfe87bd86c1fbe26253c1c638066e745429de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:51 +0000
Subject: [PATCH 24/34] fix: model selection of the linear model uses the
 discounted, weighted RSS in fit() and update()

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 84670ef..d92969d 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -156,10 +157,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(np.expand_dims(weights, -1) * residuals**2, axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -221,7 +221,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                np.expand_dims(weights, -1) * residuals**2, axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From f457d3851cc6f32fd5db4bfd4ae56af198d02544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:51 +0000
Subject: [PATCH 25/34] fix: sample weights were ignored by the global_ll model
 selection in fit()

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 2a6b836..a170dc4 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -502,7 +502,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From 42e5c16c6e7bd222b06457434ddeccc46d74c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:18 +0000
Subject: [PATCH 26/34] fix: RSS-based model selection mixed up discounted and
 undiscounted weights in updates

---
 src/ondil/estimators/online_gamlss.py | 31 +++++++++++----------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a170dc4..8f5d18d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -21,7 +21,7 @@ from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
-from ..utils import calculate_effective_training_length, online_mean_update
+from ..utils import calculate_effective_training_length
 
 if HAS_PANDAS:
     import pandas as pd
@@ -561,13 +561,7 @@ class OnlineDistributionalRegression(
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
             # Denominator
-            # TODO: This should go in the online mean update function.
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            denom = self._update_sum_of_weights(w, wt, param) / self.n_training_[param]
             residuals = wv[:, None] - prediction_path
             rss = (
                 np.sum((residuals**2) * w[:, None] * wt[:, None] * f[:, None], axis=0)
@@ -604,6 +598,12 @@ class OnlineDistributionalRegression(
         beta = beta_path[best_ic, :]
         return beta, model_selection_data_new, best_ic
 
+    def _update_sum_of_weights(self, w: np.ndarray, wt: np.ndarray, param: int):
+        """Discounted sum of the weights of all observations including the new ones."""
+        f = init_forget_vector(self._forget[param], wt.shape[0])
+        discount = (1 - self._forget[param]) ** wt.shape[0]
+        return np.sum(w * wt * f) + discount * self._sum_of_weights[param]
+
     def _validate_inputs(self, X: np.ndarray, y: np.ndarray):
         """Validate the input matrices X and y.
 
@@ -1190,8 +1190,8 @@ class OnlineDistributionalRegression(
             self._fv[:, param] = fv_it_new[:, param]
 
             # Sum and mean of the weights
-            self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._sum_of_weights[param] = np.sum(w * wt * f)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1305,12 +1305,7 @@ class OnlineDistributionalRegression(
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
 
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            denom = self._update_sum_of_weights(w, wt, param) / self.n_training_[param]
             sum_of_rss_it = (
                 rss_it
                 + (1 - self._forget[param]) ** y.shape[0]
@@ -1378,9 +1373,7 @@ class OnlineDistributionalRegression(
         self._model_selection_data[param] = model_selection_data_it
 
         # Update the weights
-        self._sum_of_weights_new[param] = (
-            np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
-        )
+        self._sum_of_weights_new[param] = self._update_sum_of_weights(w, wt, param)
         self._mean_of_weights_new[param] = (
             self._sum_of_weights_new[param] / self.n_training_[param]
         )
-- 
2.43.0


From 9afa4607ea08e2b704d9792af99a08401f98b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:28 +0000
Subject: [PATCH 27/34] fix: update() ignored the step size (also the smaller
 steps of cautious updates)

---
 src/ondil/estimators/online_gamlss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 8f5d18d..f10e9fe 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1301,7 +1301,7 @@ class OnlineDistributionalRegression(
 
             # Calculate the prediction, residuals and RSS
             f = init_forget_vector(self._forget[param], y.shape[0])
-            prediction_it = X[param] @ beta_it.T
+            prediction_it = step_it * (X[param] @ beta_it.T) + (1 - step_it) * eta
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
 
@@ -1325,7 +1325,10 @@ class OnlineDistributionalRegression(
 
             if dv_increasing:
                 step_decrease_counter += 1
-                self._schedule_step_size[it_outer - 1, it_inner, param] = step_it / 2
+                if it_inner < (self.max_it_inner - 1):
+                    self._schedule_step_size[it_outer - 1, it_inner + 1, param] = (
+                        step_it / 2
+                    )
                 self._print_message(
                     f"Deviance increasing, step size halved. {step_decrease_counter}",
                     level=1,
-- 
2.43.0


From 2385a951d0f73b01e9ffce428b568408a9ae7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:30 +0000
Subject: [PATCH 28/34] fix: a fit() rejected by the estimation method no
 longer marks the estimator as fitted

---
 src/ondil/estimators/online_gamlss.py       | 10 +++++-----
 src/ondil/estimators/online_linear_model.py |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index f10e9fe..9aadc85 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -684,12 +684,9 @@ class OnlineDistributionalRegression(
             for p in range(self.distribution.n_params)
         }
 
-        # Marks the estimator as fitted for partial_fit()
-        self.n_observations_ = sample_weight.sum()
+        n_observations = sample_weight.sum()
         self.n_training_ = {
-            p: calculate_effective_training_length(
-                self._forget[p], self.n_observations_
-            )
+            p: calculate_effective_training_length(self._forget[p], n_observations)
             for p in range(self.distribution.n_params)
         }
 
@@ -773,6 +770,9 @@ class OnlineDistributionalRegression(
             y=y,
             w=sample_weight,
         )
+        # Marks the estimator as fitted for partial_fit()
+        self.n_observations_ = n_observations
+
         message = "Finished fit call"
         self._print_message(message=message, level=1)
         return self
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index d92969d..0155b58 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -134,10 +134,8 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         X_scaled = self._scaler.transform(X)
         X_scaled = self.get_design_matrix(X=X_scaled)
 
-        # Marks the estimator as fitted for partial_fit()
-        self.n_observations_ = n_observations
         self.n_training_ = calculate_effective_training_length(
-            self.forget, self.n_observations_
+            self.forget, n_observations
         )
 
         self._is_regularized = np.repeat(True, self.n_features_)
@@ -173,6 +171,8 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 self._x_gram, self._y_gram, self._is_regularized
             )
 
+        # Marks the estimator as fitted for partial_fit()
+        self.n_observations_ = n_observations
         return self
 
     @_fit_context(prefer_skip_nested_validation=True)
-- 
2.43.0


From 1767c003d680b7a1488685b387c22e022dc0c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 29/34] fix: Logistic scores were NaN for residuals beyond 709
 scale units (overflow of exp)

---
 src/ondil/distributions/logistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/logistic.py b/src/ondil/distributions/logistic.py
index ddb15a4..f47454c 100644
--- a/src/ondil/distributions/logistic.py
+++ b/src/ondil/distributions/logistic.py
@@ -42,16 +42,16 @@ class Logistic(ScipyMixin, Distribution):
         self._validate_dln_dpn_inputs(y, theta, param)
         mu, sigma = self.theta_to_params(theta)
         z = (y - mu) / sigma
-        expz = np.exp(z)
+        prob = 1 / (1 + np.exp(-z))  # bounded for every z, unlike exp(z)
 
         if param == 0:
-            return (1 / sigma) * (expz - 1) / (1 + expz)
+            return (1 / sigma) * (2 * prob - 1)
 
         if param == 1:
             return (
                 -1 / sigma
                 - (y - mu) / sigma**2
-                + 2 * ((y - mu) / sigma**2) * expz / (1 + expz)
+                + 2 * ((y - mu) / sigma**2) * prob
             )
 
     def dl2_dp2(self, y: np.ndarray, theta: np.ndarray, param: int = 0) -> np.ndarray:
-- 
2.43.0


From 444fbfa2dc0ae52328849833f7cd649b6607eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:02 +0000
Subject: [PATCH 30/34] fix: ZeroAdjustedGamma.pdf overflowed to NaN for small
 sigma; use the gamma density it already computes

---
 src/ondil/distributions/zeroadjustedgamma.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 29f2639..210843d 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -121,13 +121,7 @@ class ZeroAdjustedGamma(Distribution):
         scale = mu * sigma**2
         pdf_gamma = st.gamma(a=shape, loc=0, scale=scale).pdf(y)
 
-        result = (
-            (1 - nu)
-            * (y / (mu * sigma**2)) ** (1 / sigma**2)
-            * (np.exp(-y / (mu * sigma**2)))
-            / (y * spc.gamma(1 / sigma**2))
-        )
-
+        result = (1 - nu) * pdf_gamma
         result = np.where(y < 0, 0, result)
 
         return np.where(y == 0, nu, result)
-- 
2.43.0


From 9258c247ec58950271bfe7646fd433f334efae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:15 +0000
Subject: [PATCH 31/34] fix: global_ll selection in update() ignored the
 coefficients of the other parameters (matters for aicc)

---
 src/ondil/estimators/online_gamlss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 9aadc85..0908156 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -587,9 +587,10 @@ class OnlineDistributionalRegression(
                 ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
             ll = ll + (1 - self._forget[param]) ** y.shape[0] * model_selection_data
 
+            n_nonzero_coef_other = self._count_nonzero_coef(exclude=param)
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-                n_parameters=n_nonzero_coef,
+                n_parameters=n_nonzero_coef + n_nonzero_coef_other,
                 criterion=self._ic[param],
             ).from_ll(log_likelihood=ll)
             best_ic = np.argmin(ic)
-- 
2.43.0


From 0ccf649172fbfc0c9258306b289a40ae05081c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:10 +0000
Subject: [PATCH 32/34] fix: equations given as a list of column names failed
 with an IndexError

---
 src/ondil/estimators/online_gamlss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 0908156..3dc49ab 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -414,6 +414,11 @@ class OnlineDistributionalRegression(
                     out = X.to_numpy()
             elif isinstance(eq, np.ndarray) | isinstance(eq, list):
                 if isinstance(X, np.ndarray):
+                    if isinstance(eq, list) and all(isinstance(c, str) for c in eq):
+                        # X has been validated and converted to a np.ndarray,
+                        # hence look up the position of the column names.
+                        names = list(getattr(self, "feature_names_in_", []))
+                        eq = [names.index(c) for c in eq]
                     out = X[:, eq]
                 if HAS_PANDAS and isinstance(X, pd.DataFrame):
                     out = X.loc[:, eq]
-- 
2.43.0


From b9c43a68f877181581541d1b97d8f5ab686e7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:29 +0000
Subject: [PATCH 33/34] fix: conditional start values maximised the likelihood
 of other parameters for distributions with their own parameterisation

---
 src/ondil/base/distribution.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index 35e8c3c..101849b 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -356,14 +356,12 @@ class ScipyMixin(ABC):
         self,
         start: np.ndarray,
         y: np.ndarray,
-        fixed: dict,
+        theta: np.ndarray,
         param: int,
     ):
-        unknown = np.arange(param, self.n_params)
-        decision = {}
-        for i, value in zip(unknown, start):
-            decision[self.scipy_names[self.parameter_names[i]]] = value
-        return -np.sum(self.scipy_dist(**decision, **fixed).logpdf(y))
+        decision = theta.copy()
+        decision[:, param:] = start
+        return -np.sum(self.logpdf(y, decision))
 
     def calculate_conditional_initial_values(
         self,
@@ -372,16 +370,12 @@ class ScipyMixin(ABC):
         param: int,
     ):
         start = theta[0, param:]
-        fixed = self.theta_to_scipy_params(theta)
         unknown = np.arange(param, self.n_params)
-        for i in unknown:
-            del fixed[self.scipy_names[self.parameter_names[i]]]
-
         bounds = [self.links[b].link_support for b in unknown]
         result = opt.minimize(
             self._scipy_mle_objective,
             x0=start,
-            args=(y, fixed, param),
+            args=(y, theta, param),
             method="L-BFGS-B",
             bounds=bounds,
             # options={"disp": True}
-- 
2.43.0


From e520bc69fb6da8ce94e0f9448df51353c84fa256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 34/34] fix: conditional start values were missing for the
 mixed distributions (fit failed with cond_start_val)

---
 src/ondil/base/distribution.py | 66 +++++++++++++++-------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index 101849b..07ce3b7 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -144,7 +144,17 @@ class Distribution(ABC):
         """
         return self.quantile(0.5, theta)
 
-    @abstractmethod
+    def _mle_objective(
+        self,
+        start: np.ndarray,
+        y: np.ndarray,
+        theta: np.ndarray,
+        param: int,
+    ):
+        decision = theta.copy()
+        decision[:, param:] = start
+        return -np.sum(self.logpdf(y, decision))
+
     def calculate_conditional_initial_values(
         self,
         y: np.ndarray,
@@ -152,6 +162,24 @@ class Distribution(ABC):
         param: int,
     ) -> np.ndarray:
         """Calculate the conditional initial values for the GAMLSS fit."""
+        start = theta[0, param:]
+        unknown = np.arange(param, self.n_params)
+        bounds = [self.links[b].link_support for b in unknown]
+        result = opt.minimize(
+            self._mle_objective,
+            x0=start,
+            args=(y, theta, param),
+            method="L-BFGS-B",
+            bounds=bounds,
+            # options={"disp": True}
+        )
+        new = theta.copy()
+        if not result.success:
+            print("Optimization failed: " + result.message)
+            print("Will use unconditional start values")
+        else:
+            new[:, unknown] = np.expand_dims(result.x, 0)
+        return new
 
     @abstractmethod
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
@@ -351,39 +379,3 @@ class ScipyMixin(ABC):
             np.ndarray: An array of means corresponding to the parameters in `theta`.
         """
         return self.scipy_dist(**self.theta_to_scipy_params(theta)).mean()
-
-    def _scipy_mle_objective(
-        self,
-        start: np.ndarray,
-        y: np.ndarray,
-        theta: np.ndarray,
-        param: int,
-    ):
-        decision = theta.copy()
-        decision[:, param:] = start
-        return -np.sum(self.logpdf(y, decision))
-
-    def calculate_conditional_initial_values(
-        self,
-        y: np.ndarray,
-        theta: np.ndarray,
-        param: int,
-    ):
-        start = theta[0, param:]
-        unknown = np.arange(param, self.n_params)
-        bounds = [self.links[b].link_support for b in unknown]
-        result = opt.minimize(
-            self._scipy_mle_objective,
-            x0=start,
-            args=(y, theta, param),
-            method="L-BFGS-B",
-            bounds=bounds,
-            # options={"disp": True}
-        )
-        new = theta.copy()
-        if not result.success:
-            print("Optimization failed: " + result.message)
-            print("Will use unconditional start values")
-        else:
-            new[:, unknown] = np.expand_dims(result.x, 0)
-        return new
-- 
2.43.0

