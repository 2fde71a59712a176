From c26d584caa48e18457bcd132a05c3acfa3bf37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 01/22] fix: diff=True must not keep a view of the caller's row

---
 precise/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..0a02b1b 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -52,10 +52,11 @@ class BaseOnlineCovariance:
         use_diff = getattr(self, "diff", False)
         for x in as_rows(X):
             if use_diff:
+                # Copy: the row may be a view of a buffer the caller goes on to reuse.
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From c246d7fb15ddec485ee0e3033a0385197c57f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 02/22] fix: location_ returns a copy, not the estimator's own
 running mean

---
 precise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index 0a02b1b..d745f3c 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -87,7 +87,7 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 6c19e20b5239858b297be75c2c75c4412013ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 03/22] fix: correlation of small-scale data keeps its unit
 diagonal

---
 precise/_linalg.py           | 11 +++++++----
 precise/schur_conditional.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..55cf203 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -20,10 +20,13 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
-    """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    """Normalize a covariance matrix to a correlation matrix (unit diagonal).
+
+    A variable with no variance has no correlation: its row and column are zero.
+    """
+    std = np.sqrt(np.maximum(np.diagonal(a), 0.0))
+    denominator = np.outer(std, std)
+    return np.divide(a, denominator, out=np.zeros_like(a), where=denominator > 0)
 
 
 def is_positive_def(a: np.ndarray) -> bool:
diff --git a/precise/schur_conditional.py b/precise/schur_conditional.py
index b62716c..b1ff3db 100644
--- a/precise/schur_conditional.py
+++ b/precise/schur_conditional.py
@@ -82,7 +82,7 @@ class SchurConditionalCovariance(BaseOnlineCovariance):
         cov = np.asarray(state["cov"], dtype=float)
         p = cov.shape[0]
         sl = self._slices(p)
-        d = np.sqrt(np.clip(np.diag(cov), 1e-12, None))
+        d = np.sqrt(np.clip(np.diag(cov), 0.0, None))
         R = cov_to_corrcoef(cov)
         n_eff = self._n_eff(state)
         gamma = self._gamma_star(R, n_eff)
-- 
2.43.0


From 385947e53e1d6dfed4a26913071b789e97ad187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 04/22] fix: constant-correlation shrinkage target with a
 zero-variance feature

---
 precise/shrunk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..d0b0552 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,9 +51,8 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
-            off = corr[~np.eye(p, dtype=bool)]
+            d = np.sqrt(np.maximum(np.diag(S), 0.0))
+            off = cov_to_corrcoef(S)[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
             np.fill_diagonal(target, np.diag(S))  # preserve the variances
-- 
2.43.0


From b6cf3d605eefcaca7f51594397010c6dd927c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 05/22] fix: the first observation is not a deviation from a
 zero mean

DiagonalCovariance, PartialMomentsCovariance, DCCCovariance and FactorCovariance
counted the first row's distance from the origin as variance, so a level shift of
the data changed the estimate.
---
 precise/dcc.py            | 5 +++--
 precise/diagonal.py       | 5 +++--
 precise/factor.py         | 3 ++-
 precise/partialmoments.py | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..023094f 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -42,10 +42,11 @@ class DCCCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         r, rv, n_burn = s["r"], s["vol_r"], s["n_burn"]
-        dev = x - s["mean"]  # innovation about the prior mean
+        # Innovation about the prior mean; the first observation only sets that mean.
+        dev = x - s["mean"] if n > 1 else np.zeros(p)
 
         if n <= n_burn:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             h = s["h"] + (dev * dev - s["h"]) / n
         else:
             mean = (1 - rv) * s["mean"] + rv * x
diff --git a/precise/diagonal.py b/precise/diagonal.py
index e6c9fd3..b9051ca 100644
--- a/precise/diagonal.py
+++ b/precise/diagonal.py
@@ -37,10 +37,11 @@ class DiagonalCovariance(BaseOnlineCovariance):
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
         n = s["n_samples"] + 1
-        dev = x - s["mean"]
+        # The first observation only sets the mean: there is nothing for it to deviate from yet.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= s["n_burn"]:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             var = s["var"] + (sq - s["var"]) / n
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
diff --git a/precise/factor.py b/precise/factor.py
index e859784..16f7bda 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -45,7 +45,8 @@ class FactorCovariance(BaseOnlineCovariance):
         n = s["n_samples"] + 1
         r, k, n_burn = s["r"], s["k"], s["n_burn"]
 
-        dev = x - s["mean"]
+        # The first observation only sets the mean: there is nothing for it to deviate from yet.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= n_burn:
             # Sample-mean learning rate / empirical accumulation while warming up.
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 1884b50..55a3a12 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -48,7 +48,8 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             mean = s["mean"] + (x - s["mean"]) / count
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        centered = x - s["mean"]
+        # The first observation only sets the mean: there is nothing for it to deviate from yet.
+        centered = x - s["mean"] if count > 1 else np.zeros(s["n_dim"])
 
         prev = np.asarray(s["quadrants"], dtype=float)
         quadrants = np.empty_like(prev)
-- 
2.43.0


From 612db431d4f24761f7ae56107f61030bfe9b9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 06/22] fix: TylerCovariance with an observation that carries
 no direction

A first row of zeros, or a row equal to the running mean, divided by a zero trace
and left the state NaN for good; the first row's offset also counted as a direction.
---
 precise/tyler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..0958268 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -51,9 +51,13 @@ class TylerCovariance(BaseOnlineCovariance):
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
         dev = x - s["mean"]
         C = np.asarray(s["C"], dtype=float)
-        q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
-        C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        size = float(np.max(np.abs(dev), initial=0.0))
+        # The first observation (which only sets the mean) and a zero deviation have no direction.
+        if n > 1 and size > 0:
+            u = dev / size
+            q = max(float(u @ try_invert(C) @ u), 1e-12)  # Mahalanobis under the current shape
+            C = (1 - lr) * C + lr * p * np.outer(u, u) / q  # direction-only contribution
+            C = p * C / np.trace(C)  # fix the scale: trace == p
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From b410f3678aa5d3b1e647fd4600548ff775412f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 07/22] fix: try_invert falls back when the inverse overflows

A variance that had decayed to a subnormal number made the inverse infinite, which
turned Huber and adaptive estimates (and precision_) into NaN.
---
 precise/_linalg.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 55cf203..46fbd77 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -81,12 +81,18 @@ def affine_shrink(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.nd
 def try_invert(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.ndarray:
     """Invert a matrix, falling back to pseudo-inverse then ridge+shrinkage."""
     try:
-        return np.linalg.inv(a)
+        inverse = np.linalg.inv(a)
+        if np.all(np.isfinite(inverse)):
+            return inverse
     except np.linalg.LinAlgError:
-        try:
-            return np.linalg.pinv(a)
-        except np.linalg.LinAlgError:
-            return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
+        pass
+    # Singular, or so nearly that the inverse overflows: there, entries too small to have a
+    # finite reciprocal count as zero.
+    a = np.where(np.abs(a) < np.finfo(float).tiny, 0.0, a)
+    try:
+        return np.linalg.pinv(a)
+    except np.linalg.LinAlgError:
+        return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
 
 
 def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarray:
-- 
2.43.0


From 5cb0e6490332fd271543093f63f6b44c7c2c6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 08/22] fix: get_state/set_state carry the previous row of a
 diff=True estimator

A restored estimator lost one difference, and set_state left behind the previous row
of whatever stream the estimator had been fed before.
---
 precise/base.py             | 20 +++++++++++++++++---
 precise/block_covariance.py |  7 ++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index d745f3c..0f3b962 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -141,14 +141,28 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev_x(None)
+        return self._with_prev_x({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev_x(self, state: dict | None) -> dict | None:
+        """Add to a state dict the row that ``diff=True`` takes the next difference from."""
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
+
+    def _take_prev_x(self, state: dict | None) -> dict | None:
+        """Undo :meth:`_with_prev_x`: restore the previous row and return the rest."""
+        state = dict(state or {})
+        prev = state.pop("prev_x", None)
+        self._prev_x = None if prev is None else np.array(prev, dtype=float)
+        return state or None
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
+        state = self._take_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..f1e06ad 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return self._with_prev_x(None)
         s = self._state
-        return {
+        return self._with_prev_x({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,9 +103,10 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
+        state = self._take_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
-- 
2.43.0


From 046430047d51174da56c435d9dbd2d81043b470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 09/22] fix: reject an observation of the wrong length

A length-1 row was broadcast over every feature, and BlockCovariance truncated a
longer one, silently corrupting the estimate.
---
 precise/base.py        | 20 +++++++++++++++++---
 precise/conditional.py |  3 +--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 0f3b962..f999383 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -46,11 +46,25 @@ class BaseOnlineCovariance:
     def _state_to_mean(self, state: dict) -> np.ndarray:
         return state["mean"]
 
+    def _rows(self, X) -> np.ndarray:
+        """``X`` as rows; raises ``ValueError`` unless they match the number of features seen."""
+        rows = as_rows(X)
+        if self._state is not None:
+            n_features = self.n_features_in_
+        else:
+            n_features = None if self._prev_x is None else len(self._prev_x)
+        if n_features is not None and rows.shape[1] != n_features:
+            raise ValueError(
+                f"X has {rows.shape[1]} features, but {type(self).__name__} is expecting "
+                f"{n_features} features as input."
+            )
+        return rows
+
     # -------------------------------------------------------------- fitting
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        for x in self._rows(X):
             if use_diff:
                 # Copy: the row may be a view of a buffer the caller goes on to reuse.
                 if self._prev_x is None:
@@ -108,14 +122,14 @@ class BaseOnlineCovariance:
     # ----------------------------------------------------------- scoring
     def mahalanobis(self, X) -> np.ndarray:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
-        rows = as_rows(X)
+        rows = self._rows(X)
         prec = self.precision_
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
     def score(self, X, y=None) -> float:
         """Mean Gaussian log-likelihood of the rows of ``X`` under the fitted estimate."""
-        rows = as_rows(X)
+        rows = self._rows(X)
         prec = self.precision_
         _, logdet = np.linalg.slogdet(prec)
         p = rows.shape[1]
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..ee7bf55 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -23,7 +23,6 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._conventions import as_rows
 from precise.base import BaseOnlineCovariance
 from precise.ewa import EwaCovariance
 
@@ -131,7 +130,7 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        for x in self._rows(X):
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From cd6aaf13f44122c28b0b4fe93c856caab06041b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 10/22] fix: an observation with no names starts no universe

It occupied one of max_universes for good, and raised for BlockCovariance.
---
 precise/keyed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..1223eca 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -236,7 +236,7 @@ class DynamicUniverse(_KeyedAdapter):
         for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:
             del self.states[ndx]
 
-        if x_keys not in [u.keys_set for u in self.states.values()]:
+        if x_keys and x_keys not in [u.keys_set for u in self.states.values()]:
             fresh = _Universe(keys=x.keys(), factory=self._make)
             fresh.update(x)
             self._add_universe(fresh)
-- 
2.43.0


From 76ba16f7669c0936fba50a5e9043e9534b7cfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 11/22] fix: geodesic_step floors its result, which rounding
 could make indefinite

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 46fbd77..9bc12c1 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -118,4 +118,5 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    # Floored like its end points: between widely different ones, rounding can go below zero.
+    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
-- 
2.43.0


From 0b3e6b38f3bcae0378ceab972d982f746942b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 12/22] fix: precision_ of a numerically singular block falls
 back instead of raising

---
 precise/block_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index f1e06ad..8b69e7d 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -18,7 +18,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import make_pos_def, to_symmetric
+from precise._linalg import make_pos_def, to_symmetric, try_invert
 from precise._state import ewa_burn_n, ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -80,7 +80,7 @@ class BlockCovariance(BaseOnlineCovariance):
         p = state["n_dim"]
         out = np.zeros((p, p))
         for sub, (a, b) in zip(state["subs"], state["slices"]):
-            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
+            out[a:b, a:b] = try_invert(self._pd_block(sub))
         return out
 
     def _state_to_mean(self, state: dict) -> np.ndarray:
-- 
2.43.0


From d3a620ba26f4fc491617c24008a6045aad8c1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 13/22] fix: nearest_pos_def terminates on small-scale matrices
 whose Frobenius norm underflows

---
 precise/_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 9bc12c1..d712eb5 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -50,7 +50,7 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    spacing = np.spacing(np.linalg.norm(a))
+    spacing = np.spacing(s[0])  # of the 2-norm; the Frobenius norm can underflow to zero
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
-- 
2.43.0


From db1001871e3d79167ef05d50403deab6407e1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 14/22] fix: the exported recommender keeps its leaf weights
 and can be imported

---
 research/train_recommender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..f52b519 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -66,12 +66,12 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {[[round(float(c), 6) for c in node[0]] for node in t.value]!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From a696bc10ba94a8f49986de3eb7f06d6a51caa844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 15/22] fix: seeded out-of-sample and bake-off runs draw
 randomcov matrices from their own generator

---
 research/bakeoff.py | 2 +-
 research/oos.py     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/research/bakeoff.py b/research/bakeoff.py
index 358bf9a..343cd1b 100644
--- a/research/bakeoff.py
+++ b/research/bakeoff.py
@@ -102,7 +102,7 @@ def build_scenarios(d=12, n=1500, n_test=500, seed=0):
     if HAVE_RANDOMCOV:
         for method in ("lkj", "wishart", "residuals"):
             try:
-                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method))
+                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method, rng=rng))
                 tr, te = _gaussian(cov, n, rng), _gaussian(cov, n_test, rng)
                 scs.append((f"randomcov_{method}", tr, te, cov))
             except Exception:  # pragma: no cover - depends on randomcov internals
diff --git a/research/oos.py b/research/oos.py
index 52610f3..343df57 100644
--- a/research/oos.py
+++ b/research/oos.py
@@ -82,7 +82,11 @@ ENSEMBLES = {
 if HAVE_RANDOMCOV:  # pragma: no cover
     for _m in ("lkj", "wishart", "residuals"):
         ENSEMBLES[f"randomcov_{_m}"] = (
-            (lambda p, rng, m=_m: np.asarray(random_covariance_matrix(n=p, corr_method=m))),
+            (
+                lambda p, rng, m=_m: np.asarray(
+                    random_covariance_matrix(n=p, corr_method=m, rng=rng)
+                )
+            ),
             False,
         )
 
-- 
2.43.0


From f94a48a89a4b82365c5893a9fe2f0c51bac2d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 16/22] fix: canonical correlations are eigenvalues of the
 whitened product, not of its symmetric part

---
 research/schur_likelihood_theory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..99df2f2 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,7 +200,9 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
+    # Symmetrize by whitening (S11 = L L^T), which keeps the eigenvalues of S11^-1 S12 S22^-1 S21.
+    K = np.linalg.solve(np.linalg.cholesky(S11), S12)
+    Mmat = K @ np.linalg.solve(S22, K.T)
     return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
 
 
-- 
2.43.0


From b30a597ce73a7666991bd37a5823f232a206f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 17/22] fix: delta-method variance of the score gap counted
 off-diagonal entries twice

---
 research/schur_spiked.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/research/schur_spiked.py b/research/schur_spiked.py
index 382cf51..44a605c 100644
--- a/research/schur_spiked.py
+++ b/research/schur_spiked.py
@@ -79,11 +79,17 @@ def _cov_quadform(G, Sig, n):
     return (2.0 / n) * np.trace(M @ M)
 
 
+def _delta_variance(G, Sig, n):
+    """Delta-method variance of D. Perturbing S_ij moves S_ji too, so each off-diagonal of the
+    gradient counts both entries: halve it before contracting over all (i, j)."""
+    return _cov_quadform(0.5 * (G + np.diag(np.diag(G))), Sig, n)
+
+
 def snr_delta(p, n, sizes, gamma, alpha_a, alpha_b, Sig_t):
     """Delta-method SNR: mean ~ D(Sig_t), variance ~ (2/n) tr((grad D . Sig_t)^2)."""
     mean = _score_gap(Sig_t, sizes, gamma, Sig_t, alpha_a, alpha_b)
     G = _grad_score_gap(Sig_t, sizes, gamma, Sig_t, alpha_a, alpha_b)
-    var = _cov_quadform(G, Sig_t, n)
+    var = _delta_variance(G, Sig_t, n)
     return mean, np.sqrt(var), (mean / np.sqrt(var) if var > 0 else np.inf)
 
 
@@ -100,7 +106,7 @@ def variance_blowup(p=24, seed=1):
         row = ""
         for g in (1.0, 0.7, 0.3):
             G = _grad_score_gap(Sig_t, sizes, g, Sig_t, 0.5, 0.05)
-            row += f"{_cov_quadform(G, Sig_t, 60):11.1f}"
+            row += f"{_delta_variance(G, Sig_t, 60):11.1f}"
         print(f"{lam:>11.3f}{cond:>8.0f}{row}")
 
 
-- 
2.43.0


From 494904d9a34ac517565fbbe1230268ef842187b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 18/22] fix: pseudo-inverse cutoff in try_invert grows with the
 matrix

Beyond about ten variables, numpy's default cutoff of 1e-15 is below the rounding error of the
singular values: a singular matrix (say, one blank variable among 26) was inverted along its null
direction and got entries of 1e14.
---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index d712eb5..57953d3 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -90,7 +90,8 @@ def try_invert(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.ndarr
     # finite reciprocal count as zero.
     a = np.where(np.abs(a) < np.finfo(float).tiny, 0.0, a)
     try:
-        return np.linalg.pinv(a)
+        # numpy's own cutoff, 1e-15, is within rounding of zero for more than a few variables.
+        return np.linalg.pinv(a, rcond=max(1e-15, len(a) * np.finfo(float).eps))
     except np.linalg.LinAlgError:
         return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
 
-- 
2.43.0


From 4ac0b643a2c82b872eb6ca17dff0bff398a21195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:36 +0000
Subject: [PATCH 19/22] fix: parameters given as numpy numbers made the saved
 state not JSON-serialisable

---
 precise/factor.py         | 4 ++--
 precise/partialmoments.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/precise/factor.py b/precise/factor.py
index 16f7bda..79bf270 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -36,9 +36,9 @@ class FactorCovariance(BaseOnlineCovariance):
             "mean": np.zeros(n_dim),
             "var": np.zeros(n_dim),  # per-coordinate total variance
             "V": np.zeros((k, n_dim)),  # CCIPCA eigen-estimates (norm == eigenvalue)
-            "k": k,
+            "k": int(k),
             "r": float(self.r),
-            "n_burn": k + 1,
+            "n_burn": int(k) + 1,
         }
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 55a3a12..f46527e 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -37,7 +37,7 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             "n_samples": 0,
             "mean": np.zeros(n_dim),
             "quadrants": np.zeros((len(_QUADRANTS), n_dim, n_dim)),
-            "r": self.r,
+            "r": float(self.r),
             "n_burn": ewa_burn_n(self.r),
         }
 
-- 
2.43.0


From 8f06aa591093725fe2022bbca6f25becd778fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:36 +0000
Subject: [PATCH 20/22] fix: a name asked twice of DynamicUniverse was answered
 with fill values

---
 precise/keyed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 1223eca..ff8309a 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -257,10 +257,9 @@ class DynamicUniverse(_KeyedAdapter):
     def cov_array(self, keys=None):
         keys = self._resolve_keys(keys)
         n = len(keys)
-        idx = {k: i for i, k in enumerate(keys)}
         M = np.full((n, n), np.nan)
         for i, ki in enumerate(keys):
-            for kj in keys[i:]:
+            for j, kj in enumerate(keys[i:], i):
                 candidates = [
                     u
                     for u in self.states.values()
@@ -271,7 +270,7 @@ class DynamicUniverse(_KeyedAdapter):
                     cov = u.running_cov
                     assert cov is not None  # guaranteed by the candidate filter
                     a, b = u.keys.index(ki), u.keys.index(kj)
-                    M[idx[ki], idx[kj]] = M[idx[kj], idx[ki]] = cov[a, b]
+                    M[i, j] = M[j, i] = cov[a, b]
         off_diag = M[~np.eye(n, dtype=bool)]
         fill = np.nanmean(off_diag) if np.any(~np.isnan(off_diag)) else 0.0
         if np.isnan(fill):
-- 
2.43.0


From e456708b18aa159d63b74f1b56263b245aa34b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:36 +0000
Subject: [PATCH 21/22] fix: fit on too few rows kept the number of features of
 the previous fit

---
 precise/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/precise/base.py b/precise/base.py
index f999383..011c4ec 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -81,6 +81,7 @@ class BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
         self._state = None
         self._prev_x = None
+        self.n_features_in_ = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
-- 
2.43.0


From 2663c4cb47ef1970061d8799e8bfbeabf0c6e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:36 +0000
Subject: [PATCH 22/22] fix: geodesic steps along eigenvalues below rounding
 error diverged

---
 precise/_linalg.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 57953d3..14e7e1a 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -96,6 +96,14 @@ def try_invert(a: np.ndarray, phi: float = 1.01, lmbd: float = 0.01) -> np.ndarr
         return np.linalg.inv(affine_shrink(a, phi=phi, lmbd=lmbd))
 
 
+def _resolution(a: np.ndarray) -> float:
+    """Least eigenvalue told from rounding error in a matrix of the size of ``a`` (at least 1e-8).
+
+    A step taken along smaller ones can go anywhere, and diverges when repeated.
+    """
+    return max(1e-8, 1e-13 * float(np.trace(a)))
+
+
 def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarray:
     """Move a fraction ``gamma`` along the affine-invariant Riemannian geodesic.
 
@@ -106,8 +114,8 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     Reimplemented (eigh-based, numpy only) from
     ``randomcov.covutil.geodesicinterpolation.geodesic_interpolation``.
     """
-    start = make_pos_def(start)
-    end = make_pos_def(end)
+    start = make_pos_def(start, _resolution(start))
+    end = make_pos_def(end, _resolution(end))
 
     evals_s, evecs_s = np.linalg.eigh(start)
     evals_s = np.clip(evals_s, EPS, None)
@@ -120,4 +128,5 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
     # Floored like its end points: between widely different ones, rounding can go below zero.
-    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
+    step = start_sqrt @ middle_power @ start_sqrt
+    return make_pos_def(step, _resolution(step))
-- 
2.43.0

