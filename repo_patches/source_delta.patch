From 22f179e72097ce05ba67d9969f383b90f6956d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 01/33] fix: TylerCovariance turned NaN forever after an
 all-zero first observation

---
 precise/tyler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..90abbc4 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -53,7 +53,9 @@ class TylerCovariance(BaseOnlineCovariance):
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-        C = p * C / np.trace(C)  # fix the scale: trace == p
+        trace = np.trace(C)
+        # fix the scale: trace == p (a zero first observation has no direction: keep the shape)
+        C = p * C / trace if trace > 0 else np.asarray(s["C"], dtype=float)
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
         }
-- 
2.43.0


From 972eab604d29d21af0a39e1e8a8481904e1a04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 02/33] fix: diff=True kept a view of the caller's buffer as
 the previous observation

---
 precise/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..0dc34c3 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -52,10 +52,11 @@ class BaseOnlineCovariance:
         use_diff = getattr(self, "diff", False)
         for x in as_rows(X):
             if use_diff:
+                # Copy: a row may be a view of a buffer the caller goes on to reuse.
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From 4b2543168a0840462bd36ee5cf7bc411e5708c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 03/33] fix: location_ returned the live running mean, so
 editing it corrupted the estimator

---
 precise/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index 0dc34c3..661467b 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -87,7 +87,8 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        # A copy: handing out the running mean itself would let callers corrupt the state.
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From 409a04e5feb571b49e9fb1a855404c52c08560b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 04/33] fix: reject observations of the wrong length instead of
 broadcasting or truncating them

---
 precise/base.py        | 23 ++++++++++++++++++-----
 precise/conditional.py |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 661467b..fb54ef5 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -47,10 +47,23 @@ class BaseOnlineCovariance:
         return state["mean"]
 
     # -------------------------------------------------------------- fitting
+    def _check_width(self, rows: np.ndarray) -> np.ndarray:
+        """Reject rows whose length differs from the observations already seen."""
+        if self._state is not None:
+            expected = self.n_features_in_
+        else:
+            expected = None if self._prev_x is None else len(self._prev_x)
+        if expected is not None and rows.shape[1] != expected:
+            raise ValueError(
+                f"{type(self).__name__} expects observations of length {expected}, "
+                f"got {rows.shape[1]}."
+            )
+        return rows
+
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        for x in self._check_width(as_rows(X)):
             if use_diff:
                 # Copy: a row may be a view of a buffer the caller goes on to reuse.
                 if self._prev_x is None:
@@ -65,11 +78,11 @@ class BaseOnlineCovariance:
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
@@ -109,14 +122,14 @@ class BaseOnlineCovariance:
     # ----------------------------------------------------------- scoring
     def mahalanobis(self, X) -> np.ndarray:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
-        rows = as_rows(X)
+        rows = self._check_width(as_rows(X))
         prec = self.precision_
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
     def score(self, X, y=None) -> float:
         """Mean Gaussian log-likelihood of the rows of ``X`` under the fitted estimate."""
-        rows = as_rows(X)
+        rows = self._check_width(as_rows(X))
         prec = self.precision_
         _, logdet = np.linalg.slogdet(prec)
         p = rows.shape[1]
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..9078c70 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -131,7 +131,7 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        for x in self._check_width(as_rows(X)):
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From 1624ead25d2c5ec3257e3b1fe84c8ae45f211383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 05/33] fix: get_state/set_state dropped the previous
 observation of a diff=True estimator

---
 precise/base.py             | 14 ++++++++++----
 precise/block_covariance.py | 15 +++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index fb54ef5..b436b74 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -154,16 +154,22 @@ class BaseOnlineCovariance:
     # ------------------------------------------------------- serialization
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
-        if self._state is None:
+        if self._state is None and self._prev_x is None:
             return None
-        return {
+        out = {
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
-            for k, v in self._state.items()
+            for k, v in (self._state or {}).items()
         }
+        if self._prev_x is not None:  # diff=True: the next difference needs it
+            out["prev_x"] = self._prev_x.tolist()
+        return out
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
-        if state is None:
+        prev_x = None if state is None else state.get("prev_x")
+        self._prev_x = None if prev_x is None else np.array(prev_x, dtype=float)
+        state = {k: v for k, v in (state or {}).items() if k != "prev_x"}
+        if not state:
             self._state = None
             self.n_features_in_ = None
             return self
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..dd48125 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return super().get_state()
         s = self._state
-        return {
+        out = {
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -104,12 +104,15 @@ class BlockCovariance(BaseOnlineCovariance):
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
         }
+        if self._prev_x is not None:  # diff=True: the next difference needs it
+            out["prev_x"] = self._prev_x.tolist()
+        return out
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
-        if state is None:
-            self._state = None
-            self.n_features_in_ = None
-            return self
+        if state is None or "n_dim" not in state:
+            return super().set_state(state)
+        prev_x = state.get("prev_x")
+        self._prev_x = None if prev_x is None else np.array(prev_x, dtype=float)
         n_samples, r, n_burn = int(state["n_samples"]), float(state["r"]), int(state["n_burn"])
         slices = [(int(a), int(b)) for a, b in state["slices"]]
         subs = [
-- 
2.43.0


From 33c9210c27f87bbed72f2b3aca7640ff8de098b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 06/33] fix: correlations were damped (diagonal below 1) when
 variances are small

---
 precise/_linalg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..06e7d37 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -20,10 +20,13 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
-    """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    """Normalize a covariance matrix to a correlation matrix (unit diagonal).
+
+    Rows and columns of zero variance come out as zeros.
+    """
+    std = np.sqrt(np.diagonal(a))
+    inv_std = np.divide(1.0, std, out=np.zeros_like(std), where=std != 0)
+    return a * inv_std[:, np.newaxis] * inv_std[np.newaxis, :]
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From 80558e5c9917e95be76307d902a4a4fd03e5b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 07/33] fix: DynamicUniverse evicted the universe it had just
 created, so new names were never learned

---
 precise/keyed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..9262979 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -241,8 +241,12 @@ class DynamicUniverse(_KeyedAdapter):
             fresh.update(x)
             self._add_universe(fresh)
             if len(self.states) > self.max_universes:
+                # Make room for the fresh universe, never by dropping it: it would be recreated
+                # and dropped again on every update, and the current key-set never be learned.
+                older = [kv for kv in self.states.items() if kv[1] is not fresh]
                 victim = sorted(
-                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
+                    older or self.states.items(),
+                    key=lambda kv: (-kv[1].staleness, kv[1].longevity),
                 )[0][0]
                 del self.states[victim]
         return self
-- 
2.43.0


From aa34cefe461d5528cf7bdd68379cef6f7a0ce5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 08/33] fix: FixedUniverse.cov_array returned an empty matrix
 for keys given as a one-shot iterable

---
 precise/keyed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 9262979..385b49a 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -156,10 +156,11 @@ class FixedUniverse(_KeyedAdapter):
         if self._est is None or self.keys is None:
             raise ValueError("No observation has been seen yet.")
         cov = self._est.covariance_
-        if keys is None or list(keys) == self.keys:
+        keys = self.keys if keys is None else list(keys)
+        if keys == self.keys:
             return cov, list(self.keys)
         idx = [self.keys.index(k) for k in keys]
-        return cov[np.ix_(idx, idx)], list(keys)
+        return cov[np.ix_(idx, idx)], keys
 
     def __repr__(self) -> str:
         return f"FixedUniverse(keys={self.keys}, impute={self.impute!r})"
-- 
2.43.0


From d3db5988a5ef31f1c94da884b2e48d2991845162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 09/33] fix: ConditionalCovariance standardized its second
 observation by a zero variance forecast

---
 precise/conditional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index 9078c70..bb3cc93 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -142,8 +142,10 @@ class ConditionalCovariance(BaseOnlineCovariance):
             assert models is not None and self._corr_model is not None
             # One-step-ahead standardization: use the forecast made before seeing x.
             m = np.array([vm.mean for vm in models])
-            v = np.array([max(vm.variance, 1e-12) for vm in models])
-            eps = (x - m) / np.sqrt(v)
+            v = np.array([vm.variance for vm in models])
+            # A zero forecast (one observation seen, say) has no scale to standardize by: use a
+            # neutral residual rather than one of order 1e6, which would swamp the correlation.
+            eps = np.where(v > 0, (x - m) / np.sqrt(np.maximum(v, 1e-12)), 0.0)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From 81a242dc66ab8080ba1ca8674159d66b5bf23873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 10/33] fix: geodesic_step could return an indefinite matrix
 through rounding

---
 precise/_linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 06e7d37..54988b4 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -112,4 +112,6 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     evals_m = np.clip(evals_m, 0.0, None) ** gamma
     middle_power = (evecs_m * evals_m) @ evecs_m.T
 
-    return to_symmetric(start_sqrt @ middle_power @ start_sqrt)
+    # Both ends have eigenvalues of at least the make_pos_def floor, and so has the exact geodesic
+    # between them: flooring again only undoes rounding, which can leave a negative eigenvalue.
+    return make_pos_def(start_sqrt @ middle_power @ start_sqrt)
-- 
2.43.0


From dc4df606459483cebac1bf1a395e3b8f7b040673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/33] fix: geodesic_step diverged when the eigenvalue floor
 was below rounding error (large-scale data)

---
 precise/_linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 54988b4..4cfedd9 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -99,11 +99,12 @@ def geodesic_step(start: np.ndarray, end: np.ndarray, gamma: float) -> np.ndarra
     Reimplemented (eigh-based, numpy only) from
     ``randomcov.covutil.geodesicinterpolation.geodesic_interpolation``.
     """
-    start = make_pos_def(start)
-    end = make_pos_def(end)
+    # Below ~1e-14 of the scale an eigenvalue is rounding noise: inverting it would blow up.
+    start = make_pos_def(start, eps=max(1e-8, 1e-14 * float(np.trace(start))))
+    end = make_pos_def(end, eps=max(1e-8, 1e-14 * float(np.trace(end))))
 
     evals_s, evecs_s = np.linalg.eigh(start)
-    evals_s = np.clip(evals_s, EPS, None)
+    evals_s = np.clip(evals_s, max(EPS, 1e-15 * float(evals_s[-1])), None)
     start_sqrt = (evecs_s * np.sqrt(evals_s)) @ evecs_s.T
     start_inv_sqrt = (evecs_s * (1.0 / np.sqrt(evals_s))) @ evecs_s.T
 
-- 
2.43.0


From e22a1fed4ce716b10b96079b55961de0732d9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 12/33] fix: ShrunkCovariance was indefinite when a variance
 was below its absolute floor

---
 precise/shrunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..8ad1fd8 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,8 +51,8 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
+            d = np.sqrt(np.diag(S))
+            corr = cov_to_corrcoef(S)
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
-- 
2.43.0


From 258be223a2ebb30302fe6ea6338d7d65bdd775a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 13/33] fix: TylerCovariance reported correlations of +-1 for
 ~1e3 observations after a singular start

---
 precise/tyler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/tyler.py b/precise/tyler.py
index 90abbc4..4629e83 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -44,7 +44,9 @@ class TylerCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         if n <= s["n_burn"]:
-            lr = 1.0 / n
+            # The identity start counts as one observation. Overwriting it (a rate of 1 at n == 1)
+            # leaves a singular shape, from which the recursion takes ~1e3 steps to recover.
+            lr = 1.0 / (n + 1)
             mean = s["mean"] + (x - s["mean"]) / n
         else:
             lr = s["r"]
@@ -54,7 +56,7 @@ class TylerCovariance(BaseOnlineCovariance):
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
         trace = np.trace(C)
-        # fix the scale: trace == p (a zero first observation has no direction: keep the shape)
+        # fix the scale: trace == p (zero residual at r == 1: no direction, keep the shape)
         C = p * C / trace if trace > 0 else np.asarray(s["C"], dtype=float)
         return {
             "n_dim": p, "n_samples": n, "mean": mean, "C": C, "r": s["r"], "n_burn": s["n_burn"],
-- 
2.43.0


From 0a0b205f5d6be649a6c707fd67fd065bbd005d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 14/33] fix: five estimators counted the first observation's
 level as a deviation, swamping variances of data far from zero

---
 precise/dcc.py            | 5 +++--
 precise/diagonal.py       | 4 ++--
 precise/factor.py         | 2 +-
 precise/partialmoments.py | 2 +-
 precise/tyler.py          | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..3889b58 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -42,10 +42,11 @@ class DCCCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         r, rv, n_burn = s["r"], s["vol_r"], s["n_burn"]
-        dev = x - s["mean"]  # innovation about the prior mean
+        # innovation about the prior mean (there is none at n == 1)
+        dev = x - (s["mean"] if n > 1 else x)
 
         if n <= n_burn:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             h = s["h"] + (dev * dev - s["h"]) / n
         else:
             mean = (1 - rv) * s["mean"] + rv * x
diff --git a/precise/diagonal.py b/precise/diagonal.py
index e6c9fd3..f77dc50 100644
--- a/precise/diagonal.py
+++ b/precise/diagonal.py
@@ -37,10 +37,10 @@ class DiagonalCovariance(BaseOnlineCovariance):
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
         n = s["n_samples"] + 1
-        dev = x - s["mean"]
+        dev = x - (s["mean"] if n > 1 else x)  # no mean to deviate from at n == 1
         sq = dev * dev
         if n <= s["n_burn"]:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             var = s["var"] + (sq - s["var"]) / n
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
diff --git a/precise/factor.py b/precise/factor.py
index e859784..92ca03b 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -45,7 +45,7 @@ class FactorCovariance(BaseOnlineCovariance):
         n = s["n_samples"] + 1
         r, k, n_burn = s["r"], s["k"], s["n_burn"]
 
-        dev = x - s["mean"]
+        dev = x - (s["mean"] if n > 1 else x)  # no mean to deviate from at n == 1
         sq = dev * dev
         if n <= n_burn:
             # Sample-mean learning rate / empirical accumulation while warming up.
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 1884b50..54a7e0e 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -48,7 +48,7 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             mean = s["mean"] + (x - s["mean"]) / count
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        centered = x - s["mean"]
+        centered = x - (s["mean"] if count > 1 else x)  # no mean to deviate from at count == 1
 
         prev = np.asarray(s["quadrants"], dtype=float)
         quadrants = np.empty_like(prev)
diff --git a/precise/tyler.py b/precise/tyler.py
index 4629e83..4bff9bc 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -51,7 +51,7 @@ class TylerCovariance(BaseOnlineCovariance):
         else:
             lr = s["r"]
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        dev = x - s["mean"]
+        dev = x - (s["mean"] if n > 1 else x)  # no mean to deviate from at n == 1
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-- 
2.43.0


From 142d371519aa828e5cb3a89fdbd88c8a43f87480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 15/33] fix: ConditionalCovariance fed the raw level of its
 first observation to the correlation model

---
 precise/conditional.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index bb3cc93..5e6fb07 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -143,9 +143,11 @@ class ConditionalCovariance(BaseOnlineCovariance):
             # One-step-ahead standardization: use the forecast made before seeing x.
             m = np.array([vm.mean for vm in models])
             v = np.array([vm.variance for vm in models])
-            # A zero forecast (one observation seen, say) has no scale to standardize by: use a
-            # neutral residual rather than one of order 1e6, which would swamp the correlation.
-            eps = np.where(v > 0, (x - m) / np.sqrt(np.maximum(v, 1e-12)), 0.0)
+            # With no forecast yet (or a zero one: one observation seen, say) there is no scale to
+            # standardize by: use a neutral residual rather than the raw level or one of order
+            # 1e6, either of which would swamp the correlation.
+            ready = (v > 0) & (self._state["n_samples"] > 0)
+            eps = np.where(ready, (x - m) / np.sqrt(np.maximum(v, 1e-12)), 0.0)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From a1cfc5724d30d4d766e9d164792099a6b7156d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 16/33] fix: FactorCovariance seeded a factor's eigenvalue in
 the units of the data, not of its square (trace 27x too large on daily
 returns)

---
 precise/factor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/precise/factor.py b/precise/factor.py
index 92ca03b..f02b733 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -59,10 +59,13 @@ class FactorCovariance(BaseOnlineCovariance):
 
         V = np.array(s["V"], dtype=float)
         u = dev.copy()
+        empty = 1e-12 * float(np.sum(var))  # relative, so the units of the data do not matter
         for j in range(k):
             norm = np.linalg.norm(V[j])
-            if norm < 1e-12:
-                V[j] = u  # seed an empty component, one per early step
+            if norm <= empty:
+                # Seed an empty component, one per early step. Its norm is an eigenvalue, so
+                # this is the step below taken from zero along u (not u itself).
+                V[j] = lr * np.linalg.norm(u) * u
                 break
             vhat = V[j] / norm
             proj = float(u @ vhat)
@@ -85,9 +88,10 @@ class FactorCovariance(BaseOnlineCovariance):
         p = state["n_dim"]
         factor = np.zeros((p, p))
         captured = np.zeros(p)
+        empty = 1e-12 * float(np.sum(state["var"]))
         for vj in V:
             norm = np.linalg.norm(vj)
-            if norm > 1e-12:
+            if norm > empty:
                 factor += np.outer(vj, vj) / norm  # = lambda * vhat vhatᵀ  (since ||vj|| == lambda)
                 captured += norm * (vj / norm) ** 2
         # Idiosyncratic residual makes the diagonal match the tracked total variance.
-- 
2.43.0


From 8dc780b10437c31f04bf6aff8743928dba41e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 17/33] fix: a keyed observation rejected half-way was partly
 learned (and could fix the universe)

---
 precise/keyed.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 385b49a..37219d2 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -132,24 +132,23 @@ class FixedUniverse(_KeyedAdapter):
         self._last: np.ndarray | None = None
 
     def update(self, x: dict) -> FixedUniverse:
-        if self.keys is None:
-            self.keys = list(x.keys())
-        if self._est is None:
-            self._est = self._make()
-            self._last = np.zeros(len(self.keys))
-        assert self._last is not None  # set above on first update
-        y = np.empty(len(self.keys))
-        for i, k in enumerate(self.keys):
+        # Work on locals and commit at the end, so a rejected observation leaves no trace.
+        keys = list(x.keys()) if self.keys is None else self.keys
+        est = self._make() if self._est is None else self._est
+        last = np.zeros(len(keys)) if self._last is None else self._last.copy()
+        y = np.empty(len(keys))
+        for i, k in enumerate(keys):
             if k in x:
                 y[i] = x[k]
-                self._last[i] = x[k]
+                last[i] = x[k]
             elif self.impute == "ffill":
-                y[i] = self._last[i]
+                y[i] = last[i]
             elif self.impute == "mean":
-                y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]
+                y[i] = est.location_[i] if est.n_samples_ > 0 else last[i]
             else:  # "zero"
                 y[i] = 0.0
-        self._est.partial_fit(y)
+        est.partial_fit(y)
+        self.keys, self._est, self._last = keys, est, last
         return self
 
     def cov_array(self, keys=None):
@@ -225,7 +224,9 @@ class DynamicUniverse(_KeyedAdapter):
         self._counter += 1
 
     def update(self, x: dict) -> DynamicUniverse:
-        self.x = dict(x)
+        x = dict(x)
+        np.array(list(x.values()), dtype=float)  # raises before anything has been learned
+        self.x = x
         x_keys = set(x.keys())
 
         for universe in self.states.values():
-- 
2.43.0


From b8d72123dde33becb2896074f9d4d204471aeda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 18/33] fix: nearest_pos_def looped forever when the squared
 norm of its input under- or overflows

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 4cfedd9..5133d2d 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -50,7 +50,8 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    spacing = np.spacing(np.linalg.norm(a))
+    # Not the norm, whose squares under- or overflow: a zero spacing never ends the loop below.
+    spacing = np.spacing(np.max(np.abs(b)))
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
-- 
2.43.0


From a82f1b144e70f96058ded043bdcf268bc21a9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 19/33] fix: the recommender export wrote all-zero leaves and
 an unreadable class list with current sklearn/numpy

---
 research/train_recommender.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..80be6b7 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -54,6 +54,9 @@ def generate(n_problems=800, seed=0):
 
 def export(clf, mean, std):
     t = clf.tree_
+    # scikit-learn >= 1.3 keeps class *fractions* in tree_.value; ship counts, whichever it is.
+    share = t.value[:, 0, :] / t.value[:, 0, :].sum(axis=1, keepdims=True)
+    counts = np.rint(share * t.n_node_samples[:, None]).astype(int)
     docstring = (
         '"""Frozen recommender model (auto-generated by research/train_recommender.py).\n'
         "Numpy-only decision tree walked by precise.suggest; do not edit by hand.\n"
@@ -66,12 +69,12 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {counts.tolist()!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From 1ea540f622a9c377bdc89581a751d6ede9620ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 20/33] fix: the seeded benchmarks drew their randomcov
 problems from unseeded randomness

---
 research/bakeoff.py | 2 +-
 research/oos.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/research/bakeoff.py b/research/bakeoff.py
index 358bf9a..343cd1b 100644
--- a/research/bakeoff.py
+++ b/research/bakeoff.py
@@ -102,7 +102,7 @@ def build_scenarios(d=12, n=1500, n_test=500, seed=0):
     if HAVE_RANDOMCOV:
         for method in ("lkj", "wishart", "residuals"):
             try:
-                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method))
+                cov = np.asarray(random_covariance_matrix(n=d, corr_method=method, rng=rng))
                 tr, te = _gaussian(cov, n, rng), _gaussian(cov, n_test, rng)
                 scs.append((f"randomcov_{method}", tr, te, cov))
             except Exception:  # pragma: no cover - depends on randomcov internals
diff --git a/research/oos.py b/research/oos.py
index 52610f3..1ca6887 100644
--- a/research/oos.py
+++ b/research/oos.py
@@ -82,7 +82,9 @@ ENSEMBLES = {
 if HAVE_RANDOMCOV:  # pragma: no cover
     for _m in ("lkj", "wishart", "residuals"):
         ENSEMBLES[f"randomcov_{_m}"] = (
-            (lambda p, rng, m=_m: np.asarray(random_covariance_matrix(n=p, corr_method=m))),
+            lambda p, rng, m=_m: np.asarray(
+                random_covariance_matrix(n=p, corr_method=m, rng=rng)
+            ),
             False,
         )
 
-- 
2.43.0


From c5726ef96a3a77a5e2e78179bc90e049e1a0096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 21/33] fix: nearest_pos_def of an all-zero matrix was 5e-324
 times the identity, whose inverse is infinite

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index 5133d2d..c3e2584 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -51,7 +51,8 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
         return a3
 
     # Not the norm, whose squares under- or overflow: a zero spacing never ends the loop below.
-    spacing = np.spacing(np.max(np.abs(b)))
+    # Nor below the smallest normal number (zero input): the result could not be inverted.
+    spacing = max(np.spacing(np.max(np.abs(b))), np.finfo(float).tiny)
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
-- 
2.43.0


From 37fdf9eb3a11031338b490953c4bd3f150e8effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 22/33] fix: BlockCovariance.precision_ raised on blocks that
 are singular at large scale

---
 precise/block_covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index dd48125..26f82e0 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -18,7 +18,7 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._linalg import make_pos_def, to_symmetric
+from precise._linalg import make_pos_def, to_symmetric, try_invert
 from precise._state import ewa_burn_n, ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -80,7 +80,7 @@ class BlockCovariance(BaseOnlineCovariance):
         p = state["n_dim"]
         out = np.zeros((p, p))
         for sub, (a, b) in zip(state["subs"], state["slices"]):
-            out[a:b, a:b] = np.linalg.inv(self._pd_block(sub))
+            out[a:b, a:b] = try_invert(self._pd_block(sub))
         return out
 
     def _state_to_mean(self, state: dict) -> np.ndarray:
-- 
2.43.0


From 0d7fcd9bec20c569239ef8b9d758b03a4c2d5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 23/33] fix: canonical_corr2 took eigenvalues of a symmetrized
 non-symmetric matrix

---
 research/schur_likelihood_theory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..13ae860 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,7 +200,10 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
+    # Whiten block 1: S11^-1 S12 S22^-1 S21 is similar to this symmetric matrix but not symmetric
+    # itself, and symmetrizing it directly would change its eigenvalues.
+    W = np.linalg.solve(np.linalg.cholesky(S11), S12)
+    Mmat = W @ np.linalg.solve(S22, W.T)
     return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
 
 
-- 
2.43.0


From 310f1e1ba339685d3758fd88d8ccb84e21cec26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 24/33] fix: pseudo_likelihood_power in the clean regime failed
 for p below bulk, which it does not use

---
 research/metric_power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/research/metric_power.py b/research/metric_power.py
index 8ac88f4..24223c6 100644
--- a/research/metric_power.py
+++ b/research/metric_power.py
@@ -398,7 +398,7 @@ def pseudo_likelihood_power(regime="noisy_tail", block_sizes=(3, 10, 30, None),
     bs = [p if b is None else b for b in block_sizes]
     judges = ["frobenius", "full_loglik"] + [f"pll_b{b}" for b in bs]
     correct = {j: 0 for j in judges}
-    tail = p - bulk
+    tail = max(p - bulk, 0)  # the spectrum is not used in the clean regime
     lam = np.concatenate([rng.uniform(2.0, 6.0, bulk), np.full(tail, tail_level)])
 
     for _ in range(trials):
-- 
2.43.0


From d1072332c9b1100075b49b0faf2217e01b33c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 25/33] fix: set_params accepted unknown parameter names,
 silently ignoring a misspelt one

---
 precise/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/precise/base.py b/precise/base.py
index b436b74..ee1efde 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -147,6 +147,13 @@ class BaseOnlineCovariance:
         return {k: getattr(self, k) for k in self._param_names()}
 
     def set_params(self, **params) -> BaseOnlineCovariance:
+        # Before setting any: a misspelt name must not leave the instance half configured.
+        unknown = sorted(set(params) - set(self._param_names()))
+        if unknown:
+            raise ValueError(
+                f"{type(self).__name__} has no parameter {', '.join(map(repr, unknown))}; "
+                f"it has {self._param_names()}."
+            )
         for key, value in params.items():
             setattr(self, key, value)
         return self
-- 
2.43.0


From 20845dcc9d5b51fe9fefc0ed3cfb1d95ccfb2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 26/33] fix: DynamicUniverse learned an observation with
 several numbers per name as extra rows or variables

---
 precise/keyed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 37219d2..fe7546b 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -225,7 +225,10 @@ class DynamicUniverse(_KeyedAdapter):
 
     def update(self, x: dict) -> DynamicUniverse:
         x = dict(x)
-        np.array(list(x.values()), dtype=float)  # raises before anything has been learned
+        # Raise before anything has been learned. One number per name: arrays would reach the
+        # wrapped estimators as further variables or rows.
+        if np.array(list(x.values()), dtype=float).ndim != 1:
+            raise ValueError("Expected one number per name.")
         self.x = x
         x_keys = set(x.keys())
 
-- 
2.43.0


From 2c0bab7fc172fc816d13ba0433718550fa216217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 27/33] fix: commented-out equations shifted the web edition's
 numbering

---
 docs/_webtex.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/docs/_webtex.py b/docs/_webtex.py
index b385049..65e9137 100644
--- a/docs/_webtex.py
+++ b/docs/_webtex.py
@@ -13,6 +13,8 @@ Usage: _webtex.py input.tex output.tex
 import re
 import sys
 
+COMMENT = r"(?<!\\)(?:\\\\)*%[^\n]*"  # to the end of the line: LaTeX neither numbers nor resolves these
+
 
 def main(src_path: str, out_path: str) -> None:
     tex = open(src_path).read()
@@ -22,26 +24,32 @@ def main(src_path: str, out_path: str) -> None:
 
     def process_equation(m: re.Match) -> str:
         nonlocal counter
+        if m.group(1) is None:
+            return m.group(0)
         counter += 1
         body = m.group(1)
 
         def label_to_tag(lm: re.Match) -> str:
+            if lm.group(1) is None:
+                return lm.group(0)
             numbers[lm.group(1)] = counter
             return rf"\tag{{{counter}}}"
 
-        body = re.sub(r"\\label\{(eq:[^}]*)\}", label_to_tag, body)
+        body = re.sub(COMMENT + r"|\\label\{(eq:[^}]*)\}", label_to_tag, body)
         return rf"\[{body}\]"
 
-    tex = re.sub(r"\\begin\{equation\}(.*?)\\end\{equation\}", process_equation,
+    tex = re.sub(COMMENT + r"|\\begin\{equation\}(.*?)\\end\{equation\}", process_equation,
                  tex, flags=re.DOTALL)
 
     def resolve_eqref(m: re.Match) -> str:
         key = m.group(1)
+        if key is None:
+            return m.group(0)
         if key not in numbers:
             raise SystemExit(f"_webtex.py: \\eqref{{{key}}} has no matching labeled equation")
         return f"({numbers[key]})"
 
-    tex = re.sub(r"\\eqref\{(eq:[^}]*)\}", resolve_eqref, tex)
+    tex = re.sub(COMMENT + r"|\\eqref\{(eq:[^}]*)\}", resolve_eqref, tex)
 
     open(out_path, "w").write(tex)
 
-- 
2.43.0


From d34693d92ba02399d3341c6bfbd4147a8a0f537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 28/33] fix: the skaters examples named skaters.holt, which
 does not exist

---
 README.md              | 4 ++--
 precise/conditional.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 94fbe63..026fdf6 100644
--- a/README.md
+++ b/README.md
@@ -92,13 +92,13 @@ est = ConditionalCovariance(vol=EwaCovariance(r=0.02),       # any estimator, us
 ```
 
 The volatility model can also be any univariate model from
-[microprediction/skaters](https://github.com/microprediction/skaters) (Holt, Hosking, …) via
+[microprediction/skaters](https://github.com/microprediction/skaters) (Laplace, EMA, …) via
 `from_skater` — precise doesn't depend on it; the adapter is duck-typed:
 
 ```python
 import skaters
 from precise import ConditionalCovariance, from_skater
-est = ConditionalCovariance(vol=from_skater(skaters.holt), corr=EwaCovariance(r=0.05))
+est = ConditionalCovariance(vol=from_skater(skaters.laplace()), corr=EwaCovariance(r=0.05))
 ```
 
 ## Assess & recommend
diff --git a/precise/conditional.py b/precise/conditional.py
index 5e6fb07..b5fd325 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -12,7 +12,7 @@ estimator** for ``R`` (run on the standardized residuals), and recombine.
 
 ``DCCCovariance(r)`` is essentially the special case
 ``ConditionalCovariance(EwaCovariance(r), EwaCovariance(r))``. Now you can say "robust per-series
-vol + shrunk correlation", "a skaters Holt model + factor correlation", and so on — a combinatorial
+vol + shrunk correlation", "a skaters Laplace model + factor correlation", and so on — a combinatorial
 family from two axes.
 
 Standardization is honest one-step-ahead: each observation is standardized by the forecast made
@@ -97,7 +97,7 @@ def from_skater(f) -> _SkaterVarFactory:
 
         import skaters
         from precise import ConditionalCovariance, LedoitWolfCovariance, from_skater
-        est = ConditionalCovariance(vol=from_skater(skaters.holt),
+        est = ConditionalCovariance(vol=from_skater(skaters.laplace()),
                                     corr=LedoitWolfCovariance(r=0.05))
 
     (The factory is picklable when ``f`` is; precise's own estimators are picklable as volatility
-- 
2.43.0


From da33d496e2b971ebbed54537e9e93bedd7ce9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 29/33] fix: the home page's keyed example called partial_fit,
 which keyed views lack

---
 docs/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/index.html b/docs/index.html
index 92af381..b795ad4 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -122,7 +122,7 @@ estimator_from_name("LedoitWolfCovariance")</pre>
             positional estimator into a river-style one over named variables that enter and leave:</p>
             <pre>from precise import keyed, EwaCovariance
 est = keyed(EwaCovariance(r=0.05))
-est.partial_fit({"AAPL": 0.01, "MSFT": -0.02})   # dict in, dict-of-dicts out
+est.update({"AAPL": 0.01, "MSFT": -0.02})        # dict in, dict-of-dicts out
 est.covariance_["AAPL"]["MSFT"]</pre>
             <p class="text-muted"><code>FixedUniverse</code> imputes missing keys;
             <code>DynamicUniverse</code> handles staleness/longevity eviction and pairwise assembly
-- 
2.43.0


From 1d50eacc7584c5bde440aa3fd429a0e9340d17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 30/33] fix: nearest_pos_def looped forever when its diagonal
 increment was lost in rounding

---
 precise/_linalg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index c3e2584..fd1a1fa 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -50,14 +50,16 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    # Not the norm, whose squares under- or overflow: a zero spacing never ends the loop below.
+    # Not the norm, whose squares under- or overflow: a zero spacing never ends the loop below,
+    # nor does one so small that adding it to the diagonal is lost in rounding.
     # Nor below the smallest normal number (zero input): the result could not be inverted.
-    spacing = max(np.spacing(np.max(np.abs(b))), np.finfo(float).tiny)
-    identity = np.eye(a.shape[0])
+    n = a.shape[0]
+    spacing = max(2 * n * np.spacing(np.max(np.abs(b))), np.finfo(float).tiny)
+    identity = np.eye(n)
     k = 1
     while not is_positive_def(a3):
         mineig = np.min(np.real(np.linalg.eigvals(a3)))
-        a3 += identity * (-mineig * k**2 + spacing)
+        a3 += identity * (max(-mineig, 0.0) * k**2 + spacing)
         k += 1
     return a3
 
-- 
2.43.0


From f26082f761d7258f2815950f8174f311aabd8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 31/33] fix: a far outlier overflowed the Huber weight and
 turned the estimate to NaN for good

---
 precise/huber.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/precise/huber.py b/precise/huber.py
index c63444b..ce0460f 100644
--- a/precise/huber.py
+++ b/precise/huber.py
@@ -41,10 +41,14 @@ class HuberCovariance(BaseOnlineCovariance):
         r = s["r"]
         p = s["n_dim"]
         delta = x - s["mean"]
-        # Multivariate Huber weight from the Mahalanobis distance under the current estimate.
-        maha2 = float(delta @ try_invert(s["cov"]) @ delta)
-        threshold = (self.c**2) * p
-        w = 1.0 if maha2 <= threshold else np.sqrt(threshold / maha2)
+        # Multivariate Huber weight from the Mahalanobis distance under the current estimate, taken
+        # in units of the largest deviation so that the square of a far outlier cannot overflow.
+        unit = max(float(np.max(np.abs(delta))), 1.0)
+        maha2 = float((delta / unit) @ try_invert(s["cov"]) @ (delta / unit))
+        cutoff = self.c * np.sqrt(p) / unit
+        w = 1.0 if maha2 <= cutoff**2 else cutoff / np.sqrt(maha2)
+        if np.isnan(w):  # a covariance all but collapsed has no finite inverse to judge by
+            w = 0.0
         weighted = w * delta
         return {
             "n_dim": p,
-- 
2.43.0


From dc9845880fc0667e8b267681c540a4cd19304ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 32/33] fix: a far outlier overflowed the Tyler contribution
 and turned the shape to NaN for good

---
 precise/tyler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/precise/tyler.py b/precise/tyler.py
index 4bff9bc..769e686 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -52,6 +52,7 @@ class TylerCovariance(BaseOnlineCovariance):
             lr = s["r"]
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
         dev = x - (s["mean"] if n > 1 else x)  # no mean to deviate from at n == 1
+        dev = dev / max(float(np.max(np.abs(dev))), 1.0)  # only direction counts: do not overflow
         C = np.asarray(s["C"], dtype=float)
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
-- 
2.43.0


From 74e73b42c3480a764806796f2a390d7f0cbe938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:10 +0000
Subject: [PATCH 33/33] fix: FixedUniverse(impute="mean") filled the level of a
 series learned in differences with its mean difference

---
 precise/keyed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/precise/keyed.py b/precise/keyed.py
index fe7546b..5467589 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -145,6 +145,8 @@ class FixedUniverse(_KeyedAdapter):
                 y[i] = last[i]
             elif self.impute == "mean":
                 y[i] = est.location_[i] if est.n_samples_ > 0 else last[i]
+                if est.n_samples_ > 0 and est._prev_x is not None:
+                    y[i] += est._prev_x[i]  # diff=True: that is the mean of the differences
             else:  # "zero"
                 y[i] = 0.0
         est.partial_fit(y)
-- 
2.43.0

