From 481f77d596977eb6edcd4aedbe05d6787728b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 01/29] fix: ConstantOperator.apply() truncated its entries for
 integer-valued states

---
 src/opinf/operators/_nonparametric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..2ae9f45 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,11 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full_like(  # r = 1, k > 1.
+                state,
+                self.entries[0],
+                dtype=np.result_type(state, self.entries),
+            )
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From e9a66d0cb1e9527d64b5c92629b23f51bb3d5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 02/29] fix: model rhs() and jacobian() failed for
 integer-valued states

---
 src/opinf/models/mono/_nonparametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..ca56e33 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,8 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        dtype = np.result_type(state, float)
+        out = np.zeros_like(state, shape=(r, r), dtype=dtype)
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From 2858b61b536cb105cc54654816ef0c10973aa2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 03/29] fix: interpolatory operators with unsorted parameters
 could not be copied, loaded or refit

---
 src/opinf/operators/_interpolate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..75d85b2 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -267,12 +267,17 @@ class _InterpOperator(ParametricOpInfOperator):
             if InterpolatorClass is None:
                 if (dim := params.ndim) == 1:
                     InterpolatorClass = spinterp.CubicSpline
-                    paramsort = np.argsort(params)
-                    params = params[paramsort]
-                    entries = self.entries[paramsort]
                 elif dim == 2:
                     InterpolatorClass = spinterp.LinearNDInterpolator
 
+            # Univariate piecewise polynomials need sorted parameters.
+            if isinstance(InterpolatorClass, type) and issubclass(
+                InterpolatorClass, spinterp.PPoly
+            ):
+                paramsort = np.argsort(params)
+                params = params[paramsort]
+                entries = self.entries[paramsort]
+
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-- 
2.43.0


From 738d2876ed05cd4285bc45e000594fcc558a6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 04/29] fix: interpolatory model fit subtracted known operators
 from the lhs twice

---
 src/opinf/models/mono/_parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..92170ff 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1152,7 +1152,7 @@ class _InterpModel(_ParametricModel):
             )
             model_i._fit_solver(
                 states_[i],
-                lhs_[i],
+                lhs[i],  # submodels subtract known operators themselves.
                 inputs_[i],
             )
             nonparametric_models.append(model_i)
-- 
2.43.0


From 5be4b12770a122e63b70e1f42003b3cb13a4c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 05/29] fix: ShiftScaleTransformer.inverse_transform(locs)
 failed with byrow=True and no scaling

---
 src/opinf/pre/_shiftscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..bcde218 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -1269,7 +1269,7 @@ class ShiftScaleTransformer(TransformerTemplate):
         shift_, scale_ = self.shift_, self.scale_
         if locs is not None:
             locs = self._check_locs(locs, states_transformed)
-            if self.byrow:
+            if self.scaling and self.byrow:
                 shift_ = shift_[locs]
                 scale_ = scale_[locs]
         else:
-- 
2.43.0


From 13d0c8b064fdf07a91d2b4b08796fe4e33d7b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 06/29] fix: method_of_snapshots() dropped the smallest
 eigenvalue even when it was positive

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..ccff633 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -123,7 +123,7 @@ def method_of_snapshots(
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
     # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    positives = eigvals > max(minthresh, -np.min(eigvals))
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From c3a17f10cc5e0d4576969857214a98beacb42540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 07/29] fix: residual_energy and projection_error criteria
 selected one vector too many on the threshold

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ccff633..998ed25 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 804dc25044d8428b875c0e739a8f92277283bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 08/29] fix: svdval_decay() failed for integer singular values

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 998ed25..ccdc1f3 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1138,7 +1138,7 @@ def svdval_decay(
         Number of singular values greater than the cutoff value(s).
     """
     singular_values = np.sort(singular_values)[::-1]
-    singular_values /= singular_values[0]
+    singular_values = singular_values / singular_values[0]
 
     # Calculate the number of singular values above the cutoff value(s).
     if threshold:
-- 
2.43.0


From a85df69ece21363ecf875ffba8f66ebd01960678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 09/29] fix: TikhonovDecoupledSolver.solve() ignored the cond
 and lapack_driver options

---
 src/opinf/lstsq/_tikhonov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..b788357 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1211,7 +1211,7 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i], **self.options)[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From 7d1b5093f36f67e870d499a3b61db0d07864e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 10/29] fix: ddt_uniform() truncated the estimates for integer
 states

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..fa88f07 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty_like(states, dtype=np.result_type(states, 1.0))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From f7707a02c1294574df1b6ddf63032d6cef7aa789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 11/29] fix: PolynomialLifter truncated a single fractional
 order to an integer

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..5053a0c 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From 24e961e2b4bf8d7a7246f537376fb63421abd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 12/29] fix: PolynomialLifter.lift_ddts() with order 0 was NaN
 where the state is zero

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 5053a0c..0eb2b04 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                p * states ** (p - 1) * ddts if p != 0 else np.zeros_like(ddts)
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From e15a89f130606adeb4924fdbc508f9dd611b66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 13/29] fix: PolynomialLifter.unlift() failed for negative
 states with odd orders

---
 src/opinf/lift/_polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 0eb2b04..8781c34 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -183,6 +183,9 @@ class PolynomialLifter(LifterTemplate):
         variables = np.split(lifted_states, self.num_variables, axis=0)
         if 1 in self.__orders:
             return variables[self.__orders.index(1)]
+        for var, p in zip(variables, self.__orders):
+            if p % 2 == 1:  # Odd powers are invertible for both signs.
+                return np.sign(var) * np.abs(var) ** (1 / p)
         for var, p in zip(variables, self.__orders):
             if p != 0:
                 return var ** (1 / p)
-- 
2.43.0


From 3e13788cf5b8f59209ad6cc4166b9444f9ad4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 14/29] fix: OperatorPosterior.rvs() drew scalars instead of
 operator rows when built from covariances

---
 src/opinf/roms/_bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..74239ae 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,9 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [
+            np.reshape(rv.rvs(), rv.mean.shape) for rv in self.randomvariables
+        ]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From 6bef708c95382f1946477acf6e9ae034824e9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 15/29] fix: reset the solver before a new regularization
 selection

---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..ba28817 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -671,7 +671,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -894,7 +894,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From 67ad6ca04df721beb14afcacb228848064ebbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 16/29] fix: reject continuous ROM solutions with NaNs or infs
 during regularization selection

---
 src/opinf/roms/_base.py  | 2 ++
 src/opinf/roms/_bayes.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ba28817..41f8fc1 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -696,6 +696,8 @@ class _BaseROM(abc.ABC):
             """Return ``True`` if the solution is unstable."""
             if _Q.shape[-1] != size:
                 return True
+            if np.isnan(_Q).any() or np.isinf(_Q).any():
+                return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
         # Extend the training time domains by the testing time length.
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 74239ae..c59b5e4 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -318,6 +318,8 @@ class _BayesianROMMixin:
             """Return ``True`` if the solution is unstable."""
             if _Q.shape[-1] != size:
                 return True
+            if np.isnan(_Q).any() or np.isinf(_Q).any():
+                return True
             return np.abs(_Q - shifts[ell]).max() > limits[ell]
 
         # Extend the training time domains by the testing time length.
-- 
2.43.0


From 92bdba83e61d21f319f25c2f73f35e84e76cab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 17/29] fix: load affine operators whose coeffs argument is an
 integer

---
 src/opinf/operators/_affine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..a8eae67 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -499,7 +499,10 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            if (
+                op.parameter_dimension is None
+                and (key := "parameter_dimension") in hf["meta"].attrs
+            ):
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From 4fa711d0bb140a7429ba609e32e045e6e30c50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 18/29] fix: save, load, and compare operators with sparse
 entries

---
 src/opinf/operators/_base.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..681a1ef 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -617,7 +618,11 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
-            return np.all(self.entries == other.entries)
+            A, B = self.entries, other.entries
+            if sparse.issparse(A) or sparse.issparse(B):
+                A, B = sparse.csr_matrix(A), sparse.csr_matrix(B)
+                return (A != B).nnz == 0
+            return np.all(A == B)
         return True
 
     def __add__(self, other):
@@ -796,7 +801,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -816,7 +823,11 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            if "entries" not in hf:
+                return cls(None)
+            if isinstance(hf["entries"], h5py.Dataset):
+                return cls(hf["entries"][:])
+            return cls(utils.load_sparray(hf["entries"]))
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From a89848df4f88a4683bf19794808cf29d93e8cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 19/29] fix: copy, save, and load PolynomialOperator objects

---
 src/opinf/operators/_polynomial_operator.py | 51 ++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..b57dfb4 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -221,6 +221,55 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    def __eq__(self, other):
+        """Test whether two operators have the same order and entries."""
+        return (
+            OpInfOperator.__eq__(self, other)
+            and self.polynomial_order == other.polynomial_order
+        )
+
+    # Persistence -------------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+
+        Parameters
+        ----------
+        savefile : str
+            Path of the file to save the basis in.
+        overwrite : bool
+            If ``True``, overwrite the file if it already exists. If ``False``
+            (default), raise a ``FileExistsError`` if the file already exists.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+
+        Parameters
+        ----------
+        loadfile : str
+            Path to the file where the operator was stored via :meth:`save()`.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            meta = hf["meta"]
+            if (ClassName := meta.attrs["class"]) != cls.__name__:
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            return cls(
+                int(meta.attrs["polynomial_order"]),
+                hf["entries"][:] if "entries" in hf else None,
+            )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From accf882d302126301a190dcf4b715ea1d81986dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 20/29] fix: load a ScaleTransformer with a one-dimensional
 scaler of length one

---
 src/opinf/pre/_shiftscale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index bcde218..73e7f11 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,8 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            byrow = bool(meta.attrs["byrow"]) if "byrow" in meta.attrs else False
+            if scaler.shape == (1,) and not byrow:
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 14734214448d55c502fd459d55704ab29ef4511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 21/29] fix: load an unnamed TransformerPipeline without a name

---
 src/opinf/pre/_multi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..fc8c377 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -157,6 +157,7 @@ class TransformerPipeline(TransformerTemplate):
         with utils.hdf5_loadhandle(loadfile) as hf:
             meta = hf["meta"]
             name = str(meta.attrs["name"])
+            name = None if name == "None" else name
             num_transformers = int(meta.attrs["num_transformers"])
             if (nclasses := len(TransformerClasses)) != num_transformers:
                 raise ValueError(
-- 
2.43.0


From b71112d1a189f7e3f4a0553c5ff37cddd9bee5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 22/29] fix: NullTransformer.load() rejects files with other
 transformers

---
 src/opinf/pre/_multi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index fc8c377..ba63a9c 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -317,6 +317,10 @@ class NullTransformer(TransformerTemplate):
     def load(cls, loadfile):
         with utils.hdf5_loadhandle(loadfile) as hf:
             meta = hf["meta"]
+            if list(hf) != ["meta"] or "scaling" in meta.attrs:
+                raise errors.LoadfileFormatError(
+                    "file does not contain a NullTransformer"
+                )
             name = meta.attrs["name"]
             ntf = cls(name=(None if name == "None" else name))
             if "state_dimension" in meta.attrs:
-- 
2.43.0


From fcf2c3b05d35abcabe6219b6aab2c383d322b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 23/29] fix: model copies keep the solver and the operators to
 infer

---
 src/opinf/models/mono/_base.py       | 22 ++++++++++++++++++++--
 src/opinf/models/mono/_parametric.py |  3 ++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..20e8aef 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,26 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        return self._copy_attributes(model)
+
+    def _copy_attributes(self, model):
+        """Copy the dimensions, the solver, and the distinction between known
+        operators and operators to infer to a ``model`` with the same operators.
+        """
+        model._indices_of_operators_to_infer = list(
+            self._indices_of_operators_to_infer
+        )
+        model._indices_of_known_operators = list(
+            self._indices_of_known_operators
+        )
+        if (r := self.state_dimension) != model.state_dimension:
+            model.state_dimension = r
+        if (m := self.input_dimension) != model.input_dimension:
+            model.input_dimension = m
+        if self.solver is not None:
+            model.solver = self.solver.copy()
+        return model
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 92170ff..2484893 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1310,10 +1310,11 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
+        model = self.__class__(
             operators=[op.copy() for op in self.operators],
             InterpolatorClass=self.__InterpolatorClass,
         )
+        return self._copy_attributes(model)
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From 111b9aa862a00684397ba7627e564cb20d6659bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 24/29] fix: loaded models keep their solver and interpolator,
 and are of the saved class

---
 src/opinf/models/mono/_base.py          | 26 +++++++++++++++++++++++++
 src/opinf/models/mono/_nonparametric.py |  6 ++++--
 src/opinf/models/mono/_parametric.py    |  6 +++++-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 20e8aef..9dbf4d0 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -337,6 +337,32 @@ class _Model(abc.ABC):
             model.solver = self.solver.copy()
         return model
 
+    @classmethod
+    def _check_loadfile_class(cls, meta):
+        """Raise an exception if a file contains another class of model."""
+        if "class" not in meta.attrs:
+            return  # file from an older version
+        ClassName = meta.attrs["class"].removeprefix("_Frozen")
+        if ClassName not in [c.__name__ for c in cls.__mro__]:
+            raise TypeError(
+                f"file contains '{ClassName}' object, "
+                f"use '{ClassName}.load()'"
+            )
+
+    def _save_solver(self, hf):
+        """Save the solver to an open HDF5 file."""
+        if self.solver is not None:
+            group = hf.create_group("solver")
+            self.solver.save(group)
+            group.attrs["class"] = self.solver.__class__.__name__
+
+    def _load_solver(self, hf):
+        """Load the solver from an open HDF5 file."""
+        if "solver" in hf and "class" in hf["solver"].attrs:
+            ClassName = hf["solver"].attrs["class"]
+            if (SolverClass := getattr(lstsq, ClassName, None)) is not None:
+                self.solver = SolverClass.load(hf["solver"])
+
 
 class _OpInfModel(_Model):
     """Base class for monolithic models with Operator Inference learning."""
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index ca56e33..1e2702a 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -413,6 +413,7 @@ class _NonparametricModel(_OpInfModel):
         with utils.hdf5_savehandle(savefile, overwrite=overwrite) as hf:
             # Metadata.
             meta = hf.create_dataset("meta", shape=(0,))
+            meta.attrs["class"] = self.__class__.__name__
             meta.attrs["num_operators"] = len(self.operators)
             meta.attrs["r"] = (
                 int(self.state_dimension) if self.state_dimension else 0
@@ -430,8 +431,7 @@ class _NonparametricModel(_OpInfModel):
             )
             for i, op in enumerate(self.operators):
                 op.save(hf.create_group(f"operator_{i}"))
-            if self.solver is not None:
-                self.solver.save(hf.create_group("solver"))
+            self._save_solver(hf)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -450,6 +450,7 @@ class _NonparametricModel(_OpInfModel):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             # Load metadata.
+            cls._check_loadfile_class(hf["meta"])
             num_operators = int(hf["meta"].attrs["num_operators"])
             indices_infer = [int(i) for i in hf["indices_infer"][:]]
             indices_known = [int(i) for i in hf["indices_known"][:]]
@@ -469,6 +470,7 @@ class _NonparametricModel(_OpInfModel):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 2484893..f5e570a 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1198,6 +1198,7 @@ class _InterpModel(_ParametricModel):
         with utils.hdf5_savehandle(savefile, overwrite=overwrite) as hf:
             # Metadata.
             meta = hf.create_dataset("meta", shape=(0,))
+            meta.attrs["class"] = self.__class__.__name__
             meta.attrs["num_operators"] = len(self.operators)
             meta.attrs["r"] = (
                 int(self.state_dimension) if self.state_dimension else 0
@@ -1237,6 +1238,7 @@ class _InterpModel(_ParametricModel):
                     warnings.simplefilter("ignore", errors.OpInfWarning)
                 for i, op in enumerate(self.operators):
                     op.save(hf.create_group(f"operator_{i}"))
+            self._save_solver(hf)
 
     @classmethod
     def load(cls, loadfile: str, InterpolatorClass: type = None):
@@ -1263,6 +1265,7 @@ class _InterpModel(_ParametricModel):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             # Load metadata.
+            cls._check_loadfile_class(hf["meta"])
             num_operators = int(hf["meta"].attrs["num_operators"])
             indices_infer = [int(i) for i in hf["indices_infer"][:]]
             indices_known = [int(i) for i in hf["indices_known"][:]]
@@ -1298,13 +1301,14 @@ class _InterpModel(_ParametricModel):
                 ops.append(OpClass.load(gp, InterpolatorClass))
 
             # Construct the model.
-            model = cls(ops)
+            model = cls(ops, InterpolatorClass=InterpolatorClass)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
                 model.input_dimension = m
+            model._load_solver(hf)
 
         return model
 
-- 
2.43.0


From f6e48b2d58678566205518ab39893feb88641d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 25/29] fix: save and load a PODBasis without right singular
 vectors

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ccdc1f3..b7e570e 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -987,7 +987,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1027,7 +1028,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From 52d10eff8ec823b1fa34ad4e961168405b828f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 26/29] fix: a loaded PODBasis keeps its
 reduced_state_dimension

---
 src/opinf/basis/_pod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index b7e570e..0b65b96 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -985,6 +985,7 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("weights", data=w)
 
             if self.leftvecs is not None:
+                meta.attrs["r"] = self.reduced_state_dimension
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
                 if self.rightvecs is not None:
@@ -1030,7 +1031,10 @@ class PODBasis(LinearBasis):
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
+                basis = cls.from_svd(**kwargs)
+                if max_vectors is None and "r" in attrs:
+                    basis.reduced_state_dimension = attrs["r"]
+                return basis
 
             return cls(**kwargs)
 
-- 
2.43.0


From 219c2a54d9e11a74de3a1a52abf97bf3382ce47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 27/29] fix: a loaded PODBasis keeps its SVD solver

---
 src/opinf/basis/_pod.py        | 20 +++++++++++++++++---
 src/opinf/models/mono/_base.py |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 0b65b96..515ae54 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -971,6 +971,12 @@ class PODBasis(LinearBasis):
                 meta.attrs["name"] = self.name
 
             meta.attrs["criterion_type"] = self.__criterion[0]
+            if self.__svdsolverlabel != "custom":
+                meta.attrs["svdsolver"] = self.__svdsolverlabel
+            options = hf.create_dataset("svdsolver_options", shape=(0,))
+            for key, value in self.svdsolver_options.items():
+                if isinstance(value, (str, bool, int, float)):
+                    options.attrs[key] = value
             hf.create_dataset("criterion_value", data=[self.__criterion[1]])
 
             if self.__max_vectors_desired is not None:
@@ -1034,9 +1040,17 @@ class PODBasis(LinearBasis):
                 basis = cls.from_svd(**kwargs)
                 if max_vectors is None and "r" in attrs:
                     basis.reduced_state_dimension = attrs["r"]
-                return basis
-
-            return cls(**kwargs)
+            else:
+                basis = cls(**kwargs)
+
+            if "svdsolver" in attrs:
+                basis.svdsolver = attrs["svdsolver"]
+            if "svdsolver_options" in hf:
+                basis.svdsolver_options = {
+                    key: value.item() if hasattr(value, "item") else value
+                    for key, value in hf["svdsolver_options"].attrs.items()
+                }
+            return basis
 
 
 # Functional API ==============================================================
diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 9dbf4d0..367ff60 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -342,7 +342,7 @@ class _Model(abc.ABC):
         """Raise an exception if a file contains another class of model."""
         if "class" not in meta.attrs:
             return  # file from an older version
-        ClassName = meta.attrs["class"].removeprefix("_Frozen")
+        ClassName = meta.attrs["class"].replace("_Frozen", "")
         if ClassName not in [c.__name__ for c in cls.__mro__]:
             raise TypeError(
                 f"file contains '{ClassName}' object, "
-- 
2.43.0


From c1bad37e8c870044f5e52d136394cf609dd8e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 28/29] fix: copied and loaded models can be fit again

---
 src/opinf/models/mono/_base.py          | 1 +
 src/opinf/models/mono/_nonparametric.py | 1 +
 src/opinf/models/mono/_parametric.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 367ff60..75c8820 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -329,6 +329,7 @@ class _Model(abc.ABC):
         model._indices_of_known_operators = list(
             self._indices_of_known_operators
         )
+        model._fully_intrusive = self._fully_intrusive
         if (r := self.state_dimension) != model.state_dimension:
             model.state_dimension = r
         if (m := self.input_dimension) != model.input_dimension:
diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 1e2702a..4689508 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -466,6 +466,7 @@ class _NonparametricModel(_OpInfModel):
             model = cls(ops)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
+            model._fully_intrusive = len(indices_infer) == 0
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index f5e570a..bd82303 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1304,6 +1304,7 @@ class _InterpModel(_ParametricModel):
             model = cls(ops, InterpolatorClass=InterpolatorClass)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
+            model._fully_intrusive = len(indices_infer) == 0
             if r := int(hf["meta"].attrs["r"]):
                 model.state_dimension = r
             if (m := int(hf["meta"].attrs["m"])) and model._has_inputs:
-- 
2.43.0


From 00650637f1ddbd99f033d857abec9d44d5bb2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 29/29] fix: solver copies do not share the regularizer

---
 src/opinf/lstsq/_tikhonov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index b788357..385c70e 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -9,6 +9,7 @@ __all__ = [
 ]
 
 import abc
+import copy
 import types
 import warnings
 import numpy as np
@@ -460,7 +461,7 @@ class L2Solver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
@@ -1080,7 +1081,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            regularizer=self.regularizer,
+            regularizer=copy.deepcopy(self.regularizer),
             method=self.method,
             cond=self.options["cond"],
             lapack_driver=self.options["lapack_driver"],
-- 
2.43.0

