From cd307527d948020b59cf23afec6f566858c8c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 01/45] fix: keep the previous iterate when a callback raises
 during State.update

State.update assigned X before evaluating the callbacks and overwrote Y, J and
the constraint data one by one, so an exception raised by any callback left an
iterate whose X, Y and J described different populations.
---
 hvd/base.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6b73d43 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -150,22 +150,28 @@ class State:
     def update(
         self, X: np.ndarray, compute_gradient: bool = True, compute_hessian: bool = True
     ) -> None:
-        self.X = np.asarray(X).copy()
-        self.Y = self.evaluate(self.func, self.primal)
-        self.J = self.eval_jac(self.primal) if compute_gradient else None
-        self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
-        self.cstr_grad = self.eval_cstr_jac(self.primal)
+        # evaluate everything before committing: when a callback raises, the previous iterate stays intact
+        X = np.asarray(X).copy()
+        primal = X[:, : self.n_var]
+        Y = self.evaluate(self.func, primal)
+        J = self.eval_jac(primal) if compute_gradient else None
+        cstr_value, active_indices = self.eval_cstr(primal)
+        cstr_grad = self.eval_cstr_jac(primal)
         if compute_hessian:
-            self.cstr_hess = self.eval_cstr_hess(self.primal)
+            self.cstr_hess = self.eval_cstr_hess(primal)
+        self.X, self.Y, self.J = X, Y, J
+        self.cstr_value, self.active_indices, self.cstr_grad = cstr_value, active_indices, cstr_grad
 
     def update_one(self, x: np.ndarray, k: int) -> None:
         primal_vars = x[: self.n_var]
-        self.X[k] = x
-        self.Y[k] = self.evaluate(self.func, primal_vars)
-        self.J[k] = self.eval_jac(primal_vars)
-        self.cstr_value[k], self.active_indices[k] = self.eval_cstr(primal_vars)
-        self.cstr_grad[k] = self.eval_cstr_jac(primal_vars)
-        self.cstr_hess[k] = self.eval_cstr_hess(primal_vars)
+        y = self.evaluate(self.func, primal_vars)
+        jac = self.eval_jac(primal_vars)
+        cstr_value, active_indices = self.eval_cstr(primal_vars)
+        cstr_grad = self.eval_cstr_jac(primal_vars)
+        cstr_hess = self.eval_cstr_hess(primal_vars)
+        self.X[k], self.Y[k], self.J[k] = x, y, jac
+        self.cstr_value[k], self.active_indices[k] = cstr_value, active_indices
+        self.cstr_grad[k], self.cstr_hess[k] = cstr_grad, cstr_hess
 
     def is_feasible(self) -> np.ndarray:
         """Check whether the solutions are feasible.
-- 
2.43.0


From 91545bd76e9aba37cb271f42bb03e0dfbabdca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/45] fix: make State.save work and keep the previous
 checkpoint on failure

save() deleted the non-existing key "_jac" from the attribute dictionary, so it
always raised KeyError, after having truncated an existing checkpoint.
---
 hvd/base.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6b73d43..a72246e 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 from collections.abc import Callable
 from copy import deepcopy
@@ -284,17 +285,15 @@ class State:
         return self.cstr_value[:, self.n_eq :]
 
     def save(self, filename: str) -> None:
-        with open(filename + ".pkl", "wb") as file:
-            __dict__ = self.__dict__.copy()
-            del __dict__["func"]
-            del __dict__["_jac"]
-            del __dict__["h"]
-            del __dict__["h_jac"]
-            del __dict__["h_hess"]
-            del __dict__["g"]
-            del __dict__["g_jac"]
-            del __dict__["g_hess"]
-            pickle.dump(__dict__, file)
+        callbacks = {"func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"}
+        data = {name: value for name, value in self.__dict__.items() if name not in callbacks}
+        # write aside and rename, so that a failed save never destroys the previous checkpoint
+        temporary = filename + ".pkl.tmp"
+        with open(temporary, "wb") as file:
+            pickle.dump(data, file)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temporary, filename + ".pkl")
 
     @classmethod
     def load(cls, filename: str) -> Self:
-- 
2.43.0


From 8ef14b10ea2e44542992de6240a2ae08dbc1d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/45] fix: do not swallow KeyboardInterrupt in the solver and
 clustering fallbacks

The bare except clauses around the linear solves, the Cholesky factorizations
and the medoid reuse also caught KeyboardInterrupt and SystemExit, turning a
request to stop into the numerical fallback.
---
 hvd/mmd_newton.py    | 2 +-
 hvd/newton.py        | 2 +-
 hvd/reference_set.py | 2 +-
 hvd/utils.py         | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..50fb607 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -266,7 +266,7 @@ class MMDNewton:
             try:
                 # NOTE: use sparse matrix operations here does not save much time
                 newton_step_ = -1 * solve(DR, R_)
-            except:  # if DR is singular, then use the pseudoinverse
+            except Exception:  # if DR is singular, then use the pseudoinverse
                 newton_step_ = -1 * np.linalg.lstsq(DR, R_, rcond=None)[0]
         # convert the vector-format of the newton step to matrix format
         newton_step = Nd_vector_to_matrix(newton_step_.ravel(), self.N, self.dim, self.dim_p, active_indices)
diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..02c796a 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -256,7 +256,7 @@ class HVN:
             warnings.filterwarnings("error")
             try:
                 newton_step_ = -1 * spsolve(csc_matrix(DR), csc_matrix(R_vec))
-            except:  # if DR is singular, then use the pseudoinverse
+            except Exception:  # if DR is singular, then use the pseudoinverse
                 newton_step_ = -1 * np.linalg.lstsq(DR, R_vec, rcond=None)[0].ravel()
         # convert the vector-format of the newton step to matrix format
         newton_step = Nd_vector_to_matrix(newton_step_.ravel(), state.N, self.dim, self.dim_p, idx)
diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..2192b68 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -65,7 +65,7 @@ class ReferenceSet:
             try:
                 medoids = self._medoids[k]
                 assert len(medoids) == len(Y_)
-            except:
+            except Exception:
                 medoids = self._cluster(component=self._ref[k], k=len(Y_))
             medoids = self._match(medoids, Y_)
             self._medoids[k] = medoids
diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..e300b72 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -110,7 +110,7 @@ def precondition_hessian(H: np.ndarray) -> np.ndarray:
     # pre-condition the Hessian
     try:
         L = cholesky(H, lower=True)
-    except:
+    except Exception:
         beta = 1e-6
         v = np.min(np.diag(H))
         tau = 0 if v > 0 else -v + beta
@@ -119,7 +119,7 @@ def precondition_hessian(H: np.ndarray) -> np.ndarray:
             try:
                 L = cholesky(H + tau * I, lower=True)
                 break
-            except:
+            except Exception:
                 tau = max(2 * tau, beta)
         else:
             print("Pre-conditioning the HV Hessian failed")
-- 
2.43.0


From d01f9c3ad3b7030987f54412d0133db6066c8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 04/45] fix: let SMSEMOA split a front with three or more
 objectives

The Monte Carlo hypervolume helpers are NumPy code with data-dependent shapes
and in-place updates; under jax.jit they raise TypeError on their first call.
---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..7a5db29 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 1c28c7a73f926fdc916e1c2027b424ccd2b05feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 05/45] fix: drop the cached automatic derivatives when the
 reference point changes

compute_automatic_differentiation kept using the derivatives built for the
first reference point after ref was reassigned.
---
 hvd/hypervolume_derivatives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..f9e58e0 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -78,9 +78,6 @@ class HypervolumeDerivatives:
         self.hessian = hessian if minimization else lambda x: -1 * hessian(x)
         self.minimization = minimization
         self.ref = ref
-        # compute those when needed for the first time
-        self._HV_Jac: callable = None
-        self._HV_Hessian: callable = None
 
     @property
     def ref(self):
@@ -91,6 +88,9 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # these depend on `ref`; compute those when needed for the first time
+        self._HV_Jac: callable = None
+        self._HV_Hessian: callable = None
 
     @property
     def objective_points(self):
-- 
2.43.0


From 68fbd615c69cca55805974d21217ca1e3de17556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:01 +0000
Subject: [PATCH 06/45] fix: do not deep-copy the user's callbacks along with
 the State

The line searches and State.__getitem__ deep-copy the State and, through bound
methods, the problem object itself: each trial point was evaluated on a throwaway
copy of the problem, which lost its counters (e.g., CPU_time) and failed with
TypeError for problems holding a lock, a file or a connection.
---
 hvd/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index a72246e..b639ae0 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -11,6 +11,8 @@ ArrayFunction = Callable[[np.ndarray], np.ndarray]
 
 
 class State:
+    _callbacks = frozenset(("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"))
+
     def __init__(
         self,
         n_var: int,
@@ -285,8 +287,7 @@ class State:
         return self.cstr_value[:, self.n_eq :]
 
     def save(self, filename: str) -> None:
-        callbacks = {"func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"}
-        data = {name: value for name, value in self.__dict__.items() if name not in callbacks}
+        data = {name: value for name, value in self.__dict__.items() if name not in self._callbacks}
         # write aside and rename, so that a failed save never destroys the previous checkpoint
         temporary = filename + ".pkl.tmp"
         with open(temporary, "wb") as file:
@@ -303,6 +304,14 @@ class State:
             obj.__dict__.update(data)
             return obj
 
+    def __deepcopy__(self, memo: dict) -> Self:
+        # the callbacks belong to the user and are shared among the copies
+        obj = self.__class__.__new__(self.__class__)
+        memo[id(self)] = obj
+        for name, value in self.__dict__.items():
+            obj.__dict__[name] = value if name in self._callbacks else deepcopy(value, memo)
+        return obj
+
     def __getitem__(self, indices: np.ndarray) -> Self:
         """Slicing the state class
 
-- 
2.43.0


From 96b8ce25cfd50faf0753cd02ca376e7b0a60749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 07/45] fix: leave the reference set untouched when a Newton
 iteration is interrupted

DpN and MMDNewton shift the reference set before evaluating the line search.
When a callback raised there (or the user pressed Ctrl-C), repeating the
iteration shifted the targets a second time, and decided which targets to shift
from the step of the failed iteration.
---
 hvd/mmd_newton.py |  7 ++++++-
 hvd/newton.py     |  6 ++++++
 hvd/utils.py      | 26 +++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 50fb607..d940a34 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -11,7 +11,7 @@ from scipy.spatial.distance import cdist
 from .base import State
 from .mmd import MMD, MMDMatching
 from .reference_set import ReferenceSet
-from .utils import get_logger, precondition_hessian, set_bounds
+from .utils import get_logger, precondition_hessian, restore_on_failure, set_bounds
 
 
 def Nd_vector_to_matrix(
@@ -181,6 +181,11 @@ class MMDNewton:
         return self.state.primal, self.state.Y, self.stop_dict
 
     def newton_iteration(self):
+        # an iteration either completes or leaves no trace, e.g., it does not shift the reference set twice
+        with restore_on_failure(self):
+            self._newton_iteration()
+
+    def _newton_iteration(self):
         # compute the initial indicator values. The first clustering and matching is executed here.
         self._compute_indicator_value(self.state.Y)
         # shift the reference set if needed
diff --git a/hvd/newton.py b/hvd/newton.py
index 02c796a..318d34b 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -21,6 +21,7 @@ from .utils import (
     matrix_to_Nd_vector,
     non_domin_sort,
     precondition_hessian,
+    restore_on_failure,
     set_bounds,
 )
 
@@ -492,6 +493,11 @@ class DpN:
         return self.state.primal, self.state.Y, self.stop_dict
 
     def newton_iteration(self):
+        # an iteration either completes or leaves no trace, e.g., it does not shift the reference set twice
+        with restore_on_failure(self):
+            self._newton_iteration()
+
+    def _newton_iteration(self):
         # compute the initial indicator values. The first clustering and matching is executed here.
         self._compute_indicator_value(self.state.Y)
         # shift the reference set if needed
diff --git a/hvd/utils.py b/hvd/utils.py
index e300b72..194189f 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -5,7 +5,9 @@ import statistics
 import sys
 import time
 from collections import defaultdict
-from typing import Any, Callable, Dict, Iterable, List, Sequence, Tuple, Union
+from contextlib import contextmanager
+from copy import deepcopy
+from typing import Any, Callable, Dict, Iterable, Iterator, List, Sequence, Tuple, Union
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -246,6 +248,28 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     return pareto_indices if return_index else pareto_front
 
 
+@contextmanager
+def restore_on_failure(optimizer: Any) -> Iterator[None]:
+    """Undo the changes an iteration made to the reference set, its history, and the quantities carried over
+    to the next iteration when the body does not complete, such that the iteration can be repeated.
+    """
+    names = ("step", "step_size", "R", "GD_value", "IGD_value", "curr_indicator_value")
+    carried = {name: vars(optimizer)[name] for name in names if name in vars(optimizer)}
+    ref = deepcopy(vars(optimizer.ref))
+    history_medoids = {k: list(v) for k, v in optimizer.history_medoids.items()}
+    try:
+        yield
+    except BaseException:
+        for name in names:
+            vars(optimizer).pop(name, None)
+        vars(optimizer).update(carried)
+        vars(optimizer.ref).clear()
+        vars(optimizer.ref).update(ref)
+        optimizer.history_medoids.clear()
+        optimizer.history_medoids.update(history_medoids)
+        raise
+
+
 def set_bounds(bound, dim):
     if isinstance(bound, str):
         bound = eval(bound)
-- 
2.43.0


From cb64a9737b3fd766d31fb1226ac1cc13bb44a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 08/45] fix: count the Jacobian evaluations of the HVN and
 MMDNewton line searches

Both line searches evaluated the trial points on a copy of the state and dropped
its counter, such that n_jac_evals (reported as Jac_calls by the benchmarks and
used there as the budget of the competitors) was too low.
---
 hvd/mmd_newton.py | 5 ++++-
 hvd/newton.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index d940a34..5547a6c 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -305,7 +305,10 @@ class MMDNewton:
 
         def phi_func(alpha):
             state_ = deepcopy(self.state)
-            state_.update(state_.X + alpha * step)
+            try:
+                state_.update(state_.X + alpha * step)
+            finally:
+                self.state.n_jac_evals = state_.n_jac_evals
             self.indicator.re_match = False
             R_ = self._compute_R(state_)[0]
             self.indicator.re_match = True
diff --git a/hvd/newton.py b/hvd/newton.py
index 318d34b..c146076 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -279,7 +279,10 @@ class HVN:
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
             state_ = deepcopy(state)
-            state_.update(state.X + alpha * step)
+            try:
+                state_.update(state.X + alpha * step)
+            finally:
+                self.state.n_jac_evals += state_.n_jac_evals - state.n_jac_evals
             R = self._compute_R(state_)[0]
             return np.linalg.norm(R)
 
-- 
2.43.0


From f290bac5c377521dcb60fdd7ac6585fc4141db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 09/45] fix: let HVN limit the step size of a zero Newton step

With limit_max_step_size, an iteration raised ValueError (minimum of an empty
array) as soon as all points of a dominance layer had a zero step.
---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index c146076..34cede4 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -274,7 +274,7 @@ class HVN:
         normal_vectors = np.c_[np.eye(dim * N), -1 * np.eye(dim * N)]
         dist = np.r_[np.abs(X.ravel() - np.tile(self.xl, N)), np.abs(np.tile(self.xu, N) - X.ravel())]
         v = step.ravel() @ normal_vectors
-        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0])))
+        return min(1, 0.25 * np.min(dist[v < 0] / np.abs(v[v < 0]), initial=np.inf))
 
     def _get_phi_func(self, state: State, step: np.ndarray) -> callable:
         def phi_func(alpha: float) -> float:
-- 
2.43.0


From 8c991fe929be1e923f64e7f223cdf2d0c9a9efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 10/45] fix: return the current reference set when no bootstrap
 took place

bootstrap_reference_set raised UnboundLocalError at its return statement when
max_iters <= interval.
---
 hvd/bootstrap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..0afaf63 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,7 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    ref: ReferenceSet = optimizer.ref
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From a417351eaa94552b4e246eac5b6bf10512acbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 11/45] fix: use double precision also when JAX was imported
 before hvd

The environment variable is only read when JAX is first imported; importing JAX
before hvd silently evaluated all problems and their derivatives in float32.
---
 hvd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hvd/__init__.py b/hvd/__init__.py
index 1c46177..8112aef 100644
--- a/hvd/__init__.py
+++ b/hvd/__init__.py
@@ -1,8 +1,11 @@
 import os
+import sys
 
 # JAX reads this setting during its first import.  Keep it before every local
 # import so direct imports such as ``hvd.mmd`` and ``hvd.problems`` agree.
 os.environ["JAX_ENABLE_X64"] = "True"
+if "jax" in sys.modules:  # JAX was imported before this package: the variable comes too late
+    sys.modules["jax"].config.update("jax_enable_x64", True)
 
 from .delta_p import GenerationalDistance, InvertedGenerationalDistance
 from .hypervolume_derivatives import HypervolumeDerivatives
-- 
2.43.0


From 6d14887084e14fe9417587da1b72fc6b98c7050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 12/45] fix: attach the console handler to a logger that
 already has a file handler

FileHandler is a subclass of StreamHandler, so get_logger(console=True) took an
existing log file for the console and left the console silent.
---
 hvd/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 194189f..b38ce3d 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -187,7 +187,12 @@ def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool
 
     fmt = LoggerFormatter()
     # create console handler and set level to the vebosity
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    SH = list(
+        filter(
+            lambda h: isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler),
+            logger.handlers,
+        )
+    )
     if len(SH) == 0 and console:  # if console handler is not registered yet
         sh = logging.StreamHandler(sys.stdout)
         sh.setLevel(logging.INFO)
-- 
2.43.0


From 610af133da3ae737cd425deb45c64863301de1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 13/45] fix: load EMOA archives with missing reference or
 direction files

read_reference_set_data raised TypeError when the shift direction of the first of
several clusters was missing, numbered the components with holes when a reference
file was missing (ReferenceSet then fails with KeyError), skipped components it
could not read because of I/O errors, and kept a single point instead of
len(ref[0]) points when merging the components.
---
 scripts/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 57d2c67..25f0cf9 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -55,17 +55,20 @@ def read_reference_set_data(
                 ref_file = f"{path}/{problem_name}_{emoa}_run_{run}_ref_{i+1}_gen{gen}.csv"
             try:
                 r = pd.read_csv(ref_file, header=None).values
-            except:
+            except FileNotFoundError:
                 continue
         # downsample the reference; otherwise, initial clustering take too long
-        ref[i] = np.array(random.sample(r.tolist(), 3000)) if len(r) >= 3000 else r
+        k = len(ref)  # the components are numbered consecutively even if some of them are missing
+        ref[k] = np.array(random.sample(r.tolist(), 3000)) if len(r) >= 3000 else r
+        if eta is None:  # the shift direction of the first cluster is missing
+            continue
         try:
-            eta[i] = pd.read_csv(
+            eta[k] = pd.read_csv(
                 f"{path}/{problem_name}_{emoa}_run_{run}_eta_{i+1}_gen{gen}.csv", header=None
             ).values.ravel()
-        except:
-            if i > 0 and eta[i - 1] is not None:  # copy the shift direction from the last cluster
-                eta[i] = eta[i - 1]
+        except (FileNotFoundError, pd.errors.EmptyDataError):
+            if k > 0:  # copy the shift direction from the last cluster
+                eta[k] = eta[k - 1]
             else:
                 eta = None
 
@@ -100,7 +103,7 @@ def read_reference_set_data(
         eta = None
         # ensure the number of approximation points is less than the number of reference points
         if len(ref[0]) < len(y0):
-            n = len(ref)
+            n = len(ref[0])
             x0 = x0[:n]
             y0 = y0[:n]
             Y_label = Y_label[:n]
-- 
2.43.0


From b530d41c59c3979d8a700609aefed25e77ea7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 14/45] fix: match the clusters of Y to the right components
 when there are fewer of them

With fewer clusters than components of the reference set, the assignment returned
by linear_sum_assignment was read as if it used the first components, so clusters
were matched to unrelated components. When no cluster labels were given and a
component attracted no point, match raised ValueError.
---
 hvd/reference_set.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 2192b68..11f5a0a 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -59,7 +59,7 @@ class ReferenceSet:
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -127,22 +127,22 @@ class ReferenceSet:
             if self.Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in range(self.n_components)]
+                self.Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
             # parition `Y` according to `Y_idx`
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[Tuple[int, int]]:
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            idx = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
+            # NOTE: when `n > m`, some components of the reference set are not matched
+            idx = list(zip(*linear_sum_assignment(cost)))
         return idx
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
-- 
2.43.0


From 543083cede8e70a5c56f643be0195e7b48dd8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 15/45] fix: do not shift the caller's dictionary of reference
 components

ReferenceSet.shift, called before match, replaced the arrays in the dictionary
passed by the caller, and thus in every other ReferenceSet created from it.
---
 hvd/reference_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 11f5a0a..b6041c5 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -25,8 +25,9 @@ class ReferenceSet:
             Y_idx (Optional[np.ndarray], optional): indices to indicate the cluster of approximation set.
                 Defaults to None.
         """
-        self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
-        assert isinstance(self._ref, dict)
+        assert isinstance(ref, (np.ndarray, dict))
+        # NOTE: copy the dictionary since `shift` replaces its values
+        self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else dict(ref)
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From 60b714e51a2708f55b1b65f9b87ac4327e770328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 16/45] fix: do not let concurrent optimizers turn each other's
 warnings into errors

The Newton solves changed the process-wide warning filters with catch_warnings,
which is not thread-safe: an optimizer running in another thread failed on its
harmless RuntimeWarning, and overlapping solves left the "error" filter installed
for the rest of the process.
---
 hvd/mmd_newton.py |  6 ++----
 hvd/newton.py     |  8 +++-----
 hvd/utils.py      | 21 ++++++++++++++++++++-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 5547a6c..ee61c1c 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -1,5 +1,4 @@
 import logging
-import warnings
 from collections import defaultdict
 from copy import deepcopy
 from typing import Callable, Dict, List, Tuple, Union
@@ -11,7 +10,7 @@ from scipy.spatial.distance import cdist
 from .base import State
 from .mmd import MMD, MMDMatching
 from .reference_set import ReferenceSet
-from .utils import get_logger, precondition_hessian, restore_on_failure, set_bounds
+from .utils import get_logger, precondition_hessian, restore_on_failure, set_bounds, singularity_as_error
 
 
 def Nd_vector_to_matrix(
@@ -266,8 +265,7 @@ class MMDNewton:
         # vectorize R
         idx = active_indices[:, self.dim_p :]
         R_ = np.r_[R[:, : self.dim_p].reshape(-1, 1), R[:, self.dim_p :][idx].reshape(-1, 1)]
-        with warnings.catch_warnings():
-            warnings.filterwarnings("error")
+        with singularity_as_error():
             try:
                 # NOTE: use sparse matrix operations here does not save much time
                 newton_step_ = -1 * solve(DR, R_)
diff --git a/hvd/newton.py b/hvd/newton.py
index 34cede4..11ac625 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -1,5 +1,4 @@
 import logging
-import warnings
 from collections import defaultdict
 from copy import deepcopy
 from typing import Callable, Dict, List, Tuple, Union
@@ -23,6 +22,7 @@ from .utils import (
     precondition_hessian,
     restore_on_failure,
     set_bounds,
+    singularity_as_error,
 )
 
 np.seterr(divide="ignore", invalid="ignore")
@@ -253,8 +253,7 @@ class HVN:
             DR = np.r_[np.c_[DR + M, H.T], np.c_[H, Z]]
         # the vector-format of R
         R_vec = matrix_to_Nd_vector(R, self.dim_p, idx)
-        with warnings.catch_warnings():
-            warnings.filterwarnings("error")
+        with singularity_as_error():
             try:
                 newton_step_ = -1 * spsolve(csc_matrix(DR), csc_matrix(R_vec))
             except Exception:  # if DR is singular, then use the pseudoinverse
@@ -588,8 +587,7 @@ class DpN:
             # derivative of the root-finding problem
             DR = np.r_[np.c_[Hessian[r] + S[r], dh.T], np.c_[dh, Z]] if self._constrained else Hessian[r]
             R[r, c] = R_list[r]
-            with warnings.catch_warnings():
-                warnings.filterwarnings("error")
+            with singularity_as_error():
                 try:
                     newton_step[r, c] = -1 * solve(DR, R_list[r].reshape(-1, 1)).ravel()
                 except Exception:
diff --git a/hvd/utils.py b/hvd/utils.py
index b38ce3d..3e9eac3 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -3,7 +3,9 @@ import functools
 import logging
 import statistics
 import sys
+import threading
 import time
+import warnings
 from collections import defaultdict
 from contextlib import contextmanager
 from copy import deepcopy
@@ -12,7 +14,8 @@ from typing import Any, Callable, Dict, Iterable, Iterator, List, Sequence, Tupl
 import matplotlib.pyplot as plt
 import numpy as np
 from matplotlib import rcParams
-from scipy.linalg import cholesky, qr
+from scipy.linalg import LinAlgWarning, cholesky, qr
+from scipy.sparse.linalg import MatrixRankWarning
 from sklearn.neighbors import LocalOutlierFactor
 
 plt.style.use("ggplot")
@@ -275,6 +278,22 @@ def restore_on_failure(optimizer: Any) -> Iterator[None]:
         raise
 
 
+_warning_filters_lock = threading.RLock()
+
+
+@contextmanager
+def singularity_as_error() -> Iterator[None]:
+    """Raise the warnings of the linear solvers about singular matrices as errors.
+
+    The warning filters are shared by all threads: only one thread at a time may change them, and only
+    for those warnings that the other threads do not issue in the meantime.
+    """
+    with _warning_filters_lock, warnings.catch_warnings():
+        warnings.filterwarnings("error", category=LinAlgWarning)
+        warnings.filterwarnings("error", category=MatrixRankWarning)
+        yield
+
+
 def set_bounds(bound, dim):
     if isinstance(bound, str):
         bound = eval(bound)
-- 
2.43.0


From c9014715c4f5284bcec0d328b507456a82d2aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 17/45] fix: project the Newton step onto all box boundaries a
 point lies on

Only one boundary was taken into account, and the wrong one if the step pointed
into the box at another boundary (argmin picks the nan of 0 / 0): the step size
remained zero and the point was stuck.
---
 hvd/mmd_newton.py | 6 +++---
 hvd/newton.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index ee61c1c..21f50b5 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -398,9 +398,9 @@ class MMDNewton:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
-            proj_axis = normal_vectors[:, proj_dim]
-            step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
+            # a point can lie on several boundaries: project onto all those the step would cross
+            blocked = (s[idx, : self.dim_p] == 0) | (s[idx, self.dim_p :] == 0)
+            step_primal[idx] = np.where(blocked, 0, step_primal[idx])
             step[:, : self.dim_p] = step_primal
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
diff --git a/hvd/newton.py b/hvd/newton.py
index 11ac625..6fb21f0 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -686,9 +686,9 @@ class DpN:
         # project Newton's direction onto the box boundary
         idx = max_step_size == 0
         if np.any(idx) > 0:
-            proj_dim = [np.argmin(_) for _ in s[idx]]
-            proj_axis = normal_vectors[:, proj_dim]
-            step_primal[idx] -= (np.einsum("ij,ji->i", step_primal[idx], proj_axis) * proj_axis).T
+            # a point can lie on several boundaries: project onto all those the step would cross
+            blocked = (s[idx, : self.dim_p] == 0) | (s[idx, self.dim_p :] == 0)
+            step_primal[idx] = np.where(blocked, 0, step_primal[idx])
             step[:, : self.dim_p] = step_primal
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
-- 
2.43.0


From 8ba5c2a471a2bcec5bbb75698d41ab15e3992016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 18/45] fix: keep a copy of what batch callbacks return in the
 State

---
 hvd/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index b639ae0..400ff9c 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -106,7 +106,8 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x))
+        # NOTE: copy since batch callbacks may return a read-only array or reuse their buffer in the next call
+        values = np.array(evaluator(x))
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From c0dc33600c27119557cacc32c581c7474a69d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 19/45] fix: let points leave a boundary they reached up to
 rounding errors

After a step onto a box boundary a point can lie a rounding error off it. The distance, being positive,
then limited the step size of the whole point to about machine precision, again in every iteration.
---
 hvd/newton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/newton.py b/hvd/newton.py
index 6fb21f0..0707d2c 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -680,6 +680,8 @@ class DpN:
             np.abs(primal_vars - self.xl),
             np.abs(self.xu - primal_vars),
         ]
+        # a point within rounding errors of a boundary is on it: otherwise it would not move anymore
+        dist[dist < 1e-10] = 0
         v = step_primal @ normal_vectors
         s = np.array([dist[i] / np.abs(np.minimum(0, vv)) for i, vv in enumerate(v)])
         max_step_size = np.array([min(1.0, np.nanmin(_)) for _ in s])
-- 
2.43.0


From 210a9b57d8f4f7fe06bba3991ae49ec079dbfb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 20/45] fix: keep the step sizes of projected Newton steps
 real-valued

When a step was projected onto the box boundary and all points could take a full step, the step sizes
were integers, so that a step shortened by the line search became a zero step.
---
 hvd/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/newton.py b/hvd/newton.py
index 0707d2c..a2b68eb 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -695,5 +695,5 @@ class DpN:
             # re-calculate the `max_step_size` for projected directions
             v = step[:, : self.dim_p] @ normal_vectors
             s = np.array([dist[i] / np.abs(np.minimum(0, vv)) for i, vv in enumerate(v)])
-            max_step_size = np.array([min(1, np.nanmin(_)) for _ in s])
+            max_step_size = np.array([min(1.0, np.nanmin(_)) for _ in s])
         return step, max_step_size
-- 
2.43.0


From 882bac07b5b7beaf387d204d908442525862324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 21/45] fix: make sure that a saved checkpoint is still there
 after a crash

The renamed file is only durable once the directory has been written.
---
 hvd/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hvd/base.py b/hvd/base.py
index 400ff9c..9494c8b 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -296,6 +296,12 @@ class State:
             file.flush()
             os.fsync(file.fileno())
         os.replace(temporary, filename + ".pkl")
+        if os.name == "posix":  # the renaming has to reach the disk, too
+            directory = os.open(os.path.dirname(temporary) or ".", os.O_RDONLY)
+            try:
+                os.fsync(directory)
+            finally:
+                os.close(directory)
 
     @classmethod
     def load(cls, filename: str) -> Self:
-- 
2.43.0


From 7c8bb10e1adb7e639d704fe4bba01087cb81e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 22/45] fix: keep the previous matching of a reference set when
 a new one fails

A failure in the clustering or assignment left the positions of the medoids empty, their order changed, or
the partition of points that were never matched behind.
---
 hvd/reference_set.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index b6041c5..0309bc4 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -54,12 +54,14 @@ class ReferenceSet:
         if not self.re_match and hasattr(self, "_matched_medoids"):
             return
 
-        Y = self._partition_Y(Y)
+        # everything is stored at the end: when the matching fails, the previous one stays intact
+        Y, Y_idx = self._partition_Y(Y)
         N = sum([len(y) for y in Y])
         # match the components of the reference set and `Y`
         idx = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
-        self._medoids_idx = np.empty(N, dtype=object)
+        medoids_idx = np.empty(N, dtype=object)
+        all_medoids = dict(self._medoids)
         for k, v in idx:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
@@ -69,10 +71,11 @@ class ReferenceSet:
             except Exception:
                 medoids = self._cluster(component=self._ref[k], k=len(Y_))
             medoids = self._match(medoids, Y_)
-            self._medoids[k] = medoids
-            out[self.Y_idx[v]] = medoids
-            for i, j in enumerate(self.Y_idx[v]):
-                self._medoids_idx[j] = (k, i)
+            all_medoids[k] = medoids
+            out[Y_idx[v]] = medoids
+            for i, j in enumerate(Y_idx[v]):
+                medoids_idx[j] = (k, i)
+        self.Y_idx, self._medoids, self._medoids_idx = Y_idx, all_medoids, medoids_idx
         self._matched_medoids = out
 
         if self.plot:
@@ -105,7 +108,7 @@ class ReferenceSet:
         c, idx = self._medoids_idx[k]
         self._medoids[c][idx] = medoid
 
-    def _partition_Y(self, Y: np.ndarray) -> List[np.ndarray]:
+    def _partition_Y(self, Y: np.ndarray) -> Tuple[List[np.ndarray], List[np.ndarray]]:
         """partition the approximation set `Y`. We consider the following scenarios:
         - If the reference set is not clustered, then `Y` should not be partitioned.
            In this case, `self.Y_idx` is ignored.
@@ -117,21 +120,22 @@ class ReferenceSet:
             Y (np.ndarray): the approximation set of shape (N, `self.dim`)
 
         Returns:
-            List[np.ndarray]: a list of partitions of `Y`
+            Tuple[List[np.ndarray], List[np.ndarray]]: a list of partitions of `Y` and their indices
         """
+        Y_idx = self.Y_idx
         if self.n_components == 1:
-            self.Y_idx = [list(range(len(Y)))]
+            Y_idx = [list(range(len(Y)))]
             Y_partitions = [Y]
         else:
             # if the clustering/partition of `Y` is not given, we partition `Y` in the way that
             # each point is assigned to the closest cluster of the reference set
-            if self.Y_idx is None:
+            if Y_idx is None:
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
-                self.Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
+                Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
             # parition `Y` according to `Y_idx`
-            Y_partitions = [Y[idx] for idx in self.Y_idx]
-        return Y_partitions
+            Y_partitions = [Y[idx] for idx in Y_idx]
+        return Y_partitions, Y_idx
 
     def _match_components(self, Y: Dict[int, np.ndarray]) -> List[Tuple[int, int]]:
         n, m = self.n_components, len(Y)
-- 
2.43.0


From b2d3b741a9a121e6079249f4f96a364f925f1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 23/45] fix: partition the points anew when their number
 changes

The partition of the first population was applied to later ones of another size.
---
 hvd/reference_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index 0309bc4..a31cdf2 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -129,7 +129,7 @@ class ReferenceSet:
         else:
             # if the clustering/partition of `Y` is not given, we partition `Y` in the way that
             # each point is assigned to the closest cluster of the reference set
-            if Y_idx is None:
+            if Y_idx is None or sum(map(len, Y_idx)) != len(Y):  # not for this number of points
                 D = np.array([cdist(self._ref[i], Y).min(axis=0) for i in range(self.n_components)])
                 labels = np.argmin(D, axis=0)
                 Y_idx = [np.nonzero(labels == i)[0] for i in np.unique(labels)]
-- 
2.43.0


From 004b79e35b4b8ab48cf57a8121bc0319c4034386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 24/45] fix: IGD counts the points of its current reference set

---
 hvd/delta_p.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..0564c1f 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -138,13 +138,17 @@ class InvertedGenerationalDistance:
         self.func = func
         self.jac = jac
         self.hess = hess
-        self.M = self.ref.N
         self.matching = matching
         self.re_match = True
 
     def __str__(self) -> str:
         return "IGD (w/matching)" if self.matching else "IGD"
 
+    @property
+    def M(self) -> int:
+        # the reference set might be replaced or matched after the creation of this object
+        return self.ref.N
+
     def _compute_indices(self, Y: np.ndarray):
         """find for each reference point, the index of its closest point in the approximation set
 
-- 
2.43.0


From fe65abb9e9de4fc8b7dfbebeda431abffd88dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 25/45] fix: Hessian of the generational distance for p other
 than 2

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index 0564c1f..61bb242 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0


From dd68c40a51e5e4e224643c207a27ddb3659bf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 26/45] fix: derivatives of the matching MMD follow a changed
 beta

---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From ef9141a664ae89fbbc8e020f3eee4345833330fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 27/45] fix: hypervolume of given objective values under
 maximisation

---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index f9e58e0..faeed8a 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:
+            Y = -1 * Y
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:
+            Y = -1 * Y
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        elif not self.minimization:
+            YdX = -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From 772af6f1c4b3a5925fd9c1f3c6759e3f6a07dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 28/45] fix: let SMSEMOA stop when no new offspring can be
 created

---
 hvd/moea/sms_emoa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index 7a5db29..3094419 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -244,6 +244,8 @@ class SMSEMOA(GeneticAlgorithm):
             F = self.pop.get("F")
             ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
 
+        pop = self.pop
+
         # merge the offsprings with the current population
         if infills is not None:
             pop = Population.merge(self.pop, infills)
-- 
2.43.0


From a428cd5c25342c8df091a975de2a338bc3431ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 29/45] fix: bootstrapping with an indicator that has no spread
 term

---
 hvd/bootstrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index 0afaf63..c0d1112 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -180,7 +180,8 @@ def bootstrap_reference_set(
             optimizer.indicator.ref = optimizer.ref = ref
             optimizer.indicator.compute(Y=optimizer.state.Y)
             # discount the weight of the spread term to reduce spread effect in the following iterations
-            optimizer.indicator.beta = optimizer.indicator.beta * 0.8
+            if hasattr(optimizer.indicator, "beta"):  # only the matching indicator has the spread term
+                optimizer.indicator.beta = optimizer.indicator.beta * 0.8
 
         # the next iteration
         optimizer.newton_iteration()
-- 
2.43.0


From bc416de77aefec1ca05cb4d9fe3f542787a90ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:01 +0000
Subject: [PATCH 30/45] fix: bootstrapping when few points survive the outlier
 filter

---
 hvd/bootstrap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index c0d1112..002bc8e 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -75,8 +75,9 @@ def filter_outliers(data: List) -> np.ndarray:
     X, Y = data[0], data[1]
     idx = get_non_dominated(Y, return_index=True)
     X, Y = X[idx], Y[idx]
-    idx = LocalOutlierFactor(n_neighbors=3).fit_predict(Y)
-    X, Y = X[idx == 1], Y[idx == 1]
+    if len(Y) > 1:  # a single point has no neighbors to compare with
+        idx = LocalOutlierFactor(n_neighbors=3).fit_predict(Y)
+        X, Y = X[idx == 1], Y[idx == 1]
     if 11 < 2:
         idx = np.isclose(Y.sum(axis=1), 0.5, atol=1e-1)
         X, Y = X[idx == 1], Y[idx == 1]
@@ -192,7 +193,9 @@ def bootstrap_reference_set(
     X_, Y_ = list(zip(*filtered))
     X_ = np.concatenate(X_, axis=0)
     Y_ = np.concatenate(Y_, axis=0)
-    km = KMedoids(n_clusters=N, method="alternate", random_state=42, init="k-medoids++").fit(Y_)
+    # filtering may leave fewer than N points
+    n_clusters = min(N, len(Y_))
+    km = KMedoids(n_clusters=n_clusters, method="alternate", random_state=42, init="k-medoids++").fit(Y_)
     X0_bootstrap = X_[km.medoid_indices_]
     Y0_bootstrap = Y_[km.medoid_indices_]
     return X0_bootstrap, Y0_bootstrap, ref, ref_list
-- 
2.43.0


From ba278677c2fe294a92a1de688ae2cf1083d636bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 31/45] fix: get_non_dominated dropped all copies of a repeated
 point

---
 hvd/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 3e9eac3..72e02f8 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -239,8 +239,10 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     pareto_indices = []
     for idx, p in enumerate(pareto_front):
         if weakly_dominated:
+            # equal points do not dominate each other: the first of them is kept
+            after = pareto_front[idx + 1 :]
             cond = np.all(np.any(pareto_front[:idx] > p, axis=1)) and np.all(
-                np.any(pareto_front[idx + 1 :] > p, axis=1)
+                np.any(after > p, axis=1) | np.all(after == p, axis=1)
             )
         else:
             cond = np.all(
-- 
2.43.0


From 1546419c52303c8201ae79c89cf9dedd53819765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 32/45] fix: RSG of components that consist of repeated points

---
 hvd/rsg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..ac97372 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -94,7 +94,9 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
 
         for i in range(num_cluesters):
 
-            Nf_interpolate_tst = int(_matlab_round(Nf * comp_length[0, i] / total_length))
+            # components of repeated points only have no length: they share the points equally
+            share = comp_length[0, i] / total_length if total_length > 0 else 1 / num_cluesters
+            Nf_interpolate_tst = int(_matlab_round(Nf * share))
             interpolate_tst_I = interpolate_tst(C[i], Nf_interpolate_tst)
             I.append(interpolate_tst_I)
 
-- 
2.43.0


From ac0d07f8fc5236c3de6ec17d871d8eae3183c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 33/45] fix: corrupt or inconsistent archive files are errors

---
 scripts/utils.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/scripts/utils.py b/scripts/utils.py
index 25f0cf9..ab0fcaa 100644
--- a/scripts/utils.py
+++ b/scripts/utils.py
@@ -20,6 +20,14 @@ rcParams["ytick.major.size"] = 7
 rcParams["ytick.major.width"] = 1
 
 
+def _read_csv(file: str, allow_nan: bool = False) -> np.ndarray:
+    """read a table of numbers; incomplete rows or entries other than numbers are errors"""
+    data = pd.read_csv(file, header=None).values
+    if data.dtype.kind not in "iuf" or not (allow_nan or np.all(np.isfinite(data))):
+        raise ValueError(f"{file} is incomplete or contains entries that are not numbers")
+    return data
+
+
 def read_reference_set_data(
     path: str, problem_name: str, emoa: str, run: int, gen: int
 ) -> Tuple[Dict[int, np.ndarray], np.ndarray, np.ndarray, np.ndarray, Dict[int, np.ndarray]]:
@@ -35,9 +43,7 @@ def read_reference_set_data(
     Returns:
         Tuple[Dict[int, np.ndarray], np.ndarray, np.ndarray, np.ndarray, Dict[int, np.ndarray]]: _description_
     """
-    ref_label = pd.read_csv(
-        f"{path}/{problem_name}_{emoa}_run_{run}_component_id_gen{gen}.csv", header=None
-    ).values[0]
+    ref_label = _read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_component_id_gen{gen}.csv")[0]
     n_cluster = len(np.unique(ref_label))
     ref = dict()
     eta = dict()
@@ -54,7 +60,7 @@ def read_reference_set_data(
             else:
                 ref_file = f"{path}/{problem_name}_{emoa}_run_{run}_ref_{i+1}_gen{gen}.csv"
             try:
-                r = pd.read_csv(ref_file, header=None).values
+                r = _read_csv(ref_file)
             except FileNotFoundError:
                 continue
         # downsample the reference; otherwise, initial clustering take too long
@@ -63,9 +69,9 @@ def read_reference_set_data(
         if eta is None:  # the shift direction of the first cluster is missing
             continue
         try:
-            eta[k] = pd.read_csv(
-                f"{path}/{problem_name}_{emoa}_run_{run}_eta_{i+1}_gen{gen}.csv", header=None
-            ).values.ravel()
+            eta[k] = _read_csv(
+                f"{path}/{problem_name}_{emoa}_run_{run}_eta_{i+1}_gen{gen}.csv", allow_nan=True
+            ).ravel()
         except (FileNotFoundError, pd.errors.EmptyDataError):
             if k > 0:  # copy the shift direction from the last cluster
                 eta[k] = eta[k - 1]
@@ -77,11 +83,12 @@ def read_reference_set_data(
         eta = None
 
     # the load the final population from an EMOA
-    x0 = pd.read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_x_gen{gen}.csv", header=None).values
-    y0 = pd.read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_y_gen{gen}.csv", header=None).values
-    Y_label = pd.read_csv(
-        f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_labels_gen{gen}.csv", header=None
-    ).values.ravel()
+    x0 = _read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_x_gen{gen}.csv")
+    y0 = _read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_y_gen{gen}.csv")
+    Y_label = _read_csv(f"{path}/{problem_name}_{emoa}_run_{run}_lastpopu_labels_gen{gen}.csv").ravel()
+    directions = [] if eta is None else list(eta.values())
+    if any(r.shape[1] != y0.shape[1] for r in ref.values()) or any(e.size != y0.shape[1] for e in directions):
+        raise ValueError("the reference set, its shift directions, and the population do not belong together")
     Y_label = Y_label - 1  # index starts at 0
     # removing the outliers in `Y`
     idx = (Y_label != -2) & (Y_label != -1)
-- 
2.43.0


From 459338a94c15f200ec9fa2d311c11930a8d7bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 34/45] fix: restore pymoo's backend when activating JAX fails

---
 hvd/problems/_pymoo_factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hvd/problems/_pymoo_factory.py b/hvd/problems/_pymoo_factory.py
index fd1a9a4..eeb228d 100644
--- a/hvd/problems/_pymoo_factory.py
+++ b/hvd/problems/_pymoo_factory.py
@@ -53,9 +53,10 @@ def _jax_pymoo_backend() -> Iterator[None]:
     import pymoo.gradient as gradient
 
     previous_backend = gradient.TOOLBOX
-    if previous_backend != "jax.numpy":
-        gradient.activate("jax.numpy")
     try:
+        # NOTE: it sets the backend before it imports it, and the latter may fail
+        if previous_backend != "jax.numpy":
+            gradient.activate("jax.numpy")
         yield
     finally:
         if previous_backend != "jax.numpy":
-- 
2.43.0


From 21a45c31e6948fd4a630c49e7ed4da6374b25edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 35/45] fix: threads creating pymoo problems got them with
 another thread's backend

---
 hvd/problems/_pymoo_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hvd/problems/_pymoo_factory.py b/hvd/problems/_pymoo_factory.py
index eeb228d..0fa3c71 100644
--- a/hvd/problems/_pymoo_factory.py
+++ b/hvd/problems/_pymoo_factory.py
@@ -1,6 +1,7 @@
 """Factories for optional, JAX-backed pymoo problem adapters."""
 
 import sys
+import threading
 from collections.abc import Iterator
 from contextlib import contextmanager
 from importlib import import_module
@@ -13,6 +14,9 @@ if TYPE_CHECKING:
 
 _ProblemSpec = tuple[str, str]
 
+# pymoo's backend is a global setting: only one thread at a time may switch it
+_IMPORT_LOCK: Final = threading.Lock()
+
 # Keep this registry explicit: inclusion means that the problem has been checked
 # with this factory's JAX path and the MOP adapter.
 _PYMOO_PROBLEMS: Final[dict[str, _ProblemSpec]] = {
@@ -101,7 +105,8 @@ def get_pymoo_problem(
         supported = ", ".join(pymoo_problem_names())
         raise ValueError(f"Unsupported pymoo problem {name!r}. Available problems: {supported}.") from error
 
-    problem_type = _import_jax_problem_type(module_name, class_name)
+    with _IMPORT_LOCK:
+        problem_type = _import_jax_problem_type(module_name, class_name)
     pymoo_problem = problem_type(**problem_kwargs)
 
     return MOP.from_pymoo(
-- 
2.43.0


From f71d0b6e024df16e4c108b9f5c768ed670e6b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 36/45] fix: concurrent log records were written in each
 other's format

---
 hvd/utils.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 72e02f8..3ca3be3 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -8,7 +8,7 @@ import time
 import warnings
 from collections import defaultdict
 from contextlib import contextmanager
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import Any, Callable, Dict, Iterable, Iterator, List, Sequence, Tuple, Union
 
 import matplotlib.pyplot as plt
@@ -170,16 +170,12 @@ class LoggerFormatter(logging.Formatter):
         super().__init__(fmt=fmt, datefmt=None, style="%")
 
     def format(self, record):
-        # Save the original format configured by the user
-        # when the logger formatter was instantiated
-        _fmt = getattr(self._style, "_fmt")
-        # Replace the original format with one customized by logging level
-        setattr(self._style, "_fmt", self.FORMATS.get(record.levelno, self.FORMATS["DEFAULT"]))
+        # Replace the original format with one customized by logging level. This is done on a copy because handlers
+        # in other threads may be formatting a record of another level with this formatter
+        formatter = copy(self)
+        formatter._style = logging.PercentStyle(self.FORMATS.get(record.levelno, self.FORMATS["DEFAULT"]))
         # Call the original formatter class to do the grunt work
-        fmt = logging.Formatter.format(self, record)
-        # Restore the original format configured by the user
-        setattr(self._style, "_fmt", _fmt)
-        return fmt
+        return logging.Formatter.format(formatter, record)
 
 
 def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool = False) -> logging.Logger:
-- 
2.43.0


From 71b277068866c5097725fd2279017335e044880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 37/45] fix: a new LoggerFormatter changed the default format
 of all others

---
 hvd/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 3ca3be3..23b8db1 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -166,7 +166,8 @@ class LoggerFormatter(logging.Formatter):
     }
 
     def __init__(self, fmt="%(asctime)s - %(levelname)s -- %(message)s"):
-        LoggerFormatter.FORMATS["DEFAULT"] = fmt
+        # formats are per instance: other formatters keep theirs
+        self.FORMATS = {**LoggerFormatter.FORMATS, "DEFAULT": fmt}
         super().__init__(fmt=fmt, datefmt=None, style="%")
 
     def format(self, record):
-- 
2.43.0


From 3498fcd49092001edc3b6ac7507acc73135a1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 38/45] fix: get_logger ignored log files requested after the
 first one

---
 hvd/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 23b8db1..de68f21 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -1,6 +1,7 @@
 import datetime
 import functools
 import logging
+import os
 import statistics
 import sys
 import threading
@@ -201,9 +202,12 @@ def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool
 
     # create file handler and set level to debug
     FH = list(filter(lambda h: isinstance(h, logging.FileHandler), logger.handlers))
-    if file is not None and len(FH) == 0:
+    if file is not None:
         file = [file] if isinstance(file, str) else file
-        for f in set(file) - set(fh.baseFilename for fh in FH):
+        # different spellings of a path are the same file
+        for f in dict.fromkeys(os.path.abspath(f) for f in file):
+            if f in [fh.baseFilename for fh in FH]:
+                continue
             try:
                 fh = logging.FileHandler(f)
                 fh.setLevel(logging.DEBUG)
-- 
2.43.0


From dd59fb81e523581b26d2665ccf1a6323545c99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 39/45] fix: log files that cannot be opened are skipped
 whatever the error is

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index de68f21..812932e 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -213,7 +213,7 @@ def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool
                 fh.setLevel(logging.DEBUG)
                 fh.setFormatter(fmt)
                 logger.addHandler(fh)
-            except FileNotFoundError as _:
+            except OSError as _:  # the log is not worth failing for
                 pass
 
     logger.propagate = False
-- 
2.43.0


From 083f2bee293c3cf21c0f6496c5c5b295a76df21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 40/45] fix: threads requesting the same logger at once could
 add its handlers twice

---
 hvd/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 812932e..c20359c 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -180,12 +180,21 @@ class LoggerFormatter(logging.Formatter):
         return logging.Formatter.format(formatter, record)
 
 
+_LOGGER_LOCK = threading.RLock()
+
+
 def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool = False) -> logging.Logger:
     # NOTE: logging.getLogger create new instance based on `name`
     # no new instance will be created if the same name is provided
     logger = logging.getLogger(str(logger_id))
     logger.setLevel(logging.DEBUG)
+    with _LOGGER_LOCK:  # threads asking at the same time must not add a handler twice
+        _add_handlers(logger, file, console)
+    logger.propagate = False
+    return logger
 
+
+def _add_handlers(logger: logging.Logger, file: Union[str, List[str], None], console: bool) -> None:
     fmt = LoggerFormatter()
     # create console handler and set level to the vebosity
     SH = list(
@@ -216,9 +225,6 @@ def get_logger(logger_id: str, file: Union[str, List[str]] = None, console: bool
             except OSError as _:  # the log is not worth failing for
                 pass
 
-    logger.propagate = False
-    return logger
-
 
 def timeit(func):
     @functools.wraps(func)
-- 
2.43.0


From 336cdbcd31b6a43013bc2caafcec84b87c0aee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:32 +0000
Subject: [PATCH 41/45] fix: Lara divided by zero at points where the gradient
 of an objective vanishes

---
 hvd/gradient_based.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/gradient_based.py b/hvd/gradient_based.py
index 9562a21..e7dbc54 100644
--- a/hvd/gradient_based.py
+++ b/hvd/gradient_based.py
@@ -131,7 +131,8 @@ class Lara:
         for i in range(state.N):
             v = state.J[i]
             # TODO: FIXIT!!
-            R[i] = -1 * np.sum([v[k] / np.linalg.norm(v[k]) for k in range(self.n_obj)], axis=0)
+            # an objective whose gradient vanishes does not contribute a direction
+            R[i] = -1 * np.sum([v[k] / (np.linalg.norm(v[k]) or 1.0) for k in range(self.n_obj)], axis=0)
         return R
 
     def _handle_box_constraint(self, step: np.ndarray, state: State) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 8f9f2b675b95d7e17e1eda7a9d88fb0c265e7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:32 +0000
Subject: [PATCH 42/45] fix: do not shift an unmatched reference set in
 MMDNewton iterations that shift no point

---
 hvd/mmd_newton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 21f50b5..f93c948 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -288,7 +288,8 @@ class MMDNewton:
             masks = np.bitwise_and(np.isclose(distance, 0), np.isclose(step_norm, 0))
 
         indices = np.nonzero(masks)[0]
-        self.ref.shift(0.08, indices)
+        if len(indices) > 0:  # NOTE: an unmatched reference set is always shifted as a whole
+            self.ref.shift(0.08, indices)
         for k in indices:  # log the updated medoids
             self.history_medoids[k].append(self.ref.reference_set[k].copy())
         self.logger.info(f"{len(indices)} target points are shifted")
-- 
2.43.0


From 97f94bf5c1f67368da430644842aa4c34f8e5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:51 +0000
Subject: [PATCH 43/45] fix: RSG of clusters too short for a reference point of
 their own

---
 hvd/rsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index ac97372..cbe687b 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -37,6 +37,8 @@ def interpolate_tst(X: np.ndarray, Nf: int) -> np.ndarray:
     X = np.asarray(X, float)
 
     n, p = X.shape
+    if Nf == 0:
+        return np.empty((0, p))
 
     P = X[np.argsort(X[:, 0])]
 
-- 
2.43.0


From 5c47b866add82ce60c575fe3d5562de3a76ef4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:21 +0000
Subject: [PATCH 44/45] fix: a failed download of a Pareto front was taken for
 the front later

---
 hvd/problems/dtlz.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/hvd/problems/dtlz.py b/hvd/problems/dtlz.py
index 97638d4..c30d217 100644
--- a/hvd/problems/dtlz.py
+++ b/hvd/problems/dtlz.py
@@ -1,3 +1,6 @@
+import os
+import urllib.request
+import uuid
 from typing import Tuple
 
 import jax.numpy as jnp
@@ -13,6 +16,26 @@ from .utils import generic_sphere, get_ref_dirs
 eps = 1e-30
 
 
+def _load_pareto_front(name: str) -> np.ndarray:
+    """Load a Pareto front from pymoo's server; it is downloaded only once"""
+    remote = Remote.get_instance()
+    location = ("pymoo", "pf", name)
+    path = os.path.join(remote.folder, *location)
+    if not os.path.exists(path):
+        # download aside and rename, so that an incomplete download is never taken for the front later
+        os.makedirs(os.path.dirname(path), exist_ok=True)
+        temporary = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            urllib.request.urlretrieve(remote.server + "/".join(location), temporary)
+            with open(temporary, "rb") as file:
+                os.fsync(file.fileno())
+            os.replace(temporary, path)
+        finally:
+            if os.path.exists(temporary):
+                os.remove(temporary)
+    return remote.load(*location)
+
+
 class _DTLZ(CMOP):
     def __init__(
         self,
@@ -127,7 +150,7 @@ class DTLZ5(_DTLZ):
     def get_pareto_front(self):
         if self.n_obj == 3:
             # TODO: get rid of this remote call
-            return Remote.get_instance().load("pymoo", "pf", "dtlz5-3d.pf")
+            return _load_pareto_front("dtlz5-3d.pf")
         else:
             raise Exception("Not implemented yet.")
 
@@ -143,7 +166,7 @@ class DTLZ6(DTLZ5):
 
     def get_pareto_front(self):
         if self.n_obj == 3:
-            return Remote.get_instance().load("pymoo", "pf", "dtlz6-3d.pf")
+            return _load_pareto_front("dtlz6-3d.pf")
         else:
             raise Exception("Not implemented yet.")
 
@@ -158,7 +181,7 @@ class DTLZ7(_DTLZ):
 
     def get_pareto_front(self):
         if self.n_obj == 3:
-            return Remote.get_instance().load("pymoo", "pf", "dtlz7-3d.pf")
+            return _load_pareto_front("dtlz7-3d.pf")
         else:
             raise Exception("Not implemented yet.")
 
-- 
2.43.0


From 150b24ae4d9d6625c03726d51d4e337885687c9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:20:04 +0000
Subject: [PATCH 45/45] fix: a single shift direction given for a reference set
 was taken apart

ReferenceSet accepts the directions as an array, too. With a single direction
of shape (n_obj,), the first component of the reference set was shifted by the
first number in all objectives, the second component by the second number, and
further components raised an IndexError.
---
 hvd/reference_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index a31cdf2..f752dd4 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -33,6 +33,8 @@ class ReferenceSet:
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
         self.re_match: bool = True
         self.eta: Dict[int, np.ndarray] = eta
+        if isinstance(eta, np.ndarray) and eta.ndim == 1:  # the same direction for all components
+            self.eta = {k: eta for k in self._ref}
         if self.eta is None:
             self._compute_shift_direction()
         self._medoids: Dict[int, np.ndarray] = {i: None for i in range(self.n_components)}
-- 
2.43.0

