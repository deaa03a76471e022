From ff46b0ac6a4d1a93232ad83e9b84cb0ba53dd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 01/24] fix: removing an observer raised AttributeError

remove_observer called a method that does not exist.
---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From fce310dd282bdae5bc27bb6de26ddfc929bd1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 02/24] fix: a failing observer blocked all later notifications

The notification lock stayed set when an observer raised, so later
notifications were silently dropped; observers removed during a
notification made the loop skip others, and the documented return value
was missing.
---
 src/modopt/base/observable.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..6b96de8 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -97,18 +97,22 @@ class Observable:
         # Set the lock
         self._locked = True
 
-        # Create a signal object
-        signal_to_be_notified = SignalObject()
-        signal_to_be_notified.object = self
-        signal_to_be_notified.signal = signal
-
-        for name, key_value in kwargs.items():
-            setattr(signal_to_be_notified, name, key_value)
-        # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            # Create a signal object
+            signal_to_be_notified = SignalObject()
+            signal_to_be_notified.object = self
+            signal_to_be_notified.signal = signal
+
+            for name, key_value in kwargs.items():
+                setattr(signal_to_be_notified, name, key_value)
+            # Notify all the observers registered at this point
+            for observer in list(self._observers[signal]):
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From eae19f67cecfd2f4dcc1e12bbb39822a8536b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 03/24] fix: metric histories became misaligned or ran
 backwards in time

A metric that raised left an index and a date without a value, elapsed
times followed steps of the system clock, and a retrieved history kept
changing with later iterations.
---
 src/modopt/base/observable.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 6b96de8..7551423 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -245,9 +245,10 @@ class MetricObserver:
             if key_value is not None:
                 kwargs[key_value] = getattr(signal, key)
         kwargs.update(self.cst_kwargs)
+        metric_value = self.metric(**kwargs)
         self.list_iters.append(signal.idx)
-        self.list_dates.append(time.time())
-        self.list_cv_values.append(self.metric(**kwargs))
+        self.list_dates.append(time.monotonic())
+        self.list_cv_values.append(metric_value)
 
         if self.early_stopping:
             self.is_converge()
@@ -286,6 +287,6 @@ class MetricObserver:
 
         return {
             "time": time_val,
-            "index": self.list_iters,
-            "values": self.list_cv_values,
+            "index": list(self.list_iters),
+            "values": list(self.list_cv_values),
         }
-- 
2.43.0


From 204f1fac21828865f47c55a96c89fa06e8df474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 04/24] fix: metric_call_period was ignored

A trailing comma made the condition a tuple, which is always true.
---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From 072479e9f98ba8365daac73c25a99c3d4694d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:03 +0000
Subject: [PATCH 05/24] fix: early stopping on metrics was ignored without a
 cost function

The convergence flag of the metrics was only looked at by some of the
solvers and only when a cost function was set; a flag left from an
earlier call could also stop a later one.
---
 src/modopt/opt/algorithms/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..ccfe2c0 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -263,7 +263,10 @@ class SetUp(Observable):
         """
         for idx in range(max_iter):
             self.idx = idx
+            self.converge = False
             self._update()
+            # Early stopping applies with or without a cost function
+            self.converge = bool(self.converge) or self.any_convergence_flag()
 
             # Calling metrics every metric_call_period cycle
             # Also calculate at the end (max_iter or at convergence)
-- 
2.43.0


From f98db18a8cebd16b4f33e97b20c1972a81c3f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 06/24] fix: a failing proximity operator left
 GenForwardBackward half updated

Retrying the iteration then applied the update of the first operators
twice.
---
 src/modopt/opt/algorithms/forward_backward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..660eb64 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -718,14 +718,16 @@ class GenForwardBackward(SetUp):
         # Calculate gradient for current iteration.
         self._grad.get_grad(self._x_old)
 
-        # Update z values.
+        # Update z values (kept apart until all proximity operators succeeded).
+        z_new = self.xp.copy(self._z)
         for i in range(self._prox_list.size):
             z_temp = 2 * self._x_old - self._z[i] - self._gamma * self._grad.grad
             z_prox = self._prox_list[i].op(
                 z_temp,
                 extra_factor=self._gamma / self._weights[i],
             )
-            self._z[i] += self._lambda_param * (z_prox - self._x_old)
+            z_new[i] += self._lambda_param * (z_prox - self._x_old)
+        self._z = z_new
 
         # Update current reconstruction.
         self._x_new = self.xp.sum(
-- 
2.43.0


From 13e7a38b4ce3d1a429f91adb0324778581757405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 07/24] fix: a failing proximity operator left POGM half
 updated

The auxiliary variable and its step were overwritten before the
proximity operator answered, so a retried iteration used them twice.
---
 src/modopt/opt/algorithms/forward_backward.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 660eb64..a14f551 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -948,16 +948,18 @@ class POGM(SetUp):
         t_shifted_ratio = (self._t_old - 1) / self._t_new
         sigma_t_ratio = self._sigma * self._t_old / self._t_new
         beta_xi_t_shifted_ratio = t_shifted_ratio * self._beta / self._xi
-        self._z = -beta_xi_t_shifted_ratio * (self._x_old - self._z)
-        self._z += self._u_new
-        self._z += t_shifted_ratio * (self._u_new - self._u_old)
-        self._z += sigma_t_ratio * (self._u_new - self._x_old)
+        z_new = -beta_xi_t_shifted_ratio * (self._x_old - self._z)
+        z_new += self._u_new
+        z_new += t_shifted_ratio * (self._u_new - self._u_old)
+        z_new += sigma_t_ratio * (self._u_new - self._x_old)
 
         # Step 7 from alg. 3
-        self._xi = self._beta * (1 + t_shifted_ratio + sigma_t_ratio)
+        xi_new = self._beta * (1 + t_shifted_ratio + sigma_t_ratio)
 
         # Step 8 from alg. 3
-        self._x_new = self._prox.op(self._z, extra_factor=self._xi)
+        self._x_new = self._prox.op(z_new, extra_factor=xi_new)
+        self._z = z_new
+        self._xi = xi_new
 
         # Restarting and gamma-Decreasing
         # Step 9 from alg. 3
-- 
2.43.0


From e9a2e88c009342466ab5f336348cff10da93e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 08/24] fix: POGM wrote into the memory of its gradient
 operator

The previous gradient was an alias of the array owned by the operator
and was later overwritten in place.
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index a14f551..e7f92c9 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -919,7 +919,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From 0ba905fa81877287def66e62ab5fa0c4acf7ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 09/24] fix: FastADMM failed with a cost function and ignored v
 and tau

A misspelt attribute raised AttributeError as soon as cost functions were
given, the constraint vector was used as initial value of v, the coupling
parameter was dropped, and extra cost options were passed by position.
---
 src/modopt/opt/algorithms/admm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..f220514 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
@@ -283,12 +283,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
@@ -337,4 +338,4 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
-- 
2.43.0


From a921204b026e1c2a8e9061e269f9b29c7e032b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 10/24] fix: PowerMethod ignored its random seed

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From 7f8046a7c9404ce1880d3951f8f116138294be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 11/24] fix: rank-limited singular value thresholding crashed
 or lost components

The number of values could grow to the full rank or shrink to zero, which
svds rejects, and the smallest singular value was dropped even when it
exceeded the threshold, so the estimated rank changed the result.
---
 src/modopt/signal/svd.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..6c28a89 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -227,13 +227,23 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
-    if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+    max_vals = min(input_data.shape)
+    if n_vals is None:
+        n_vals = max_vals
+    elif n_vals == -1:
+        n_vals = max_vals - 1
+    n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        if n_vals < max_vals:
+            (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
+            ok = s_values[0] <= threshold
+        else:
+            # All the singular values are needed, which svds does not provide.
+            (u_vec, s_values, v_vec) = calculate_svd(input_data)
+            u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
+            ok = True
+        n_vals += extra_vals
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From cb7fa75e1ab4db52b4b241c60d92a8d076d29d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 12/24] fix: svd_thresh_coef modified the threshold array of
 its caller

Also drop a stray debug print.
---
 src/modopt/signal/svd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 6c28a89..ab3905e 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
@@ -306,7 +305,7 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From 22537bbbce3066f8935c5d63b35677fb46906e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 13/24] fix: multi-channel wavelet transform and early adjoint
 calls failed

With more than one channel op and adj_op raised (missing attribute, wrong
number of arguments), and adj_op failed when called before op.
---
 src/modopt/opt/linear/wavelet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..51fbefc 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -161,6 +161,7 @@ class CPUWaveletTransform(LinearParent):
         decimated=True,
         backend="threading",
         mode="symmetric",
+        verbose=0,
     ):
         if not pywt_available:
             raise ImportError(
@@ -204,10 +205,14 @@ class CPUWaveletTransform(LinearParent):
             )
             self.n_jobs = 1
         self.backend = backend
+        self.verbose = verbose
         n_proc = self.n_jobs
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
 
+        # Layout of the coefficients, the same for all transforms.
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
     def op(self, data):
         """Define the wavelet operator.
 
@@ -224,14 +229,14 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
+            coeffs, _, _ = zip(
                 *Parallel(
                     n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
                 )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
             )
             coeffs = np.asarray(coeffs)
         else:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
+            coeffs, _, _ = self._op(data)
         return coeffs
 
     def _op(self, data):
@@ -258,10 +263,7 @@ class CPUWaveletTransform(LinearParent):
         if self.n_batch > 1:
             images = Parallel(
                 n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
-            )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
-            )
+            )(delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch))
             images = np.asarray(images)
         else:
             images = self._adj_op(coeffs)
-- 
2.43.0


From f0b016d2d795e945f7e78a32074af1cf7bf4647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 14/24] fix: closing a log kept its file open and could leave
 handlers attached

Handlers were removed while iterating over them and never closed, and
setting up a log again wrote every message twice.
---
 src/modopt/interface/log.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..5704ea4 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -42,13 +42,16 @@ def set_up_log(filename, verbose=True):
         datefmt="%d/%m/%Y %H:%M:%S",
     )
 
+    # Drop outputs left over from an earlier log of the same name.
+    log = logging.getLogger(filename)
+    _release_handlers(log)
+
     # Create file handler.
     fh = logging.FileHandler(filename=filename, mode="w")
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(formatter)
 
-    # Create log.
-    log = logging.getLogger(filename)
+    # Set up log.
     log.setLevel(logging.DEBUG)
     log.addHandler(fh)
 
@@ -78,5 +81,20 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    _release_handlers(log)
+
+
+def _release_handlers(log):
+    """Release handlers.
+
+    This method detaches and closes all of the handlers of a log.
+
+    Parameters
+    ----------
+    log : logging.Logger
+        Logging instance
+
+    """
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From 4e8f954a23d8f97f46e73038d1f1b6beff212fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 15/24] fix: failed mr_transform calls left temporary files
 behind

Only one of the failure paths removed one of the files, and an existing
output file of the same name was read or overwritten.
---
 src/modopt/signal/wavelet.py | 54 +++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..cd10995 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -18,6 +18,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 import subprocess as sp
 from datetime import datetime
 from os import remove
+from os.path import exists
 from random import getrandbits
 
 import numpy as np
@@ -143,31 +144,40 @@ def call_mr_transform(
     file_fits = f"{file_name}.fits"
     file_mr = f"{file_name}.mr"
 
-    # Write the input data to a fits file.
-    fits.writeto(file_fits, input_data)
-
     if isinstance(opt, str):
         opt = opt.split()
 
-    # Prepare command and execute it
-    command_line = " ".join([executable, *opt, file_fits, file_mr])
-    stdout, _ = execute(command_line)
-
-    # Check for errors
-    if any(word in stdout for word in ("bad", "Error", "Sorry")):
-        remove(file_fits)
-        message = '{0} raised following exception: "{1}"'
-        raise RuntimeError(
-            message.format(executable, stdout.rstrip("\n")),
-        )
-
-    # Retrieve wavelet transformed data.
-    data_trans = fits.getdata(file_mr).astype(input_data.dtype)
-
-    # Remove the temporary files.
-    if remove_files:
-        remove(file_fits)
-        remove(file_mr)
+    # Reserve the file names, existing files are never overwritten.
+    if exists(file_mr):
+        raise FileExistsError(f"File {file_mr} already exists.")
+    open(file_fits, "xb").close()
+
+    keep_files = False
+    try:
+        # Write the input data to a fits file.
+        fits.writeto(file_fits, input_data, overwrite=True)
+
+        # Prepare command and execute it
+        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        stdout, _ = execute(command_line)
+
+        # Check for errors
+        if any(word in stdout for word in ("bad", "Error", "Sorry")):
+            message = '{0} raised following exception: "{1}"'
+            raise RuntimeError(
+                message.format(executable, stdout.rstrip("\n")),
+            )
+
+        # Retrieve wavelet transformed data.
+        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
+
+        keep_files = not remove_files
+    finally:
+        # Remove the temporary files.
+        if not keep_files:
+            for temp_file in (file_fits, file_mr):
+                if exists(temp_file):
+                    remove(temp_file)
 
     # Return the mr_transform results.
     return data_trans
-- 
2.43.0


From 87bdf0a53f23f9f3c9a950ed1deaa99dce551d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 16/24] fix: a cost plot that could not be saved left its
 figure open

---
 src/modopt/plot/cost_plot.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modopt/plot/cost_plot.py b/src/modopt/plot/cost_plot.py
index 7fb7e39..5c0ee76 100644
--- a/src/modopt/plot/cost_plot.py
+++ b/src/modopt/plot/cost_plot.py
@@ -43,12 +43,14 @@ def plotCost(cost_list, output=None):
         else:
             file_name = f"{output}_cost_function.png"
 
-        plt.figure()
-        plt.plot(np.log10(cost_list), "r-")
-        plt.title("Cost Function")
-        plt.xlabel("Iteration")
-        plt.ylabel(r"$\log_{10}$ Cost")
-        plt.savefig(file_name)
-        plt.close()
+        fig = plt.figure()
+        try:
+            plt.plot(np.log10(cost_list), "r-")
+            plt.title("Cost Function")
+            plt.xlabel("Iteration")
+            plt.ylabel(r"$\log_{10}$ Cost")
+            plt.savefig(file_name)
+        finally:
+            plt.close(fig)
 
         print(" - Saving cost function data to:", file_name)
-- 
2.43.0


From 69db1f5a66fbb275d580257910bc8e3b4cb5a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 17/24] fix: rank-limited singular value thresholding failed on
 zero data

---
 src/modopt/signal/svd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index ab3905e..73d2173 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -234,11 +234,11 @@ def svd_thresh_coef_fast(
     n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        if n_vals < max_vals:
+        if n_vals < max_vals and np.any(input_data):
             (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
             ok = s_values[0] <= threshold
         else:
-            # All the singular values are needed, which svds does not provide.
+            # svds provides neither all the singular values nor those of zero.
             (u_vec, s_values, v_vec) = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
             ok = True
-- 
2.43.0


From e22fe412e95e43f83db4f221888e46a10dd22b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 18/24] fix: FISTA used a wrong acceleration sequence

The factor one half of t_{n+1} = (p + sqrt(q + r t_n^2)) / 2 was applied
to the square root only.
---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index e7f92c9..4c66f6d 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -276,7 +276,7 @@ class FISTA:
 
         if self.mode == "regular":
             sqrt_part = self.r_lazy * self._t_prev**2 + self.q_lazy
-            self._t_now = self.p_lazy + np.sqrt(sqrt_part) * 0.5
+            self._t_now = (self.p_lazy + np.sqrt(sqrt_part)) * 0.5
 
         elif self.mode == "CD":
             self._t_now = (self._n + self.a_cd - 1) / self.a_cd
-- 
2.43.0


From 59d77b78e7bfe4467d13e1025495075b648ffc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:02 +0000
Subject: [PATCH 19/24] fix: a log output that could not be closed kept the
 others attached

---
 src/modopt/interface/log.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 5704ea4..e3ac7ac 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -95,6 +95,17 @@ def _release_handlers(log):
         Logging instance
 
     """
-    for log_handler in list(log.handlers):
+    handlers = list(log.handlers)
+    for log_handler in handlers:
         log.removeHandler(log_handler)
-        log_handler.close()
+
+    # A handler that cannot be closed must not keep the others open.
+    error = None
+    for log_handler in handlers:
+        try:
+            log_handler.close()
+        except OSError as exc:
+            error = error or exc
+
+    if error is not None:
+        raise error
-- 
2.43.0


From 93d2673a0314cfc038b06d8a009cb475cd54b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 20/24] fix: arrays could not be moved between a device and the
 CPU with change_backend

---
 src/modopt/base/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..e7292e2 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -125,7 +125,8 @@ def change_backend(input_data, backend="cupy"):
     txp, target_backend = get_backend(backend)
     if xp == txp:
         return input_data
-    return txp.array(input_data)
+    # Device libraries do not convert arrays of one another implicitly
+    return txp.array(move_to_cpu(input_data))
 
 
 def move_to_cpu(input_data):
-- 
2.43.0


From 4ac78c74417ef795bfd725576b78bf4ec1c151e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:14 +0000
Subject: [PATCH 21/24] fix: a progress bar without a total made the solvers
 fail

---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index ccfe2c0..098963a 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -287,7 +287,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -311,7 +311,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..57b4716 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -239,7 +239,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From 766c178b3eb88261efcf8cf425e74293eba5713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:33 +0000
Subject: [PATCH 22/24] fix: a failing proximity operator made gradient descent
 count a gradient twice

---
 src/modopt/opt/algorithms/gradient_descent.py | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 0960be5..2ff1389 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -68,6 +68,9 @@ class GenericGradOpt(SetUp):
 
     """
 
+    # Attributes replaced at each iteration that depend on all past gradients
+    _averages = ()
+
     def __init__(
         self,
         x,
@@ -144,13 +147,19 @@ class GenericGradOpt(SetUp):
 
         """
         self._grad.get_grad(self._x_old)
-        self._update_grad_dir(self._grad.grad)
-        self._update_grad_speed(self._grad.grad)
-        step = self._eta / (np.sqrt(self._speed_grad) + self._eps)
-        self._x_new = self._x_old - step * self._dir_grad
-        if self.idx % self.epoch_size == 0:
-            self.reset()
-            self._update_reg(step)
+        averages = {name: getattr(self, name) for name in self._averages}
+        try:
+            self._update_grad_dir(self._grad.grad)
+            self._update_grad_speed(self._grad.grad)
+            step = self._eta / (np.sqrt(self._speed_grad) + self._eps)
+            self._x_new = self._x_old - step * self._dir_grad
+            if self.idx % self.epoch_size == 0:
+                self.reset()
+                self._update_reg(step)
+        except BaseException:
+            # This gradient will be counted when the iteration is repeated
+            vars(self).update(averages)
+            raise
         self._x_old = self._x_new.copy()
         if self._eta_update is not None:
             self._eta = self._eta_update(self._eta, self.idx)
@@ -264,6 +273,8 @@ class AdaGenericGradOpt(GenericGradOpt):
 
     """
 
+    _averages = ("_speed_grad",)
+
     def _update_grad_speed(self, grad):
         """Ada Acceleration Scheme.
 
@@ -273,7 +284,7 @@ class AdaGenericGradOpt(GenericGradOpt):
             The new gradient for updating the speed
 
         """
-        self._speed_grad += abs(grad) ** 2
+        self._speed_grad = self._speed_grad + abs(grad) ** 2
 
 
 class RMSpropGradOpt(GenericGradOpt):
@@ -303,6 +314,8 @@ class RMSpropGradOpt(GenericGradOpt):
 
     """
 
+    _averages = ("_speed_grad",)
+
     def __init__(self, *args, gamma=0.5, **kwargs):
         super().__init__(*args, **kwargs)
         if gamma < 0 or gamma > 1:
@@ -344,6 +357,8 @@ class MomentumGradOpt(GenericGradOpt):
 
     """
 
+    _averages = ("_dir_grad",)
+
     def __init__(self, *args, beta=0.9, **kwargs):
         super().__init__(*args, **kwargs)
         self._check_param(beta)
@@ -398,6 +413,8 @@ class ADAMGradOpt(GenericGradOpt):
 
     """
 
+    _averages = ("_dir_grad", "_speed_grad", "_beta_pow", "_gamma_pow")
+
     def __init__(self, *args, gamma=0.9, beta=0.9, **kwargs):
         super().__init__(*args, **kwargs)
         self._check_param(gamma)
-- 
2.43.0


From f6bec5f7bacaef352cfe6bb27fe273ee0dbdaa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 23/24] fix: k-support norm uses the step factor throughout its
 proximity operator

---
 src/modopt/opt/proximity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..2b94961 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,9 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(
+            np.abs(input_data.flatten()), alpha, extra_factor
+        )
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From dfbd6ef48fa3e34ddd1b3ada25d2cd7e30db7638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 24/24] fix: k-support theta no longer drops entries at the
 edge of its cases to rounding

---
 src/modopt/opt/proximity.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 2b94961..a2ed746 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -991,12 +991,10 @@ class KSupportNorm(ProximityParent):
             np.expand_dims(alpha, -1),
             np.expand_dims(np.abs(input_data), -1).T,
         )
-        theta = np.zeros(alpha_input.shape)
         alpha_beta = alpha_input - self.beta * extra_factor
-        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
-        theta = np.nan_to_num(theta)
-        theta += alpha_input > (self.beta * extra_factor + 1)
-        return theta
+        # A single comparison per bound: rounding must not let an entry at the
+        # edge of two cases fall into neither of them.
+        return np.nan_to_num(np.clip(alpha_beta, 0, 1))
 
     def _interpolate(self, alpha0, alpha1, sum0, sum1):
         r"""Linear interpolation of alpha (:math:`\alpha`).
-- 
2.43.0

