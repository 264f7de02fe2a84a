From 1b131c4d03b0dd006c12218ccb51b571e169caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:37 +0000
Subject: [PATCH 01/80] fix: penalise only off-diagonal precision entries in
 time/latent/kernel graphical lasso

The documented problem (and the reported objective) is alpha*||K||_{od,1}, but the
solvers soft-thresholded the diagonal as well, so the returned matrices did not
minimise it.
---
 regain/covariance/infimal_convolution_.py                | 4 ++--
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_graphical_lasso_.py             | 4 ++--
 regain/covariance/latent_time_graphical_lasso_.py        | 6 ++++--
 regain/covariance/latent_time_matrix_decomposition.py    | 6 ++++--
 regain/covariance/time_graphical_lasso_.py               | 4 ++--
 7 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..0a51578 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -38,7 +38,7 @@ from six.moves import range
 from sklearn.utils.extmath import squared_norm
 
 from regain.norm import l1_od_norm
-from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -122,7 +122,7 @@ def infimal_convolution(
         R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..5f83b47 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -47,7 +47,7 @@ from regain.covariance.kernel_time_graphical_lasso_ import (
     objective as obj_ktgl,
     precision_similarity,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -198,7 +198,7 @@ def kernel_latent_time_graphical_lasso(
             A[m:] += Z_M[m][1] - Y_M[m][1]
 
         A /= n_times
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * n_times))
 
         # update W_0
         A = Z_0 - R - X_0
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..7498483 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -48,7 +48,7 @@ from regain.covariance.time_graphical_lasso_ import (
     loss,
 )
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -190,7 +190,7 @@ def kernel_time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # update residuals
         U_0 += K - Z_0
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..a2178c2 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -40,7 +40,7 @@ from regain.covariance.graphical_lasso_ import (
     init_precision,
     objective as obj_gl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -132,7 +132,7 @@ def latent_graphical_lasso(
         R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..2ade2c8 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -39,7 +39,7 @@ from regain.covariance.time_graphical_lasso_ import (
     init_precision,
     objective as obj_tgl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -184,7 +184,9 @@ def latent_time_graphical_lasso(
         A[:-1] += Z_1 - X_1
         A[1:] += Z_2 - X_2
         A /= divisor[:, None, None]
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(
+            A, lamda=alpha / (rho * divisor[:, None, None])
+        )
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..243667b 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -38,7 +38,7 @@ from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
 from regain.norm import l1_od_norm
-from regain.prox import prox_trace_indicator, soft_thresholding
+from regain.prox import prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_input, check_norm_prox
@@ -151,7 +151,9 @@ def latent_time_matrix_decomposition(
         A /= divisor[:, None, None]
         # soft_thresholding_ = partial(soft_thresholding, lamda=alpha / rho)
         # Z_0 = np.array(map(soft_thresholding_, A))
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(
+            A, lamda=alpha / (rho * divisor[:, None, None])
+        )
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index f5c3356..23010b1 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -45,7 +45,7 @@ from sklearn.utils.validation import check_X_y
 from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
 from regain.math import batch_logdet
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence, error_norm_time
 from regain.validation import check_norm_prox
@@ -201,7 +201,7 @@ def time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # other Zs
         A_1 = K[:-1] + U_1
-- 
2.43.0


From b5ed1ab479980ea908f6661b99fcb8e658c11a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:37 +0000
Subject: [PATCH 02/80] fix: correct sign of the over-relaxation step in
 graphical_lasso

x_hat = a*x + (1-a)*z (Boyd et al., sec. 3.4.3); with the minus sign any
over_relax != 1 moved the fixed point and the result was not the minimiser.
---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..2c99786 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -159,7 +159,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From 78a3fea2eb2f552cc29751fe5ff5b18412d803a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:37 +0000
Subject: [PATCH 03/80] fix: report the number of iterations actually run

Several solvers returned the zero-based index of the last iteration instead of
the documented number of iterations (n_iter_), one less than the other solvers.
---
 regain/covariance/graphical_lasso_.py                    | 2 +-
 regain/covariance/infimal_convolution_.py                | 2 +-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/latent_graphical_lasso_.py             | 2 +-
 regain/covariance/latent_time_graphical_lasso_.py        | 2 +-
 regain/covariance/latent_time_matrix_decomposition.py    | 2 +-
 regain/covariance/missing_graphical_lasso_.py            | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 2c99786..9c7e2e9 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -199,7 +199,7 @@ def graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 0a51578..55bb7d2 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -168,5 +168,5 @@ def infimal_convolution(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 5f83b47..b5d07ea 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -388,7 +388,7 @@ def kernel_latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index a2178c2..09f3baa 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -178,7 +178,7 @@ def latent_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index 2ade2c8..6ea75c1 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -346,7 +346,7 @@ def latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index 243667b..20b757b 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -315,7 +315,7 @@ def latent_time_matrix_decomposition(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..571e853 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -190,7 +190,7 @@ def missing_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iter_)
+        return_list.append(iter_ + 1)
     return return_list
 
 
-- 
2.43.0


From 01561f657b6caca53606ea3a25fb76286adbe3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 04/80] fix: accept ndarray temporal kernels in the kernel
 estimators

'kernel or identity' raises (truth value of an array is ambiguous) for the
documented ndarray kernel.
---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 8 ++++++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 +++-
 regain/generalized_linear_model/glm_time_ising.py        | 4 +++-
 regain/generalized_linear_model/glm_time_poisson.py      | 4 +++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b5d07ea..b87aff7 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = self.kernel_phi
+            if kernel_phi is None:
+                kernel_phi = np.identity(self.classes_.size)
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +555,9 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = self.kernel_psi
+            if kernel_psi is None:
+                kernel_psi = np.identity(self.classes_.size)
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 7498483..3b377ce 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,9 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..d2b522b 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,9 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..cabc4f0 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -497,7 +497,9 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = self.kernel
+                if kernel is None:
+                    kernel = np.identity(self.classes_.size)
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From fe7ea865969e6919b92071428dc93379420032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 05/80] fix: pass phi to the kernel latent solver

KernelLatent/SimilarityLatent estimators accepted phi but always solved with the
default 'laplacian' penalty on the latent matrices.
---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b87aff7..8ef248a 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -577,6 +577,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -794,6 +795,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -877,6 +879,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From 46f7e1465fcb5ca844995f926b41d38c343d433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 06/80] fix: use the computed latent kernel in
 SimilarityLatentTimeGraphicalLasso

The kernel_phi built from eta was dropped (the raw kernel_phi attribute was
passed instead), and a None kernel_phi with an explicit kernel_psi raised.
---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 8ef248a..1a5adc8 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -746,6 +746,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 kernel_phi = np.eye(n_times)
                 np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                 np.fill_diagonal(kernel_phi[1:], self.eta)
+            else:
+                kernel_phi = self.kernel_phi
 
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
@@ -789,7 +791,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
@@ -840,6 +842,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
 
             else:
                 kernel_phi = self.kernel_phi
+                if kernel_phi is None:
+                    kernel_phi = np.identity(self.classes_.size)
                 if kernel_phi.shape[0] != self.classes_.size:
                     raise ValueError(
                         "kernel_phi size does not match classes of samples, "
-- 
2.43.0


From a1a90c7f81e8f1b5b49789a2a83e2b1ab86f03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:50 +0000
Subject: [PATCH 07/80] fix: do not overwrite constructor parameters during fit

Similarity estimators, TimeGraphicalLassoForwardBackward(alpha='max') and
BayesianGraphicalLasso replaced user parameters with values derived from the
first data set, so refitting on other data (or cloning) used stale values.
---
 regain/bayesian/gwishart_inference.py                    | 7 ++++---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 7 ++++---
 regain/covariance/kernel_time_graphical_lasso_.py        | 7 ++++---
 regain/forward_backward/time_graphical_lasso_.py         | 7 ++++---
 regain/generalized_linear_model/glm_time_ising.py        | 7 ++++---
 regain/generalized_linear_model/glm_time_poisson.py      | 7 ++++---
 6 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..494d585 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -492,13 +492,14 @@ class BayesianGraphicalLasso(GraphicalLasso):
         # Covariance does not make sense for a single feature
         X = check_array(X, ensure_min_features=2, ensure_min_samples=2, estimator=self)
 
-        if self.alphas is None:
-            self.alphas = np.logspace(-2, 0, 20)
+        alphas = self.alphas
+        if alphas is None:
+            alphas = np.logspace(-2, 0, 20)
 
         self.precision_ = bayesian_graphical_lasso(
             X,
             tol=self.tol,
-            alphas=self.alphas,
+            alphas=alphas,
             n_resampling=self.n_resampling,
             mode=self.mode,
             scoring=self.scoring,
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 1a5adc8..e45aa69 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -757,8 +757,9 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
             kernel_psi = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = self.n_clusters
+            if n_clusters is None:
+                n_clusters = n_times
             labels_pred_old = None
             for i in range(self.max_iter_ext):
                 # E step - discover best kernel
@@ -771,7 +772,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 # kernel_psi = theta * self.beta
                 kernel_psi = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel_psi)
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 3b377ce..195ff61 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -699,8 +699,9 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = self.n_clusters
+            if n_clusters is None:
+                n_clusters = n_times
 
             labels_pred_old = None
             for i in range(self.max_iter_ext):
@@ -723,7 +724,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 kernel = theta
 
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..33de971 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -522,13 +522,14 @@ class TimeGraphicalLassoForwardBackward(TimeGraphicalLasso):
             Empirical covariance of data.
 
         """
-        if self.alpha == "max":
-            self.alpha = max(alpha_max(e) for e in emp_cov)
+        alpha = self.alpha
+        if alpha == "max":
+            alpha = max(alpha_max(e) for e in emp_cov)
 
         out = tgl_forward_backward(
             emp_cov,
             n_samples=n_samples,
-            alpha=self.alpha,
+            alpha=alpha,
             beta=self.beta,
             tol=self.tol,
             max_iter=self.max_iter,
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index d2b522b..f01e9fa 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -705,8 +705,9 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = self.n_clusters
+            if n_clusters is None:
+                n_clusters = n_times
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 out = _fit_time_ising_model(
@@ -730,7 +731,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index cabc4f0..cfa526f 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -701,14 +701,15 @@ class SimilarityTemporalPoissonModel(TemporalPoissonModel):
             kernel = np.eye(n_times)
 
             psi, _, _ = check_norm_prox(self.psi)
-            if self.n_clusters is None:
-                self.n_clusters = n_times
+            n_clusters = self.n_clusters
+            if n_clusters is None:
+                n_clusters = n_times
             labels_pred_old = 0
             for i in range(self.max_iter_ext):
                 theta = precision_similarity(self.precision_, psi)
                 kernel = theta
                 labels_pred = AgglomerativeClustering(
-                    n_clusters=self.n_clusters,
+                    n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
                 ).fit_predict(kernel)
-- 
2.43.0


From bc382fa70756b9ac1e4cef913e0a5f33fa6c9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:10 +0000
Subject: [PATCH 08/80] fix: line search on lambda in the forward-backward
 solver raised TypeError

choose_lamda has no vareps argument (it is already bound in the loss partials), and
criterion 'c' passed the iterate positionally into a keyword-bound partial; so
choose='lamda' and choose='both' could never run.
---
 regain/forward_backward/forward_backward.py      | 4 ++--
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index 33de971..643d0dd 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From e437558baf46f2417ee4e9b786f5aad9ffdd768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:10 +0000
Subject: [PATCH 09/80] fix: compute the l-inf proximal operator exactly

BFGS on the nonsmooth objective returned points far from the minimiser (errors of
1e-2 in time_graphical_lasso, and no convergence), and the per-time weights used
by the kernel solvers were not supported; use the closed form already quoted in
the docstring.
---
 regain/prox.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9e1e132..4eb38dc 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -83,7 +83,8 @@ def prox_linf_1d(a, lamda):
 
     min ||x||_inf + (1/2t)||x-w||^2
 
-    Since there is no closed-form, we can minimize it with scipy.
+    The solution truncates the entries of w at a common level, obtained from
+    the sorted magnitudes.
 
     Matlab reference
     ------
@@ -108,19 +109,19 @@ def prox_linf_1d(a, lamda):
         end
     end
     """
-    from scipy.optimize import minimize
-
-    def f(x):
-        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
-
-    return minimize(f, a).x
+    magnitudes = np.abs(a)
+    levels = (np.cumsum(np.sort(magnitudes)[::-1]) - lamda) / np.arange(1, a.size + 1)
+    return np.sign(a) * np.minimum(magnitudes, max(np.max(levels), 0))
 
 
 def prox_linf(a, lamda):
     """Proximal operator for l-inf norm."""
     x = np.zeros_like(a)
+    lamda = np.broadcast_to(np.asarray(lamda, dtype=float).reshape(-1), a.shape[0])
     for t in range(a.shape[0]):
-        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
+        x[t] = np.array(
+            [prox_linf_1d(a[t, :, j], lamda[t]) for j in range(a.shape[2])]
+        ).T
     return x
 
 
-- 
2.43.0


From 0558685c209877f8e5d71cde73587488ba04efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:46 +0000
Subject: [PATCH 10/80] fix: pair the 'l2' and 'linf' temporal norms with their
 proximal operators

The proximal operators act column-wise, but the norms used for the reported
objective were the Frobenius norm and the maximum row sum.
---
 regain/norm.py       | 5 +++++
 regain/validation.py | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/regain/norm.py b/regain/norm.py
index 1ec5742..2a97cf3 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -55,6 +55,11 @@ def l1_od_norm(precision):
     return matrix_l1_norm(precision) - diagonal_sum
 
 
+def column_p_norm(matrix, p=2):
+    """Sum of the p-norms of the columns of a matrix."""
+    return np.linalg.norm(matrix, ord=p, axis=0).sum()
+
+
 def node_penalty(X):
     """Node penalty. See Hallac for details."""
     cons = (
diff --git a/regain/validation.py b/regain/validation.py
index 743836e..221c871 100644
--- a/regain/validation.py
+++ b/regain/validation.py
@@ -37,7 +37,7 @@ import scipy.sparse as sp
 from sklearn.utils.extmath import squared_norm
 from sklearn.utils.validation import check_array
 
-from regain.norm import l1_norm, node_penalty
+from regain.norm import column_p_norm, l1_norm, node_penalty
 from regain.prox import blockwise_soft_thresholding, prox_laplacian, prox_linf, prox_node_penalty, soft_thresholding
 
 
@@ -51,10 +51,10 @@ def check_norm_prox(function):
         norm = l1_norm
     elif function == "l2":
         prox = blockwise_soft_thresholding
-        norm = np.linalg.norm
+        norm = partial(column_p_norm, p=2)
     elif function == "linf":
         prox = prox_linf
-        norm = partial(np.linalg.norm, ord=np.inf)
+        norm = partial(column_p_norm, p=np.inf)
     elif function == "node":
         prox = prox_node_penalty
         norm = node_penalty
-- 
2.43.0


From 81526171b7102e30fb793ac04dec0b257c5c59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:05 +0000
Subject: [PATCH 11/80] fix: node penalty proximal operator did not solve its
 problem

The V update transposed W twice, the consensus terms were weighted 2 instead of 1
against the scaled duals, and rho was adapted without rescaling the threshold, so
the inner ADMM converged to a point that is not the minimiser.
---
 regain/prox.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 4eb38dc..f6f6b4b 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -36,7 +36,6 @@ import numpy as np
 from sklearn.utils.extmath import squared_norm
 
 from regain.math import create_from_diagonal, fill_diagonal, get_diagonal
-from regain.update_rules import update_rho
 from regain.utils import Convergence
 
 try:
@@ -178,7 +177,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
     Y_2 = np.copy(U_1)
 
     C = np.hstack((np.eye(n_dim), -np.eye(n_dim), np.eye(n_dim)))
-    inverse = np.linalg.inv(C.T.dot(C) + 2 * np.eye(3 * n_dim))
+    inverse = np.linalg.inv(C.T.dot(C) + np.eye(3 * n_dim))
 
     V = np.zeros_like(U_1)
     W = np.zeros_like(U_1)
@@ -186,9 +185,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
     W_old = np.zeros_like(U_1)
 
     for iteration_ in range(max_iter):
-        A = (
-            Y_1 - Y_2 - W - U_1 + (W.transpose(0, 2, 1) - U_2).transpose(0, 2, 1)
-        ) / 2.0
+        A = (Y_1 - Y_2 - W - U_1 + W.transpose(0, 2, 1) - U_2) / 2.0
         V = blockwise_soft_thresholding_symmetric(A, lamda=lamda)
 
         A = np.concatenate(((V + U_2).transpose(0, 2, 1), A_12), axis=1)
@@ -196,7 +193,7 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
         # Z = np.linalg.solve(C.T*C + eta*np.identity(3*n), - C.T*D + eta* A)
         Z = np.empty_like(A)
         for i, (A_i, D_i) in enumerate(zip(A, D)):
-            Z[i] = inverse.dot(2 * A_i - C.T.dot(D_i))
+            Z[i] = inverse.dot(A_i - C.T.dot(D_i))
         W, Y_1, Y_2 = (Z[:, i * n_dim : (i + 1) * n_dim, :] for i in range(3))
 
         # update residuals
@@ -230,11 +227,6 @@ def prox_node_penalty(A_12, lamda, rho=1, tol=1e-4, rtol=1e-2, max_iter=500):
         #         np.linalg.norm(delta_U_2, 'fro') < tol:
         if check.rnorm <= check.e_pri and check.snorm <= check.e_dual:
             break
-        rho_new = update_rho(rho, rnorm, snorm, iteration=iteration_)
-        # scaled dual variables should be also rescaled
-        U_1 *= rho / rho_new
-        U_2 *= rho / rho_new
-        rho = rho_new
     else:
         warnings.warn("Node norm did not converge.")
     return Y_1, Y_2
-- 
2.43.0


From 3603c767b7e67161a037ea3652b7b98585b196c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:08 +0000
Subject: [PATCH 12/80] fix: zero columns and per-time weights in block
 soft-thresholding gave NaN or a wrong broadcast

---
 regain/prox.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index f6f6b4b..d34f9d6 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -59,7 +59,9 @@ def soft_thresholding_off_diagonal(a, lamda):
 
 def soft_thresholding_vector(a, lamda):
     """Soft-thresholding for vectors."""
-    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a
+    norms = np.linalg.norm(a, axis=-1, keepdims=True)
+    shrink = np.divide(lamda, norms, out=np.ones_like(norms), where=norms > 0)
+    return np.maximum(1 - shrink, 0) * a
 
 
 def blockwise_soft_thresholding(a, lamda):
@@ -70,11 +72,9 @@ def blockwise_soft_thresholding(a, lamda):
 
 def blockwise_soft_thresholding_symmetric(a, lamda):
     """Proximal operator for l2 norm, for symmetric matrices (last 2 axes)."""
-    col_norms = np.linalg.norm(a, axis=-2)
-    out = np.matmul(
-        a, create_from_diagonal((1 - lamda / col_norms) * (col_norms > lamda))
-    )
-    return out
+    col_norms = np.linalg.norm(a, axis=-2, keepdims=True)
+    shrink = np.divide(lamda, col_norms, out=np.ones_like(col_norms), where=col_norms > 0)
+    return a * np.maximum(1 - shrink, 0)
 
 
 def prox_linf_1d(a, lamda):
-- 
2.43.0


From d34430a9825e2d592fb049b5894b67dc370d492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:19 +0000
Subject: [PATCH 13/80] fix: node penalty norm used a wrong constraint and a
 random start

---
 regain/norm.py | 45 +++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/regain/norm.py b/regain/norm.py
index 2a97cf3..e32c70d 100644
--- a/regain/norm.py
+++ b/regain/norm.py
@@ -30,7 +30,6 @@
 
 """Norm functions."""
 import numpy as np
-from scipy.optimize import minimize
 
 
 def vector_p_norm(a, p=1):
@@ -60,24 +59,26 @@ def column_p_norm(matrix, p=2):
     return np.linalg.norm(matrix, ord=p, axis=0).sum()
 
 
-def node_penalty(X):
-    """Node penalty. See Hallac for details."""
-    cons = (
-        {
-            "type": "eq",
-            "fun": lambda x: np.array(
-                (x.reshape(X.shape) + x.reshape(X.shape).T - X).sum()
-            ),
-            "jac": lambda x: np.full(X.size, 2),
-        },
-    )
-    try:
-        res = minimize(
-            lambda x: np.sum(np.linalg.norm(x.reshape(X.shape), axis=0)),
-            np.random.randn(X.size),
-            constraints=cons,
-        ).fun
-    except ValueError:
-        res = np.nan
-
-    return res
+def node_penalty(X, tol=1e-10, max_iter=2000):
+    """Node penalty. See Hallac for details.
+
+    Minimum, over the matrices V with V + V.T = X, of the sum of the l2-norms
+    of the columns of V.
+    """
+    X = np.asarray(X, dtype=float)
+    step = np.abs(X).max()
+    if not np.isfinite(step):
+        return np.nan
+    V, U = X / 2.0, np.zeros_like(X)
+    for _ in range(max_iter if step > 0 else 0):
+        V_old = V
+        A = V - U
+        norms = np.linalg.norm(A, axis=0)
+        W = A * np.maximum(1 - step / np.where(norms > 0, norms, 1), 0)
+        # projection on the constraint set
+        V = (X + (W + U) - (W + U).T) / 2.0
+        U = U + W - V
+        if max(np.abs(W - V).max(), np.abs(V - V_old).max()) <= tol * step:
+            break
+
+    return np.linalg.norm(V, axis=0).sum()
-- 
2.43.0


From 1c7a16e8d8b8616f7bbbbe1963b3c7f23ab3c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:14 +0000
Subject: [PATCH 14/80] fix: GraphicalLasso.covariance_ was the empirical
 covariance, not the estimate

---
 regain/covariance/graphical_lasso_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 9c7e2e9..a81425d 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -300,7 +300,7 @@ class GraphicalLasso(GraphLasso):
             Empirical covariance of data.
 
         """
-        self.precision_, self.covariance_, self.n_iter_ = graphical_lasso(
+        self.precision_, _, self.n_iter_ = graphical_lasso(
             emp_cov,
             alpha=self.alpha,
             tol=self.tol,
@@ -315,6 +315,7 @@ class GraphicalLasso(GraphLasso):
             compute_objective=self.compute_objective,
             init=self.init,
         )
+        self.covariance_ = linalg.pinvh(self.precision_)
         return self
 
     def fit(self, X, y=None):
-- 
2.43.0


From 60a7cb0a28926f72c9cd5cda156eb98cbc9c139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:14 +0000
Subject: [PATCH 15/80] fix: history of missing_graphical_lasso stored a
 function instead of the log-likelihood

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 571e853..bada4f4 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
-- 
2.43.0


From e0cdc83182e44b1c9d4656ef3b92ac918605c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:18 +0000
Subject: [PATCH 16/80] fix: tgl_forward_backward crashed when n_samples was
 not given

---
 regain/forward_backward/time_graphical_lasso_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index 643d0dd..b5399b5 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -229,6 +229,8 @@ def tgl_forward_backward(
 
     n_times, _, n_features = emp_cov.shape
     K = init_precision(emp_cov, mode=init)
+    if n_samples is None:
+        n_samples = np.ones(n_times)
 
     if laplacian_penalty:
         obj_partial = partial(
-- 
2.43.0


From 5aecb534fdcdde760f0cb909a7bbf963fcb44282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:21 +0000
Subject: [PATCH 17/80] fix: passing an array as init raised ValueError

---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index a81425d..1d90640 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,7 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, str) and mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
-- 
2.43.0


From 6c85d4e4b715e0449a6fdb297f95c2c2cd1995d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:15 +0000
Subject: [PATCH 18/80] fix: spectral error norm raised AttributeError
 (numpy.linalg has no svdvals)

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..a0cabfe 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -42,7 +42,7 @@ from dataclasses import dataclass
 import numpy as np
 import six
 from numpy.linalg.linalg import LinAlgError
-from scipy import stats
+from scipy import linalg, stats
 from scipy.spatial.distance import squareform
 from six.moves import cPickle as pkl
 from sklearn.metrics import average_precision_score, matthews_corrcoef
@@ -373,7 +373,7 @@ def error_norm(
     if norm == "frobenius":
         squared_norm = np.sum(error**2)
     elif norm == "spectral":
-        squared_norm = np.amax(np.linalg.svdvals(np.dot(error.T, error)))
+        squared_norm = np.amax(linalg.svdvals(np.dot(error.T, error)))
     else:
         raise NotImplementedError("Only spectral and frobenius norms are implemented")
     # optionally scale the error norm
-- 
2.43.0


From 4495787cf0b720d24b62950285988fed645bd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 19/80] fix: precision similarity of identical precisions was
 NaN

---
 regain/covariance/kernel_time_graphical_lasso_.py | 4 +++-
 regain/datasets/kernels.py                        | 4 +++-
 regain/generalized_linear_model/glm_time_ising.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 195ff61..8032b4a 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -356,7 +356,9 @@ def precision_similarity(K, psi):
         np.fill_diagonal(kernel[:, m:], dist)
 
     kernel -= np.min(kernel)
-    kernel /= np.max(kernel)
+    max_distance = np.max(kernel)
+    if max_distance > 0:
+        kernel /= max_distance
     # kernel *= -1
     # kernel += 1
     return 1 - kernel  # 1. / (1 + kernel)
diff --git a/regain/datasets/kernels.py b/regain/datasets/kernels.py
index 14ab319..e2bb269 100644
--- a/regain/datasets/kernels.py
+++ b/regain/datasets/kernels.py
@@ -672,7 +672,9 @@ def make_cluster_representative(
     y = np.repeat(np.arange(len(covs)), n_samples)
 
     distances = squareform([l1_od_norm(t1 - t2) for t1, t2 in combinations(thetas, 2)])
-    distances /= np.max(distances)
+    max_distance = np.max(distances)
+    if max_distance > 0:
+        distances /= max_distance
     labels_pred = AgglomerativeClustering(
         n_clusters=n_clusters, affinity="precomputed", linkage="complete"
     ).fit_predict(distances)
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index f01e9fa..a473218 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -574,7 +574,9 @@ def precision_similarity(precision, psi=None):
     distances = squareform(
         [l1_od_norm(t1 - t2) for t1, t2 in combinations(precision, 2)]
     )
-    distances /= np.max(distances)
+    max_distance = np.max(distances)
+    if max_distance > 0:
+        distances /= max_distance
     return 1 - distances
 
 
-- 
2.43.0


From 104db3e1c3bc16e60e780f42605d77edb2f29071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:40 +0000
Subject: [PATCH 20/80] fix: lasso returned the solution twice, and only the
 last history entry

---
 regain/linear_model/lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/lasso_.py b/regain/linear_model/lasso_.py
index 2dde28e..6a393bc 100644
--- a/regain/linear_model/lasso_.py
+++ b/regain/linear_model/lasso_.py
@@ -117,7 +117,7 @@ def lasso(A, b, lamda=1.0, rho=1.0, alpha=1.0, max_iter=1000, tol=1e-4, rtol=1e-
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, history if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, x, z):
-- 
2.43.0


From c1087cba8c31db6d20d100a4efa3b7936ed63fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:40 +0000
Subject: [PATCH 21/80] fix: group_lasso solved the lasso instead of the group
 lasso

Groups were thresholded entry by entry, the dual residual was always zero
(zold aliased z), the solution was returned twice and partitions whose groups
are not listed in order were rejected.
---
 regain/linear_model/group_lasso_.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 7e32de5..0c27b15 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -36,7 +36,7 @@ import numpy as np
 from six.moves import range
 
 from regain.linear_model.lasso_ import lu_factor
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding_vector
 from regain.utils import flatten
 
 
@@ -87,7 +87,7 @@ def group_lasso(
     n_samples, n_features = A.shape
 
     # check valid partition
-    if not np.allclose(flatten(groups), np.arange(n_features)):
+    if not np.array_equal(sorted(flatten(groups)), np.arange(n_features)):
         raise ValueError(
             "Invalid partition in groups. " "Groups must be non-overlapping and each variables " "must be selected"
         )
@@ -114,10 +114,10 @@ def group_lasso(
             x /= rho
 
         # % z-update with relaxation
-        zold = z
+        zold = z.copy()
         x_hat = alpha * x + (1 - alpha) * zold
         for group in groups:
-            z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
+            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
 
         # % u-update
         u += x_hat - z
@@ -135,7 +135,7 @@ def group_lasso(
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, hist if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, groups, x, z):
-- 
2.43.0


From 31a3d977b540f917a467bcd6bd64a1d20fabae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:03 +0000
Subject: [PATCH 22/80] fix: group_lasso_overlap did not apply the group
 penalty

Groups were thresholded entry by entry and around the wrong point, and the
objective failed for groups of different sizes.
---
 regain/linear_model/group_lasso_overlap_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..2b836ae 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -42,7 +42,7 @@ from sklearn.utils import check_array, check_X_y, deprecated
 from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding, soft_thresholding_vector
 from regain.utils import flatten
 from regain.wrapper.paspal.glopridu import glopridu_algorithm
 
@@ -144,7 +144,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     for k in range(max_iter):
         # x update
         for i, g in enumerate(groups):
-            x[i] = soft_thresholding(x[i] - y[i] / rho, lamda / rho)
+            x[i] = soft_thresholding_vector(z[g] - y[i] / rho, lamda / rho)
 
         # z update
         zold = z
@@ -561,4 +561,4 @@ def _overlapping_group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, m
 
 def objective(A, b, alpha, x, z):
     """Group lasso with overlap objective function."""
-    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * np.linalg.norm(x)
+    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * sum(np.linalg.norm(x_i) for x_i in x)
-- 
2.43.0


From 589421cf2610e5ec91cf4209d10c9055ec5bf567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:03 +0000
Subject: [PATCH 23/80] fix: GroupLassoOverlap replaced its groups parameter,
 which broke clone

---
 regain/linear_model/group_lasso_overlap_.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 2b836ae..be1c812 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -215,7 +215,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
         self.alpha = alpha
         self.coef_ = None
         self.fit_intercept = fit_intercept
-        self.groups = groups or []
+        self.groups = groups
         self.rho = rho
         self.verbose = verbose
         self.normalize = normalize
@@ -310,6 +310,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
             if coef_.ndim == 1:
                 coef_ = coef_[None, :]
 
+        groups = self.groups or []
         dual_gaps_ = np.zeros(n_targets, dtype=X.dtype)
         if self.n_jobs == 1:
             self.n_iter_ = []
@@ -320,7 +321,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         lamda=self.alpha,
-                        groups=self.groups,
+                        groups=groups,
                         rho=self.rho,
                         max_iter=self.max_iter,
                         tol=self.tol,
@@ -332,7 +333,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         lamda=self.alpha,
-                        groups=self.groups,
+                        groups=groups,
                         rho=self.rho,
                         max_iter=self.max_iter,
                         tol=self.tol,
@@ -345,7 +346,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                         X,
                         y[:, k],
                         tau=self.alpha,
-                        blocks=self.groups,
+                        blocks=groups,
                         max_iter_ext=self.max_iter,
                         tol_ext=self.tol,
                         verbose=self.verbose,
@@ -366,7 +367,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             lamda=self.alpha,
-                            groups=self.groups,
+                            groups=groups,
                             rho=self.rho,
                             max_iter=self.max_iter,
                             tol=self.tol,
@@ -383,7 +384,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             lamda=self.alpha,
-                            groups=self.groups,
+                            groups=groups,
                             rho=self.rho,
                             max_iter=self.max_iter,
                             tol=self.tol,
@@ -401,7 +402,7 @@ class GroupLassoOverlap(LinearModel, RegressorMixin):
                             X,
                             y[:, k],
                             tau=self.alpha,
-                            blocks=self.groups,
+                            blocks=groups,
                             max_iter_ext=self.max_iter,
                             tol_ext=self.tol,
                             verbose=self.verbose,
-- 
2.43.0


From aaaaaf3d0ddf6c248a5f61af7f0876b31104c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:03 +0000
Subject: [PATCH 24/80] fix: glopridu failed with more than one block and
 skipped active blocks

Truth values of arrays were taken, ragged block lists were rejected, and
block norms were compared with squared radii.
---
 regain/wrapper/paspal/glopridu.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index 8f27ff0..2559ed2 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -32,7 +32,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     weights = (weights * tau) ** 2
 
     # if lamda is not initialized, then initialize it to 0
-    if not lamda0:
+    if lamda0 is None:
         lamda0 = np.zeros(B)
 
     lamda_tot = np.zeros(B)
@@ -43,10 +43,10 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     # for g in range(B):
     #     to_be_projected[g] = np.linalg.norm(w0[blocks[g]], 2) >= weights[g]
     norm_blocks = np.array([np.linalg.norm(w0[block], 2) for block in blocks])
-    to_be_projected = norm_blocks >= weights
+    to_be_projected = norm_blocks ** 2 >= weights
 
     weights = weights[to_be_projected]
-    blocks = blocks[to_be_projected]
+    blocks = [block for block, keep in zip(blocks, to_be_projected) if keep]
     lamda = lamda0[to_be_projected]
 
     B = len(blocks)
@@ -167,7 +167,7 @@ def glopridu_algorithm(
 ):
     """Add Doc."""
     n, d = X.shape
-    blocks = np.array(blocks)
+    blocks = [np.asarray(block) for block in blocks]
 
     # if only the number of blocks is given, build blocks of equal
     # cardinality with sequential features
@@ -176,11 +176,11 @@ def glopridu_algorithm(
     # end
 
     # if sigma is not specified in input, set  it to as a/n
-    if not sigma0:
+    if sigma0 is None:
         sigma0 = np.linalg.norm(X, 2) ** 2 / n  # step size for smooth_par=0
 
     # if weights are not specified in input, set them to 1
-    if not weights:
+    if weights is None:
         weights = np.ones(len(blocks))
         # weights = np.ones(d)
 
@@ -194,7 +194,7 @@ def glopridu_algorithm(
     XT = X.T / (n * sigma)
 
     # initialization
-    if not beta0:
+    if beta0 is None:
         beta0 = np.zeros(d)
 
     # initialization for iterate n_iter-1
-- 
2.43.0


From 392ef8d4747dee5102c90436bbc8a1ab3479699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 25/80] fix: gradient of the Ising model used the first sample
 only

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..a10121d 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From d19624ec488fa360dcc560a65d9161d01bd9151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 26/80] fix: union of neighbourhoods weighted the two estimates
 of an edge unequally

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From 4b7d629dad7e584718c70f3258deaaacecdc498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 27/80] fix: Ising logistic_regression mode failed, asymmetric
 parameters raised AttributeError

---
 regain/generalized_linear_model/glm_ising.py   | 6 ++----
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index a10121d..90d2bdd 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
@@ -127,7 +127,6 @@ def _fit(
                 theta_new = theta - gamma * grad
                 theta = (theta_new + theta_new.T) / 2
                 theta = soft_thresholding_off_diagonal(theta, alpha * gamma)
-                print(theta)
                 loss_new = loss(X, theta)
                 loss_old = loss(X, theta_old)
                 # Line search
@@ -296,9 +295,8 @@ class IsingGraphicalModel(GLM_GM, BaseEstimator):
         elif self.mode.lower() == "logistic_regression":
             thetas_pred = []
             for ix in range(X.shape[1]):
-                verbose = min(0, self.verbose - 1)
+                verbose = max(0, self.verbose - 1)
                 selector = np.array([i for i in range(X.shape[1]) if i != ix])
-                print("pd")
                 res = (
                     LogisticRegression(
                         C=1 / self.alpha,
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..8eaed59 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return float("inf")
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From 57e6dfc1060b37c93fc6c220c0da784678810bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:14 +0000
Subject: [PATCH 28/80] fix: Gaussian and Poisson GLMs ignored gamma, tol and
 max_iter

---
 regain/generalized_linear_model/glm_gaussian.py | 10 +++++++++-
 regain/generalized_linear_model/glm_poisson.py  |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..9d198b8 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,15 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X,
+                ix,
+                self.alpha,
+                gamma=gamma,
+                tol=self.tol,
+                max_iter=self.max_iter,
+                verbose=self.verbose,
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 8eaed59..d1c16fb 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -267,7 +267,13 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    gamma=self.gamma,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
-- 
2.43.0


From ceb8ac59019f6d25981e19e282f0eafa448553e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 29/80] fix: line search of the Poisson model stepped from the
 wrong point and ignored the quadratic term

---
 regain/generalized_linear_model/glm_poisson.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index d1c16fb..6f7d29e 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -96,19 +96,25 @@ def fit_each_variable(
         EXK = X[:, selector].T.dot(np.exp(X[:, selector].dot(theta)))
         to_add = 0
         if A is not None:
-            to_add = (rho * T) * (theta - A[r, selector]) / n
+            to_add = (rho * T) * (theta - A[r, selector])
         return -(1 / n) * (XTX - EXK) + to_add
 
+    def smooth_loss(theta):
+        value = loss_single_variable(X, theta, n, ix, selector)
+        if A is not None:
+            value += rho * T / 2 * np.sum((theta - A[ix, selector]) ** 2)
+        return value
+
     thetas = [theta]
     checks = []
     for iter_ in range(max_iter):
         theta_old = thetas[-1]
         grad = gradient(X, theta, ix, selector, n, A, T, rho)
+        loss_old = smooth_loss(theta_old)
         while True:
-            theta_new = theta - gamma * grad
+            theta_new = theta_old - gamma * grad
             theta = soft_thresholding(theta_new, alpha * gamma)
-            loss_new = loss_single_variable(X, theta, n, ix, selector)
-            loss_old = loss_single_variable(X, theta_old, n, ix, selector)
+            loss_new = smooth_loss(theta)
             # Line search
             diff_theta2 = np.linalg.norm(theta_old - theta) ** 2
             grad_diff = grad.dot(theta_old - theta)
@@ -116,10 +122,6 @@ def fit_each_variable(
 
             if loss_new > diff or np.isinf(loss_new) or np.isnan(loss_new):
                 gamma = update_gamma * gamma
-                theta = theta_old - gamma * grad
-                theta = soft_thresholding(theta, alpha * gamma)
-                loss_new = loss_single_variable(X, theta, n, ix, selector)
-                diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma))
             else:
                 break
         thetas.append(theta)
-- 
2.43.0


From 61f919b9070dcad6dd214f7485b6705b47c6b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:33 +0000
Subject: [PATCH 30/80] fix: temporal Ising and Poisson models shrank the
 estimate by averaging T-1 copies over T

---
 regain/generalized_linear_model/glm_time_ising.py   | 6 ++++--
 regain/generalized_linear_model/glm_time_poisson.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index a473218..3b76bcb 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -136,6 +136,8 @@ def _fit_time_ising_model(
     if kernel is None:
         kernel = np.eye(n_times)
 
+    # every time point is constrained to one copy for each other time point
+    n_copies = max(n_times - 1, 1)
     K = np.zeros((n_times, n_features, n_features))
 
     Z_M = {}
@@ -165,7 +167,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= n_copies
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -182,7 +184,7 @@ def _fit_time_ising_model(
                 compute_objective=True,
                 warm_start=None,
                 rho=rho,
-                T=n_times,
+                T=n_copies,
                 return_history=False,
                 return_n_iter=False,
             )[0]
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index cfa526f..c90392c 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -132,6 +132,8 @@ def _fit_time_poisson_model(
     if kernel is None:
         kernel = np.eye(n_times)
 
+    # every time point is constrained to one copy for each other time point
+    n_copies = max(n_times - 1, 1)
     K = np.zeros((n_times, n_features, n_features))
 
     Z_M = {}
@@ -160,7 +162,7 @@ def _fit_time_poisson_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= n_copies
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -176,7 +178,7 @@ def _fit_time_poisson_model(
                     tol=tol,
                     verbose=inner_verbose,
                     A=A[t, :, :],
-                    T=n_times,
+                    T=n_copies,
                     rho=rho,
                 )
                 thetas_pred.append(res[0])
-- 
2.43.0


From f57fe8560009a2704da5dae346f2f151a08db7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:36 +0000
Subject: [PATCH 31/80] fix: reported objective of the temporal Ising and
 Poisson models had the wrong sign

---
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 3b76bcb..a621135 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index c90392c..02c16eb 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -50,7 +50,7 @@ def loss_poisson(X, K, n_samples=None):
     """Loss function for time-varying poisson model."""
     if n_samples is None:
         n_samples = np.ones(X.shape[0])
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From 493f3578598e31f0a01816a593ee82b6a5cc90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:36 +0000
Subject: [PATCH 32/80] fix: negative counts were not rejected by
 TemporalPoissonModel

---
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 02c16eb..db233a3 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -421,7 +421,7 @@ class TemporalPoissonModel(BaseEstimator):
         self.classes_, n_samples = np.unique(y, return_counts=True)
         X = np.around(X)  # to ensure discreteness
         self.data = X.copy()
-        if np.any(self.data) < 0:
+        if np.any(self.data < 0):
             raise ValueError(
                 "Using the poisson distribution your data has " "to be positive"
             )
-- 
2.43.0


From a6783f7452dd6b36e70c4f82ec583ea74f5fb486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 33/80] fix: temporal Ising and Poisson models penalised a
 single time point towards zero

---
 regain/generalized_linear_model/glm_time_ising.py   | 4 ++--
 regain/generalized_linear_model/glm_time_poisson.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index a621135..19abe87 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -137,7 +137,7 @@ def _fit_time_ising_model(
         kernel = np.eye(n_times)
 
     # every time point is constrained to one copy for each other time point
-    n_copies = max(n_times - 1, 1)
+    n_copies = n_times - 1
     K = np.zeros((n_times, n_features, n_features))
 
     Z_M = {}
@@ -167,7 +167,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_copies
+        A /= max(n_copies, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index db233a3..75608c5 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -133,7 +133,7 @@ def _fit_time_poisson_model(
         kernel = np.eye(n_times)
 
     # every time point is constrained to one copy for each other time point
-    n_copies = max(n_times - 1, 1)
+    n_copies = n_times - 1
     K = np.zeros((n_times, n_features, n_features))
 
     Z_M = {}
@@ -162,7 +162,7 @@ def _fit_time_poisson_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_copies
+        A /= max(n_copies, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
-- 
2.43.0


From bef490ba7af704159450b0c5bc4712032967663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:08 +0000
Subject: [PATCH 34/80] fix: mcc and average precision ignored negative edges

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index a0cabfe..bec8284 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -462,8 +462,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
         y_true = squareform(true, checks=None)
         y_pred = squareform(pred, checks=None)
 
-    average_precision = average_precision_score(y_true > 0, y_pred)
-    mcc = matthews_corrcoef(y_true > 0, y_pred > 0)
+    average_precision = average_precision_score(y_true != 0, np.abs(y_pred))
+    mcc = matthews_corrcoef(y_true != 0, y_pred != 0)
 
     if thresholding:
         pred[np.abs(pred) < eps] = 0
-- 
2.43.0


From 19adf09685b993d00a5194b467255965e2ca78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:35 +0000
Subject: [PATCH 35/80] fix: structure_error divided by zero when there are no
 true edges

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index bec8284..89506d0 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -489,8 +489,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     TP = np.count_nonzero((res == 3).astype(float))
 
     precision = TP / (TP + FP) if TP + FP > 0 else 0
-    recall = TP / (TP + FN)
-    miss_rate = FN / (TP + FN) or 1 - recall
+    recall = TP / (TP + FN) if TP + FN > 0 else 0
+    miss_rate = 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
     accuracy = (TP + TN) / true.size
-- 
2.43.0


From 2a93b99b7c7ac2fbe193792aae823029fb488783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:38 +0000
Subject: [PATCH 36/80] fix: accuracy and prevalence counted the diagonal with
 no_diagonal

---
 regain/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 89506d0..38d3155 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -493,8 +493,9 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     miss_rate = 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
-    accuracy = (TP + TN) / true.size
-    prevalence = (TP + FN) / true.size
+    total = TP + TN + FP + FN
+    accuracy = (TP + TN) / total if total > 0 else 0
+    prevalence = (TP + FN) / total if total > 0 else 0
 
     fall_out = FP / (FP + TN) if (FP + TN) > 0 else 1
     specificity = TN / (FP + TN) if (FP + TN) > 0 else 1.0 - fall_out
-- 
2.43.0


From 1bceb31707b457d8819b9483f331d2706f0f171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:41 +0000
Subject: [PATCH 37/80] fix: mcc and average precision ignored the threshold on
 the prediction

---
 regain/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 38d3155..1cbef55 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -455,6 +455,8 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     # avoid inplace modifications
     true = true.copy()
     pred = pred.copy()
+    if thresholding:
+        pred[np.abs(pred) < eps] = 0
     if true.ndim > 2:
         y_true = np.array(flatten([squareform(x, checks=None) for x in true]))
         y_pred = np.array(flatten([squareform(x, checks=None) for x in pred]))
@@ -465,8 +467,6 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     average_precision = average_precision_score(y_true != 0, np.abs(y_pred))
     mcc = matthews_corrcoef(y_true != 0, y_pred != 0)
 
-    if thresholding:
-        pred[np.abs(pred) < eps] = 0
     tn_to_remove = 0
     if no_diagonal:
         if true.ndim > 2:
-- 
2.43.0


From deba9f189a2527077c5b371e3891a75649cd62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:45 +0000
Subject: [PATCH 38/80] fix: mean_structure_error raised KeyError

---
 regain/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/utils.py b/regain/utils.py
index 1cbef55..aeada02 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -577,6 +577,7 @@ def mean_structure_error(true, preds):
         dor=[],
         balanced_accuracy=[],
         average_precision=[],
+        mcc=[],
     )
     for p in preds:
         res = structure_error(true, p, no_diagonal=True)
-- 
2.43.0


From 3c3ee3ecf27ab045555398a6ad2be27797d8943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:48 +0000
Subject: [PATCH 39/80] fix: convert_data_to_2d failed for classes of different
 sizes

---
 regain/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index aeada02..1f229e2 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -284,11 +284,7 @@ def convert_data_to_2d(data):
     to the class is encoded in y.
     """
     X = np.vstack(data)
-    y = (
-        np.array([np.ones(x.shape[0]) * i for i, x in enumerate(data)])
-        .flatten()
-        .astype(int)
-    )
+    y = np.repeat(np.arange(len(data)), [x.shape[0] for x in data])
     return X, y
 
 
-- 
2.43.0


From ebe6bb5d802331387782eb3f88118db1518f1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:52 +0000
Subject: [PATCH 40/80] fix: write_network wrote a header that read_network
 could not read

---
 regain/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index 1f229e2..af52a4a 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -187,7 +187,7 @@ def load_pickle(filename):
 
 def write_network(dataframe, filename):
     """Write a network as a list of interactions."""
-    dataframe.stack().to_csv(filename)
+    dataframe.stack().to_csv(filename, header=False)
 
 
 def read_network(
-- 
2.43.0


From aad6802238945dd109963706388c5cedb06eed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 41/80] fix: make_dataset failed, or returned an indefinite
 observed precision, when theta - L was not diagonally dominant

---
 regain/datasets/gaussian.py | 6 ++++--
 regain/datasets/kernels.py  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..95be894 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -313,7 +313,8 @@ def make_starting(n_dim_obs=100, n_dim_lat=10, degree=2, normalize=False, eps=1e
     if not is_pos_def(theta):
         theta += np.diag(np.sum(theta, axis=1) + eps)
     if not is_pos_def(theta - L):
-        theta += np.diag(eps + np.diag(L))
+        # make theta - L strictly diagonally dominant
+        theta += np.diag(eps + np.sum(np.abs(theta - L), axis=1))
     assert is_pos_def(theta - L)
     return theta, theta - L, L, K_HO
 
@@ -432,7 +433,8 @@ def make_covariance(
         assert np.linalg.matrix_rank(L) == n_dim_lat
         assert is_pos_semidef(L)
         if not is_pos_def(theta - L):
-            theta += np.diag(epsilon + np.diag(L))
+            # make theta - L strictly diagonally dominant
+            theta += np.diag(epsilon + np.sum(np.abs(theta - L), axis=1))
 
         thetas.append(theta)
         thetas_obs.append(theta - L)
diff --git a/regain/datasets/kernels.py b/regain/datasets/kernels.py
index e2bb269..d1c7005 100644
--- a/regain/datasets/kernels.py
+++ b/regain/datasets/kernels.py
@@ -65,7 +65,7 @@ def make_exp_sine_squared(n_dim_obs=5, n_dim_lat=0, T=1, **kwargs):
             # sparsify
             theta[np.abs(theta) < epsilon] = 0
 
-        theta += np.diag(np.sum(np.abs(theta), axis=1) + 0.01)
+        theta += np.diag(np.sum(np.abs(theta), axis=1) + np.sum(np.abs(L), axis=1) + 0.01)
         K.append(theta)
 
         assert is_pos_def(theta)
-- 
2.43.0


From c7c982ed36c07423ed4294eeeb8904e8d62c8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 42/80] fix: make_sin_cos returned the observed precision of
 the last time only

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 95be894..292b2f9 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -536,6 +536,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
     clip[upper_idx[::-1]] = clip[upper_idx] = clip1
 
     thetas = np.array([np.eye(n_dim_obs) for i in range(T)])
+    thetas_obs = []
 
     x = np.linspace(0, 2 * np.pi, T)
     for i in range(T):
@@ -553,7 +554,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         assert is_pos_def(thetas[i])
         theta_observed = thetas[i] - L
         assert is_pos_def(theta_observed)
-        thetas_obs = [theta_observed]
+        thetas_obs.append(theta_observed)
 
     return thetas, thetas_obs, np.array([L] * T)
 
-- 
2.43.0


From 884dc115bd12d3d7e2a75ccd7e9052fb6494de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 43/80] fix: make_sin could return singular precisions and
 ignored normalize

---
 regain/datasets/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 292b2f9..3120242 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -503,13 +503,14 @@ def make_sin(
 
     Y = np.array(
         [
-            squareform(y[:, j]) + np.diag(np.sum(squareform(y[:, j]), axis=1))
+            squareform(y[:, j]) + np.diag(np.sum(squareform(y[:, j]), axis=1) + 0.01)
             for j in range(y.shape[1])
         ]
     )
 
     if normalize:
-        map(normalize_matrix, Y)  # in place
+        for matrix in Y:
+            normalize_matrix(matrix)  # in place
     # assert positive_definite(Y)
     ensure_posdef(Y)
 
-- 
2.43.0


From 3634d751d5159735f7416fceaaf9c885f99cbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 44/80] fix: make_fixed_sparsity changed the sparsity pattern
 at every time

---
 regain/datasets/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 3120242..f07d57c 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -455,7 +455,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
 
     theta = np.abs(theta)
     theta_observed = theta - L
-    nonzeros = np.nonzero(theta - np.diag(theta))
+    nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
     thetas = [theta]
     thetas_obs = [theta_observed]
@@ -472,7 +472,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         theta.flat[:: n_dim_obs + 1] = (
             np.sum(np.abs(theta), axis=1) + np.sum(np.abs(L), axis=1) + 0.1
         )
-        nonzeros = np.nonzero(theta - np.diag(theta))
+        nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
         theta_observed = theta - L
         assert is_pos_def(theta_observed)
-- 
2.43.0


From 68313d5f792e4549ed009c46aa4a5c1516324135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:02 +0000
Subject: [PATCH 45/80] fix: make_ma_xue_zou_rand_k discarded the positive
 definite precision it had built

---
 regain/datasets/gaussian.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index f07d57c..19f13d5 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -682,7 +682,6 @@ def make_ma_xue_zou_rand_k(
 
     # A is the gound truth inverse covariance matrix
     K = A.dot(A.T) + 1e-6 * np.eye(p)
-    K = A
     K_O = K[:po, :po]
     K_OH = K[:po, po:]
     K_HO = K[po:, :po]
-- 
2.43.0


From 7ae72cc5a3fc61300159c913c81343c59410c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:30 +0000
Subject: [PATCH 46/80] fix: make_dataset(mode='my') could not unpack the
 generated precisions

---
 regain/datasets/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/base.py b/regain/datasets/base.py
index c52af4b..22a2bcc 100644
--- a/regain/datasets/base.py
+++ b/regain/datasets/base.py
@@ -53,6 +53,12 @@ from regain.datasets.poisson import poisson_sampler
 from regain.datasets.poisson import poisson_theta_generator
 
 
+def _make_meinshausen_yuan(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
+    """Precisions of `data_Meinshausen_Yuan`, in the order used by the other modes."""
+    _, thetas, thetas_obs, _, latent, _ = data_Meinshausen_Yuan(p=n_dim_obs, h=n_dim_lat, T=T, **kwargs)
+    return thetas, thetas_obs, [latent.T.dot(latent)] * T
+
+
 def _gaussian_case(
     n_samples=100,
     n_dim_obs=100,
@@ -70,7 +76,7 @@ def _gaussian_case(
     **kwargs
 ):
     modes = dict(
-        my=data_Meinshausen_Yuan,
+        my=_make_meinshausen_yuan,
         mys=data_Meinshausen_Yuan_sparse_latent,
         sin=make_sin,
         fixed_sparsity=make_fixed_sparsity,
-- 
2.43.0


From f6cf557432cf205faf065904daae5527b891c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:30 +0000
Subject: [PATCH 47/80] fix: make_sparse_low_rank returned an asymmetric
 low-rank part and indefinite precisions

---
 regain/datasets/gaussian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 19f13d5..b2be244 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -601,16 +601,21 @@ def make_sparse_low_rank(n_dim_obs=3, n_dim_lat=2, T=10, epsilon=1e-3, **kwargs)
     """Generate dataset (new new version)."""
     from sklearn.datasets import make_sparse_spd_matrix, make_low_rank_matrix
 
-    K = make_sparse_spd_matrix(n_dim_obs)
-    L = make_low_rank_matrix(n_dim_obs, n_dim_obs, effective_rank=n_dim_lat)
+    def _low_rank():
+        factor = make_low_rank_matrix(n_dim_obs, n_dim_lat, effective_rank=n_dim_lat)
+        return factor.dot(factor.T)
+
+    L = _low_rank()
+    K = make_sparse_spd_matrix(n_dim_obs) + np.diag(np.sum(np.abs(L), axis=1))
 
     Ks = [K]
     Ls = [L]
     Kobs = [K - L]
 
     for i in range(1, T):
-        K = K + make_sparse_spd_matrix(n_dim_obs)
-        L = L + make_low_rank_matrix(n_dim_obs, n_dim_obs, effective_rank=n_dim_lat)
+        L_new = _low_rank()
+        K = K + make_sparse_spd_matrix(n_dim_obs) + np.diag(np.sum(np.abs(L_new), axis=1))
+        L = L + L_new
 
         # assert is_pos_def(K - L)
         # assert is_pos_semidef(L)
-- 
2.43.0


From d8af56ed2a007d9b7573ea3ee3ed31454fd92fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 48/80] fix: l1 updates of Ising and Poisson networks wrote
 self-loops and changed more edges than asked

---
 regain/datasets/ising.py   | 6 +++---
 regain/datasets/poisson.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..006de4c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -44,9 +44,9 @@ def update_ising_l1(theta_init, no, n_dim_obs, responses=[-1, 1]):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, no)
         cols = np.random.randint(0, n_dim_obs, no)
-        for r, c in zip(rows, cols):
-            theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
-            theta[c, r] = theta[r, c]
+    for r, c in zip(rows, cols):
+        theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
+        theta[c, r] = theta[r, c]
     assert np.all(theta == theta.T)
     return theta
 
diff --git a/regain/datasets/poisson.py b/regain/datasets/poisson.py
index be405e7..9f867ae 100644
--- a/regain/datasets/poisson.py
+++ b/regain/datasets/poisson.py
@@ -41,9 +41,9 @@ def update_l1(G, how_many, n_dim_obs):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, how_many)
         cols = np.random.randint(0, n_dim_obs, how_many)
-        for r, c in zip(rows, cols):
-            G[r, c] = np.random.choice([0, G[r, c]])
-            G[c, r] = G[r, c]
+    for r, c in zip(rows, cols):
+        G[r, c] = np.random.choice([0, G[r, c]])
+        G[c, r] = G[r, c]
     assert np.all(G == G.T)
     return G
 
-- 
2.43.0


From 46271845a1ed03907cbaa68557f277a07d388fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 49/80] fix: direct Ising sampling used ten variables, counted
 each pair twice and drew without replacement

---
 regain/datasets/ising.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 006de4c..934f05a 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -138,7 +138,7 @@ def hamiltonian(theta, state, thresholds):
     n = theta.shape[0]
     for i in range(n):
         res -= thresholds[i] * state[i]
-        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(n) if j != i])
+        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(i + 1, n)])
 
     return res
 
@@ -152,11 +152,11 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
 
     np.fill_diagonal(theta, 0)
 
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
-    ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
-    return [states[i] for i in ixs]
+    ixs = np.random.choice(np.arange(0, len(states)), n, replace=True, p=probabilities)
+    return np.array([states[i] for i in ixs])
 
 
 def p_plus_minmax(i, theta, state, thresholds, beta, responses):
-- 
2.43.0


From e36f1a3afe31608df1b5af5710e368acafd3bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 50/80] fix: ising_sampler returned a vector for a single
 sample

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 934f05a..37278f5 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -335,7 +335,7 @@ def ising_sampler(
 
     # Metropolis Hastings
     elif method.upper() == "MH":
-        res = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])
+        res = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])[None, :]
         for s in range(1, n):
             state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])
             res = np.vstack((res, state))
-- 
2.43.0


From da04124fee930921e3dc87a693e0624c70bc2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 51/80] fix: multi-class networks changed the same entry again
 and again, possibly on the diagonal

---
 regain/datasets/multi_class.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index 7e95977..cd0f5e0 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -146,7 +146,7 @@ def generate_multiple_class_dataset(
         graph = nx.random_graphs.erdos_renyi_graph(n=n_dim_obs, p=probability, seed=random_state)
 
     binaries = [nx.adjacency_matrix(graph).todense()]
-    zeros = np.where(binaries[0] == 0)
+    zeros = np.where(binaries[0] + np.eye(n_dim_obs) == 0)
     nonzero = np.where(binaries[0] != 0)
     to_add = int(0.1 * zeros[0].shape[0])
     to_remove = int(0.1 * nonzero[0].shape[0])
@@ -156,12 +156,12 @@ def generate_multiple_class_dataset(
         _to_remove = np.random.choice(np.arange(nonzero[0].shape[0]), to_remove, replace=False)
         for ta in _to_add:
             a = np.random.choice([0, 1], p=[0.2, 0.8])
-            K_new[zeros[0][i], zeros[1][i]] = a
-            K_new[zeros[1][i], zeros[0][i]] = a
+            K_new[zeros[0][ta], zeros[1][ta]] = a
+            K_new[zeros[1][ta], zeros[0][ta]] = a
         for ta in _to_remove:
             a = np.random.choice([0, 1], p=[0.8, 0.2])
-            K_new[nonzero[0][i], nonzero[1][i]] = a
-            K_new[nonzero[1][i], nonzero[0][i]] = a
+            K_new[nonzero[0][ta], nonzero[1][ta]] = a
+            K_new[nonzero[1][ta], nonzero[0][ta]] = a
         binaries.append(K_new)
 
     res = {}
-- 
2.43.0


From afc834d942ed733810f76bfd3d40abd10b92a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 52/80] fix: multi-class Gaussian networks could be indefinite

---
 regain/datasets/multi_class.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index cd0f5e0..47873b9 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -34,6 +34,7 @@ from sklearn.utils import Bunch
 
 from regain.datasets.ising import ising_sampler
 from regain.datasets.poisson import poisson_sampler
+from regain.utils import ensure_posdef
 
 
 def make_multiclass_dataset(
@@ -172,6 +173,7 @@ def generate_multiple_class_dataset(
         for b, k in zip(binaries, Ks_gaussian):
             k[np.where(b != 0)] = A[np.where(b != 0)]
             np.fill_diagonal(k, 1)
+            ensure_posdef(k)
         res["gaussian"] = Ks_gaussian
 
     if "poisson" in distribution:
-- 
2.43.0


From c2e333d072a273f2d5582cfe822034ceb0a4992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:01 +0000
Subject: [PATCH 53/80] fix: missing-data graphical lasso summed instead of
 averaging and rescaled the imputed values and the covariance

---
 regain/covariance/missing_graphical_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index bada4f4..1037cc5 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -58,7 +58,7 @@ def compute_empirical_covariance(X, K, cs):
                 else:
                     emp_cov[i, v, s] = aux[i, v] * aux[i, s]
     emp_cov = np.sum(emp_cov, axis=0)
-    return emp_cov / np.max(emp_cov)
+    return emp_cov / X.shape[0]
 
 
 def compute_cs(means, K, X):
@@ -70,13 +70,13 @@ def compute_cs(means, K, X):
         xxm1, yyo = np.meshgrid(obs, nans)
         KK = np.linalg.pinv(K[xxm, yym]).dot(K[xxm1, yyo])
         cs[i, nans] = means[nans] - KK.dot(X[i, obs].T - means[obs])
-    return cs / max(np.max(np.abs(cs)), 1)
+    return cs
 
 
 def compute_mean(X, cs):
     aux = np.nan_to_num(np.copy(X))
     aux += cs
-    return np.sum(aux, axis=0)
+    return np.mean(aux, axis=0)
 
 
 def missing_graphical_lasso(
-- 
2.43.0


From 92dd309d8e840208932f09f2ef22ae8572f20c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:34 +0000
Subject: [PATCH 54/80] fix: stability selection could not be run with the
 supported scikit-learn

---
 .../model_selection/stability_optimization.py | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 096dcf0..1e4f7c1 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -41,7 +41,7 @@ from numpy.ma import MaskedArray
 from scipy.special import binom
 from scipy.stats import rankdata
 from sklearn.base import clone, is_classifier
-from sklearn.metrics._scorer import _check_multimetric_scoring
+from sklearn.metrics._scorer import _check_multimetric_scoring, check_scoring
 from sklearn.model_selection import GridSearchCV, StratifiedShuffleSplit
 from sklearn.model_selection._split import check_cv
 from sklearn.model_selection._validation import _aggregate_score_dicts, _fit_and_score
@@ -280,7 +280,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         cv="warn",
         verbose=0,
         pre_dispatch="2*n_jobs",
-        error_score="raise-deprecating",
+        error_score=np.nan,
         mode="stars",
         return_train_score=False,
         n_repetitions=10,
@@ -290,7 +290,6 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             estimator=estimator,
             scoring=scoring,
             n_jobs=n_jobs,
-            iid=iid,
             refit=refit,
             cv=StratifiedShuffleSplit(train_size=sampling_size, n_splits=n_repetitions),
             verbose=verbose,
@@ -299,6 +298,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             return_train_score=return_train_score,
             param_grid=param_grid,
         )
+        self.iid = iid
         self.mode = mode
         self.n_repetitions = n_repetitions
         self.sampling_size = sampling_size
@@ -343,9 +343,15 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             y = np.ones(X.shape[0])
         cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
 
-        scorers, self.multimetric_ = _check_multimetric_scoring(
-            self.estimator, scoring=self.scoring
+        self.multimetric_ = not (
+            self.scoring is None
+            or isinstance(self.scoring, str)
+            or callable(self.scoring)
         )
+        if self.multimetric_:
+            scorers = _check_multimetric_scoring(self.estimator, self.scoring)
+        else:
+            scorers = {"score": check_scoring(self.estimator, self.scoring)}
 
         if self.multimetric_:
             if (
@@ -489,24 +495,15 @@ class GraphicalModelStabilitySelection(GridSearchCV):
     def _format_results(self, candidate_params, scorers, n_splits, out):
         n_candidates = len(candidate_params)
 
+        # each item of "out" is the dictionary of the results of one fit
+        test_score_dicts = [o["test_scores"] for o in out]
+        test_sample_counts = [o["n_test_samples"] for o in out]
+        fit_time = [o["fit_time"] for o in out]
+        score_time = [o["score_time"] for o in out]
+        estimators = [o["estimator"] for o in out]
         # if one choose to see train score, "out" will contain train score info
         if self.return_train_score:
-            (
-                train_score_dicts,
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
-        else:
-            (
-                test_score_dicts,
-                test_sample_counts,
-                fit_time,
-                score_time,
-                estimators,
-            ) = zip(*out)
+            train_score_dicts = [o["train_scores"] for o in out]
 
         # test_score_dicts and train_score dicts are lists of dictionaries and
         # we make them into dict of lists
@@ -568,7 +565,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         results["params"] = candidate_params
 
         # NOTE test_sample counts (weights) remain the same for all candidates
-        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=np.int)
+        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=int)
 
         if self.iid != "deprecated":
             warnings.warn(
-- 
2.43.0


From b481fbfaf09e59a001d68fd9adea217b290baf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:34 +0000
Subject: [PATCH 55/80] fix: monotonized instabilities were shifted by one, an
 unstable parameter could be selected

---
 regain/model_selection/stability_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 1e4f7c1..f0188d3 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -596,7 +596,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         # from high sparsity to low
 
         monotonized_instabilities = [array_means[0]] + [
-            np.max(array_means[:i]) for i in range(1, array_means.size)
+            np.max(array_means[: i + 1]) for i in range(1, array_means.size)
         ]
         monotonized_instabilities = np.array(monotonized_instabilities)
         self.monotonized_instabilities = np.copy(monotonized_instabilities)
@@ -609,7 +609,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
 
             upper_bounds = np.array([upper_bound(e_split) for e_split in estimators])
             upper_bounds = [upper_bounds[0]] + [
-                np.max(upper_bounds[:i]) for i in range(1, upper_bounds.size)
+                np.max(upper_bounds[: i + 1]) for i in range(1, upper_bounds.size)
             ]
             self.upper_bounds = np.array(upper_bounds)
             lb = np.where(np.array(monotonized_instabilities) <= 0.05)[0]
-- 
2.43.0


From adee2380009e645cdbcf955ad07acc864ee5bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:39 +0000
Subject: [PATCH 56/80] fix: stability selection kept the sampling size of the
 data it was first fitted on

---
 .../model_selection/stability_optimization.py | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index f0188d3..d75fcc9 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -322,26 +322,28 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         """
         estimator = self.estimator
 
-        if self.sampling_size is None:
-            self.sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
-            self.cv = StratifiedShuffleSplit(
-                train_size=self.sampling_size, n_splits=self.n_repetitions
+        cv = self.cv
+        sampling_size = self.sampling_size
+        if sampling_size is None:
+            sampling_size = int(min(10 * np.sqrt(X.shape[0]), X.shape[0] - 10))
+            cv = StratifiedShuffleSplit(
+                train_size=sampling_size, n_splits=self.n_repetitions
             )
         if y is not None:
             n_classes = np.unique(y).shape[0]
-            if self.sampling_size % n_classes != 0:
+            if sampling_size % n_classes != 0:
                 warnings.warn(
                     "Changing sampling size, divisible for the " "number of classes."
                 )
-                self.sampling_size = (self.sampling_size // n_classes) * n_classes
-                self.cv = StratifiedShuffleSplit(
+                sampling_size = (sampling_size // n_classes) * n_classes
+                cv = StratifiedShuffleSplit(
                     n_splits=self.n_repetitions,
-                    train_size=self.sampling_size,
-                    test_size=X.shape[0] - self.sampling_size,
+                    train_size=sampling_size,
+                    test_size=X.shape[0] - sampling_size,
                 )
         else:
             y = np.ones(X.shape[0])
-        cv = check_cv(self.cv, y, classifier=is_classifier(estimator))
+        cv = check_cv(cv, y, classifier=is_classifier(estimator))
 
         self.multimetric_ = not (
             self.scoring is None
-- 
2.43.0


From 035d7771a804d9e5970dfe41adf0fe9bbfdac53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 57/80] fix: discriminant analysis with ensure_posdef overwrote
 the precision of its estimator

---
 regain/discriminant_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index e840324..d057d17 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -135,7 +135,8 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
 
         if self.ensure_posdef:
-            # replace diagonal
+            # replace diagonal, leaving the fitted estimator as it is
+            self.precision_ = np.array(self.precision_)
             ensure_posdef(self.precision_, inplace=True)
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
         self.means_ = self.estimator.location_
-- 
2.43.0


From a3887b145ed0fa5c447c7a921c07318ff23aa5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 58/80] fix: discriminant analysis failed with precomputed
 precisions

---
 regain/discriminant_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regain/discriminant_analysis.py b/regain/discriminant_analysis.py
index d057d17..5e556c7 100644
--- a/regain/discriminant_analysis.py
+++ b/regain/discriminant_analysis.py
@@ -139,7 +139,10 @@ class DiscriminantAnalysis(QuadraticDiscriminantAnalysis):
             self.precision_ = np.array(self.precision_)
             ensure_posdef(self.precision_, inplace=True)
             self.covariance_ = np.array([linalg.pinvh(p) for p in self.precision_])
-        self.means_ = self.estimator.location_
+        if hasattr(self.estimator, "location_"):
+            self.means_ = self.estimator.location_
+        else:
+            self.means_ = np.array([X[y == ind].mean(0) for ind in range(n_classes)])
         return self
 
     @deprecated("it will be removed in v0.2.0. Use `_decision_function` instead")
-- 
2.43.0


From ecf2dbd067e75e937bb641283f0725c411e8037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 59/80] fix: maximum likelihood precision given a graph failed
 or left the positive definite cone

---
 regain/bayesian/gwishart_inference.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 494d585..8f134cc 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -45,6 +45,7 @@ from sklearn.utils import Bunch, check_array
 from sklearn.utils.extmath import fast_logdet
 
 from regain.covariance.graphical_lasso_ import GraphicalLasso, graphical_lasso
+from regain.utils import positive_definite
 
 
 def mk_all_ugs(n_dim):
@@ -140,19 +141,22 @@ def covsel(x, p, nonZero, C):
 
     # Fast Way to compute -logdet(X) + tr(X*C)
     # f = -2*sum(log(diag(R))) + sum(sum(C.*X)) + (lambda/2)*sum(X(:).^2);
-    f = -fast_logdet(X) + np.sum(C * X)
+    f = -fast_logdet(X) + np.sum(C * X) if positive_definite(X) else np.inf
 
     if f < np.inf:
         g = C - linalg.pinvh(X)
         g += np.tril(g, -1).T  # add contribution from lower to upper triangle
         g = g[nonZero]
     else:
-        g = 0
+        g = np.zeros_like(x)
     return f, g
 
 
 def precision_selection(G, n_dim, C):
     """MLE of precision matrix given non-zero entries in G."""
+    # work on unit variances, where the identity is a sensible starting point
+    scale = np.sqrt(np.diag(C))
+    C = C / np.outer(scale, scale)
     function = partial(covsel, p=n_dim, nonZero=G, C=C)
 
     x0 = np.eye(n_dim)
@@ -162,7 +166,7 @@ def precision_selection(G, n_dim, C):
     XX = np.zeros((n_dim, n_dim))
     XX[G] = x
     XX += np.triu(XX, 1).T
-    return XX
+    return XX / np.outer(scale, scale)
 
 
 def GWishartFit(X, G, GWprior, mode="covsel"):
-- 
2.43.0


From d5e467de842229f88d1f2b132b00d65de567a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 60/80] fix: Laplace scores of a G-Wishart failed because the
 prior has no data

---
 regain/bayesian/gwishart_inference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 8f134cc..698b91e 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -186,8 +186,10 @@ def GWishartFit(X, G, GWprior, mode="covsel"):
     dn = n_samples + d0
 
     # X'*X - but I dont assume X to be centered
-    emp_cov = empirical_covariance(X)
-    S = n_samples * emp_cov
+    if n_samples > 0:
+        S = n_samples * empirical_covariance(X)
+    else:
+        S = np.zeros((n_dim, n_dim))
     C = (S + S0) / (dn - 2)
 
     if mode == "covsel":
-- 
2.43.0


From d79e294f0dc65ab1fdb8eb00333d76d296c5d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:49 +0000
Subject: [PATCH 61/80] fix: default scale matrix of the G-Wishart prior had
 one row per sample

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 698b91e..0ae11fc 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -331,7 +331,7 @@ def GWishartScore(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
     # %Initialize GW prior structure
     n_samples, n_dim = X.shape
     if S0 is None:
-        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, bias=True)))
+        S0 = (d0 - 2) * np.diag(np.var(X, axis=0))
 
     GWprior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
 
-- 
2.43.0


From 4138870062ad695f6e39ebde7ffeae4fd3727f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:49 +0000
Subject: [PATCH 62/80] fix: Laplace approximation added the trace term of the
 G-Wishart density instead of subtracting it

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 0ae11fc..cb8bef5 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -237,7 +237,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
 
     # % the posterior Sn parameter
     # Sn = (dn - 2) * invP
-    logh = (dn - 2) / 2.0 * (n_dim + logdetP)
+    logh = (dn - 2) / 2.0 * (logdetP - n_dim)
 
     # find full param set V
     Vi, Vj = np.nonzero(np.triu(G))
-- 
2.43.0


From 97717d10a0a6dc855dc7df5e33787b803273bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:19 +0000
Subject: [PATCH 63/80] fix: BayesianGraphicalLasso did not set covariance_ and
 location_, so it could not be scored

---
 regain/bayesian/gwishart_inference.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index cb8bef5..b9b03a9 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -513,4 +513,9 @@ class BayesianGraphicalLasso(GraphicalLasso):
             max_iter=self.max_iter,
             top_n=self.top_n,
         )
+        self.covariance_ = linalg.pinvh(self.precision_)
+        if self.assume_centered:
+            self.location_ = np.zeros(X.shape[1])
+        else:
+            self.location_ = X.mean(0)
         return self
-- 
2.43.0


From 1b064b7857e644cfb38345f405c191f45decd826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 64/80] fix: a Wishart distribution could not be sampled

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 523c2bc..68f213b 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -79,7 +79,7 @@ class WishartDistribution(BaseEstimator):
     def sample(self, n_samples=1):
         # return distributions.rwishart(self.nu, self.psi)
         # return distributions.rwishart(self.nu, self.inv_psi)
-        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)
+        return stats.wishart.rvs(df=self.nu, scale=self.S, size=n_samples)
 
 
 class InverseWishartDistribution(WishartDistribution):
-- 
2.43.0


From 9dc1e39728b6d99f1b5b7d60e5fbd4f85658b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 65/80] fix: posterior of a normal-inverse-Wishart had a
 two-dimensional mean and could not be sampled or evaluated

---
 regain/bayesian/wishart_distribution_.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 68f213b..9fdaff0 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -216,15 +216,12 @@ class NormalInverseWishartDistribution(InverseWishartDistribution):
         k_0 = self.kappa
         k_n = k_0 + n
 
-        m_0 = self.mu
+        m_0 = np.ravel(self.mu)
         m_n = (k_0 * m_0 + n * mean) / k_n
 
-        m_0 = np.atleast_2d(m_0)
-        m_n = np.atleast_2d(m_n)
-
         # mm = np.atleast_2d(mean - m_0)
         # psi_n_v1 = self.psi + S_mu + k_0 * n / k_n * mm.T.dot(mm)
-        S_n = self.S + S + k_0 * m_0.T.dot(m_0) - k_n * m_n.T.dot(m_n)
+        S_n = self.S + S + k_0 * np.outer(m_0, m_0) - k_n * np.outer(m_n, m_n)
 
         return NormalInverseWishartDistribution(m_n, k_n, nu_n, S_n)
 
-- 
2.43.0


From 885d1326e37bcaab5fae8797c3fa6a0b3998f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 66/80] fix: likelihood of a normal-inverse-Wishart could not
 be evaluated

---
 regain/bayesian/wishart_distribution_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 9fdaff0..bbe6b27 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -182,6 +182,9 @@ class NormalInverseWishartDistribution(InverseWishartDistribution):
 
         return logl
 
+    def likelihood(self, mu, X):
+        return np.exp(self.log_likelihood(mu, X))
+
     @property
     def mode(self):
         """Mode of the distribution (Murphy, pag 134)."""
-- 
2.43.0


From d36e00a88cae4ec7d9a91c1862428a1927afd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 67/80] fix: temporal Gaussian log-likelihood multiplied every
 time by its number of samples

---
 regain/bayesian/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/stats.py b/regain/bayesian/stats.py
index 2250061..176d33e 100644
--- a/regain/bayesian/stats.py
+++ b/regain/bayesian/stats.py
@@ -80,7 +80,7 @@ def t_mvn_logpdf(X, Cov):
         Tensor of covariance matrices over time.
     """
     logp = sum(
-        x.shape[0] * multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)
+        np.sum(multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True)) for x, Sigma in zip(X, Cov.T)
     )
     if not isinstance(logp, float):
         logp = sum(logp)
-- 
2.43.0


From 9ddb6cf78ef9c07457a7f5cf78bb0b8d5f52c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 68/80] fix: every sample of the scale factor of a Wishart
 process was the last one

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..5b04312 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From 37480eb17ed0079e1a3555d6fc987c2a7f05f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 69/80] fix: Wishart process sampled singular covariances with
 likelihood zero

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 5b04312..97d904e 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -302,7 +302,7 @@ class WishartProcess(TimeGraphicalLasso):
             kern = _periodic_kernel
 
         self.likelihood = partial(t_mvn_logpdf, X_center)
-        self.nu_ = 1
+        self.nu_ = n_dimensions + 1
         L = None
         if not self.learn_ell:
             cov = empirical_covariance(X)
-- 
2.43.0


From a07a1d142ce6bf260ac6cfef15144a8b698f20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 70/80] fix: a Wishart process could not be scored on classes
 of different sizes

---
 regain/bayesian/wishart_process_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 97d904e..debe5c8 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -387,8 +387,8 @@ class WishartProcess(TimeGraphicalLasso):
             estimator=self,
         )
 
-        X_center = np.array(
-            [X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)]
-        )
+        X_center = [
+            X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)
+        ]
         logp = t_mvn_logpdf(X_center, self.D_map)
         return logp
-- 
2.43.0


From 3114e0f399ce1deec63eeebcb138702c63815c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 71/80] fix: parameters of WishartProcess could not be read or
 changed

---
 regain/bayesian/wishart_process_.py | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index debe5c8..6ac4f59 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -239,28 +239,22 @@ class WishartProcess(TimeGraphicalLasso):
         learn_ell=True,
     ):
         self.n_iter = n_iter
-        self.burn_in = n_iter // 4 if burn_in is None else burn_in
+        self.burn_in = burn_in
         self.verbose = verbose
         self.assume_centered = assume_centered
 
         # parameter initialisation
         self.theta = theta  # Inverse width
         self.var_prop = var_prop
-        # self.mu_prior = mu_prior
-        # self.var_prior = var_prior
+        self.mu_prior = mu_prior
+        self.var_prior = var_prior
 
         self.var_Lprop = var_Lprop
-        # self.mu_Lprior = mu_Lprior
-        # self.var_Lprior = var_Lprior
+        self.mu_Lprior = mu_Lprior
+        self.var_Lprior = var_Lprior
         self.kernel = kernel
         self.learn_ell = learn_ell
 
-        mu_prior, sigma_prior = lognstat(mu_prior, var_prior)
-        self.prior_theta_kernel = stats.lognorm(
-            loc=0, s=sigma_prior, scale=np.exp(mu_prior)
-        )
-        self.prior_ell = stats.norm(loc=mu_Lprior, scale=np.sqrt(var_Lprior))
-
     def fit(self, X, y):
         """Fit the WishartProcess model to X.
 
@@ -282,6 +276,13 @@ class WishartProcess(TimeGraphicalLasso):
             estimator=self,
         )
 
+        mu_prior, sigma_prior = lognstat(self.mu_prior, self.var_prior)
+        self.prior_theta_kernel = stats.lognorm(
+            loc=0, s=sigma_prior, scale=np.exp(mu_prior)
+        )
+        self.prior_ell = stats.norm(loc=self.mu_Lprior, scale=np.sqrt(self.var_Lprior))
+        burn_in = self.n_iter // 4 if self.burn_in is None else self.burn_in
+
         n_dimensions = X.shape[1]
         self.classes_, n_samples = np.unique(y, return_counts=True)
         n_times = self.classes_.size
@@ -333,9 +334,9 @@ class WishartProcess(TimeGraphicalLasso):
             samples_u, loglikes, lps = out
 
         # Burn in
-        self.lps_after_burnin = lps[self.burn_in:]
-        self.samples_u_after_burnin = samples_u[self.burn_in:]
-        self.loglikes_after_burnin = loglikes[self.burn_in:]
+        self.lps_after_burnin = lps[burn_in:]
+        self.samples_u_after_burnin = samples_u[burn_in:]
+        self.loglikes_after_burnin = loglikes[burn_in:]
 
         # % Select the best hyperparameters based on the loglikes_after_burnin
         pos = np.argmax(self.loglikes_after_burnin)
@@ -343,7 +344,7 @@ class WishartProcess(TimeGraphicalLasso):
         self.u_map = self.samples_u_after_burnin[pos]
 
         if self.learn_ell:
-            self.Ls_after_burnin = Ls[self.burn_in:]
+            self.Ls_after_burnin = Ls[burn_in:]
             self.Lmap = self.Ls_after_burnin[pos]
         else:
             self.Lmap = L
-- 
2.43.0


From d8066cd357c9bd795e992215bf74ca2aa1791b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 72/80] fix: elliptical slice sampling did not leave the
 posterior invariant

---
 regain/bayesian/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/sampling.py b/regain/bayesian/sampling.py
index 5650d05..53f6a20 100644
--- a/regain/bayesian/sampling.py
+++ b/regain/bayesian/sampling.py
@@ -104,7 +104,7 @@ def elliptical_slice(current_state, prior, likelihood=None, angle_range=0, max_i
             raise ValueError("Prior must be given by a D-element sample " "or DxD chol(Sigma)")
         nu = np.reshape(prior.T.dot(np.random.normal(size=D)), initial_theta.shape)
 
-    hh = 0.001 * np.log(np.random.uniform()) + current_logp
+    hh = np.log(np.random.uniform()) + current_logp
 
     #  Set up a bracket of angles and pick a first proposal.
     #  "phi = (theta'-theta)" is a change in angle.
-- 
2.43.0


From fccd21fd0f93a4f04b89ae0033fedb18ffe89c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 73/80] fix: kernel hyperparameter of a Wishart process was
 sampled around the mean of the sample instead of the prior mean

---
 regain/bayesian/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/sampling.py b/regain/bayesian/sampling.py
index 53f6a20..328dfce 100644
--- a/regain/bayesian/sampling.py
+++ b/regain/bayesian/sampling.py
@@ -176,7 +176,7 @@ def sample_hyper_kernel(initial_theta, var_proposal, ustack, kern, prior_distr):
     # Criterion to choose whether to accept the proposed sample or not
     def logp_post(inverse_width):
         K = kern(inverse_width=inverse_width)
-        logp = stats.multivariate_normal(ustack.mean(axis=0), cov=K, allow_singular=True).logpdf(ustack).sum()
+        logp = stats.multivariate_normal(np.zeros(ustack.shape[1]), cov=K, allow_singular=True).logpdf(ustack).sum()
         logp_prior = prior_distr.logpdf(inverse_width)
         return logp + logp_prior
 
-- 
2.43.0


From 6d7b9d411749f4fc3d944e674ff78cb65090c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 74/80] fix: Wishart process reused one prior sample and
 discarded its state with the kernel parameter

---
 regain/bayesian/wishart_process_.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 6ac4f59..5c2b311 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -110,6 +110,14 @@ def fit(
         # We first do ESS to obtain a new sample for u
         pbar.set_description("loss: {:.3e}".format(current_state.log_likelihood))
 
+        # which needs an independent sample from the prior at each iteration
+        while True:
+            try:
+                umat = sample_gp(K, nu=nu, p=p)
+                break
+            except Exception:
+                K += 1e-8 * np.eye(K.shape[0])
+
         current_state = elliptical_slice(current_state, umat, likelihood=likelihood)
 
         # We now do MH for sampling the hyperparameter of the kernel
@@ -124,17 +132,6 @@ def fit(
         if accept:
             # new kernel parameter, recompute
             K = kern(inverse_width=theta)
-            while True:
-                try:
-                    umat = sample_gp(K, nu=nu, p=p)
-                    break
-                except Exception:
-                    K += 1e-8 * np.eye(K.shape[0])
-
-            current_state["xx"] = umat
-            current_state["log_likelihood"] = likelihood(
-                GWP_construct(umat, current_state["L"])
-            )
 
         # We now do MH for sampling the elements in the matrix L
         # spherical normal prior, element uncorrelated
-- 
2.43.0


From f48e514316fc0bee47817deea93b3adac9d524f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:35 +0000
Subject: [PATCH 75/80] fix: similarity models clustered the most different
 times together

AgglomerativeClustering with a precomputed matrix merges the entries with the
smallest distances, but was given similarities.
---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/kernel_time_graphical_lasso_.py        | 2 +-
 regain/generalized_linear_model/glm_time_ising.py        | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index e45aa69..9297fd0 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -775,7 +775,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
-                ).fit_predict(kernel_psi)
+                ).fit_predict(1 - kernel_psi)
                 if (
                     i > 0
                     and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 8032b4a..cd933ae 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -729,7 +729,7 @@ class SimilarityTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
-                ).fit_predict(kernel)
+                ).fit_predict(1 - kernel)
                 if (
                     i > 0
                     and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index 19abe87..16f3757 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -738,7 +738,7 @@ class SimilarityTemporalIsingModel(TemporalIsingModel):
                     n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
-                ).fit_predict(kernel)
+                ).fit_predict(1 - kernel)
 
                 if (
                     i > 0
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 75608c5..9e82a67 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -714,7 +714,7 @@ class SimilarityTemporalPoissonModel(TemporalPoissonModel):
                     n_clusters=n_clusters,
                     affinity="precomputed",
                     linkage="complete",
-                ).fit_predict(kernel)
+                ).fit_predict(1 - kernel)
                 if (
                     i > 0
                     and np.linalg.norm(labels_pred - labels_pred_old) / labels_pred.size
-- 
2.43.0


From fc50de519665db8c4e1019067d96f6f78449fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 76/80] fix: kernel of graph_k_means was NaN for graphs equal
 to every representative

---
 regain/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/clustering.py b/regain/clustering.py
index 107847b..11d790a 100644
--- a/regain/clustering.py
+++ b/regain/clustering.py
@@ -66,7 +66,8 @@ def graph_k_means(graphs, k, max_iter=10):
     labels_prev = [-1] * len(graphs)
     for iter_ in range(max_iter):
         distances = compute_distances(graphs, repres)
-        normalized_distances = distances / np.max(distances, axis=1)[:, np.newaxis]
+        max_distances = np.max(distances, axis=1)[:, np.newaxis]
+        normalized_distances = distances / np.where(max_distances > 0, max_distances, 1)
         similarities = 1 - normalized_distances
         kernel = similarities.dot(similarities.T)
         labels = np.argmin(distances, axis=1)
-- 
2.43.0


From 8a14c9341374e3acb9dce280a0c4366f8fecc478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 77/80] fix: latent graphical lasso and infimal convolution
 could stop while the two parts were still moving

---
 regain/covariance/infimal_convolution_.py    | 5 ++++-
 regain/covariance/latent_graphical_lasso_.py | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 55bb7d2..ad6b79e 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -112,6 +112,7 @@ def infimal_convolution(
     L = np.zeros_like(S)
     U = np.zeros_like(S)
     R_old = np.zeros_like(S)
+    L_old = np.zeros_like(S)
 
     checks = []
     for iteration_ in range(max_iter):
@@ -135,7 +136,8 @@ def infimal_convolution(
         # diagnostics, reporting, termination checks
         obj = objective(S, R, K, L, alpha, tau) if compute_objective else np.nan
         rnorm = np.linalg.norm(R - K + L)
-        snorm = rho * np.linalg.norm(R - R_old)
+        # K and L can drift together without moving R
+        snorm = rho * np.sqrt(squared_norm(R - R_old) + squared_norm(L - L_old))
         check = Convergence(
             obj=obj,
             rnorm=rnorm,
@@ -145,6 +147,7 @@ def infimal_convolution(
             e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U),
         )
         R_old = R.copy()
+        L_old = L.copy()
 
         if verbose:
             print(check)
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index 09f3baa..6d1b39c 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -34,6 +34,7 @@ import warnings
 
 import numpy as np
 from scipy import linalg
+from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.graphical_lasso_ import (
     GraphicalLasso,
@@ -122,6 +123,7 @@ def latent_graphical_lasso(
     L = np.zeros_like(emp_cov)
     U = np.zeros_like(emp_cov)
     R_old = np.zeros_like(emp_cov)
+    L_old = np.zeros_like(emp_cov)
 
     checks = []
     for iteration_ in range(max_iter):
@@ -145,7 +147,8 @@ def latent_graphical_lasso(
         # diagnostics, reporting, termination checks
         obj = objective(emp_cov, R, K, L, alpha, tau) if compute_objective else np.nan
         rnorm = np.linalg.norm(R - K + L)
-        snorm = rho * np.linalg.norm(R - R_old)
+        # K and L can drift together without moving R
+        snorm = rho * np.sqrt(squared_norm(R - R_old) + squared_norm(L - L_old))
         check = Convergence(
             obj=obj,
             rnorm=rnorm,
@@ -155,6 +158,7 @@ def latent_graphical_lasso(
             e_dual=np.sqrt(R.size) * tol + rtol * rho * np.linalg.norm(U),
         )
         R_old = R.copy()
+        L_old = L.copy()
 
         if verbose:
             print(check)
-- 
2.43.0


From 5b59f76a35e293cb4a7af4a9225670f3825b0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 78/80] fix: latent time-varying solvers with one time could
 stop while the two parts were still moving

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 regain/covariance/latent_time_graphical_lasso_.py        | 3 +++
 regain/covariance/latent_time_matrix_decomposition.py    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 9297fd0..c3d9ba9 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -145,6 +145,7 @@ def kernel_latent_time_graphical_lasso(
     W_0 = np.zeros_like(Z_0)
     X_0 = np.zeros_like(Z_0)
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(Z_0)
 
     Z_M, Z_M_old = {}, {}
     Y_M = {}
@@ -282,6 +283,7 @@ def kernel_latent_time_graphical_lasso(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + sum(
                 squared_norm(Z_M[m][0] - Z_M_old[m][0])
                 + squared_norm(Z_M[m][1] - Z_M_old[m][1])
@@ -355,6 +357,7 @@ def kernel_latent_time_graphical_lasso(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         for m in range(1, n_times):
             Z_M_old[m] = (Z_M[m][0].copy(), Z_M[m][1].copy())
             W_M_old[m] = (W_M[m][0].copy(), W_M[m][1].copy())
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index 6ea75c1..e90ab31 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -153,6 +153,7 @@ def latent_time_graphical_lasso(
     U_2 = np.zeros_like(W_2)
 
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(Z_0)
     Z_1_old = np.zeros_like(Z_1)
     Z_2_old = np.zeros_like(Z_2)
     W_1_old = np.zeros_like(W_1)
@@ -251,6 +252,7 @@ def latent_time_graphical_lasso(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + squared_norm(Z_1 - Z_1_old)
             + squared_norm(Z_2 - Z_2_old)
             + squared_norm(W_1 - W_1_old)
@@ -316,6 +318,7 @@ def latent_time_graphical_lasso(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         Z_1_old = Z_1.copy()
         Z_2_old = Z_2.copy()
         W_1_old = W_1.copy()
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index 20b757b..c509000 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -128,6 +128,7 @@ def latent_time_matrix_decomposition(
     U_2 = np.zeros_like(W_2)
 
     R_old = np.zeros_like(Z_0)
+    W_0_old = np.zeros_like(Z_0)
     Z_1_old = np.zeros_like(Z_1)
     Z_2_old = np.zeros_like(Z_2)
     W_1_old = np.zeros_like(W_1)
@@ -222,6 +223,7 @@ def latent_time_matrix_decomposition(
 
         snorm = rho * np.sqrt(
             squared_norm(R - R_old)
+            + squared_norm(W_0 - W_0_old)
             + squared_norm(Z_1 - Z_1_old)
             + squared_norm(Z_2 - Z_2_old)
             + squared_norm(W_1 - W_1_old)
@@ -286,6 +288,7 @@ def latent_time_matrix_decomposition(
         )
 
         R_old = R.copy()
+        W_0_old = W_0.copy()
         Z_1_old = Z_1.copy()
         Z_2_old = Z_2.copy()
         W_1_old = W_1.copy()
-- 
2.43.0


From 5678f5d9d3080d823859e359b9b99d3e720d07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:42 +0000
Subject: [PATCH 79/80] fix: load_finance returned nothing and looked for the
 sectors in a file that does not exist

---
 regain/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/data/base.py b/regain/data/base.py
index c1f4d71..e7520d7 100644
--- a/regain/data/base.py
+++ b/regain/data/base.py
@@ -40,5 +40,6 @@ def load_finance(condensed=True, sectors=False):
         data = pd.read_csv(filename, index_col=0)
 
     if sectors:
-        filename = os.path.join(os.path.dirname(__file__), "finance/industries_sector.csv")
-        sectors = pd.read_csv(filename, index_col=0)
+        filename = os.path.join(os.path.dirname(__file__), "finance/industries_sector.txt")
+        return data, pd.read_csv(filename, index_col=0)
+    return data
-- 
2.43.0


From 77c78f7a0941c8fbb2fdeee11f685098837ad223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 80/80] fix: groups of load_food_search_trends that list a food
 twice duplicated its column

---
 regain/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/data/base.py b/regain/data/base.py
index e7520d7..0705bce 100644
--- a/regain/data/base.py
+++ b/regain/data/base.py
@@ -20,7 +20,7 @@ def load_food_search_trends(groups=False):
         connections = pd.DataFrame(connections, index=list(groups_dict.keys()), columns=data.columns)
 
         for g, v in groups_dict.items():
-            connections.loc[g, v] = 1
+            connections.loc[g, list(set(v))] = 1
 
         return data, connections, groups_dict
     else:
-- 
2.43.0

