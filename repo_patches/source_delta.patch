From 6a6c1bd171d8096c404459002936a500a8e874a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 01/14] fix: PxMALA transition density matches the proposal it
 corrects for

chain_step proposes N(X + delta*grad, 2*delta), but calc_logtransition
returned -(delta/2)*(||X2 - X1 - delta/2*grad||^2)^2 (operator precedence,
squared twice, half the drift, no modulus for complex parameters), so the
Metropolis-Hastings ratio was not that of the proposal.
---
 pxmcmc/mcmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..4e9b0a1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -283,9 +283,8 @@ class PxMALA(MYULA):
         Calculates the transition probability of stepping from model X1 to model X2 i.e. q(X2|X1).
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
-        return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+        return -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2) / (
+            4 * self.delta
         )
 
 
-- 
2.43.0


From c57a75d0a09e2b97b6dc5ef11910eb47c8c54985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 02/14] fix: PxMALA saves the current state also after a
 rejected proposal

Only accepted proposals were saved, so the saved samples were not samples of
the Metropolis-Hastings chain, and were not ngap iterations apart.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 4e9b0a1..76db5d1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 39998b7edc69f4d6b48221394f484d19899db985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 03/14] fix: SKROCK recursion and coefficients for two or more
 stages

K_j = mu_j*delta*grad(K_{j-1}) + nu_j*K_{j-1} + kappa_j*K_{j-2}, with
mu_j, nu_j proportional to T_{j-1}(omega_0)/T_j(omega_0) and
kappa_j = 1 - nu_j.  As written, a zero gradient and zero noise did not
leave the state where it was.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 76db5d1..708bf6e 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -362,8 +362,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -376,7 +375,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From f65e44798283881e7528546409d9a6760093e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 04/14] fix: progress output does not need every quantity to be
 tracked

MYULA and SKROCK printed from the tracking arrays, so a run with
verbosity > 0 and, say, track=["chain"] died with AttributeError.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 708bf6e..b77653d 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -169,12 +169,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -323,13 +318,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From f56ba9799f865ee0dbd534f0b264fa8f5d06b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 05/14] fix: tracked predictions keep their imaginary part for
 complex problems

---
 pxmcmc/mcmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index b77653d..041c5f8 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -115,7 +115,10 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex
+                if self.complex or np.iscomplexobj(self.forward.data)
+                else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 398b12e24b73b96f7ac097e4f034bca6eab26c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 06/14] fix: accept a covariance matrix as sig_d

scipy.sparse.linalg.inv refuses dense arrays, so the documented matrix form
of sig_d always raised TypeError.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From bfc7e570565ec7aff363a343b934b6af46f79c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 07/14] fix: hard thresholding keeps nothing when the kept
 fraction is below one entry

X_srt[-0] is the smallest entry, so everything was kept.
---
 pxmcmc/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..0fbf4fb 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -76,8 +76,10 @@ def hard(X, T=0.1):
     """
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
-    thresh_val = X_srt[-thresh_ind]
-    X[abs(X) < thresh_val] = 0
+    if thresh_ind > 0:
+        X[abs(X) < X_srt[-thresh_ind]] = 0
+    else:
+        X[:] = 0
     return X
 
 
-- 
2.43.0


From b112c256bc9c7962886f96a6a5773556e3d91785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 08/14] fix: check the mask shape before the mask is used

A mask of the wrong shape raised IndexError instead of the documented
ValueError.
---
 pxmcmc/measurements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..993ed7f 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -197,15 +197,15 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.mask = mask.astype(bool)
 
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
+
         # Define observational covariance
         if ngal is None:
             self.inv_cov = self.mask_forward(np.ones(self.shape))
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From dac5a5a0b01d10dd90b953405b90ce1fc4eba28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 09/14] fix: power-weighted wavelet prior and its prox use the
 same weights

The prior applied the power weights twice and the threshold multiplied them
with the pixel-area weights of the parent class, so the prox was not that of
the prior.
---
 pxmcmc/prior.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..bf20c0a 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -105,10 +105,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From 35ac61f8b270dcd4244a862adae45e6e266249bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 10/14] fix: do not scale the caller's threshold array in place

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index bf20c0a..9545dbe 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -78,7 +78,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From 82c969b5f75df5f4509c5e37bd305495a9599ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 11/14] fix: the analysis L1 prior is the norm of the
 transformed sample

proxf is the proximal map of ||adj(X)||_1 in the analysis setting, but prior
returned ||X||_1.
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 9545dbe..c10cff4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From 9bec090935e3d519aa42ee96732cad9b02526eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 12/14] fix: credible region keeps the samples of highest
 posterior

The region was the set of samples with log posterior below the 1-alpha
quantile, which leaves out the best samples, the MAP among them.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From 14692d3a4cd6cd8a5bb0cfa211a92f210015e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:50 +0000
Subject: [PATCH 13/14] fix: count the coefficients of the harmonic wavelet
 transform in harmonic mode

---
 pxmcmc/transforms.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..31a86c1 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -97,7 +97,7 @@ class SphericalWaveletTransform(Transform):
             self.inv = pys2let.synthesis_wav2px
             self.inv_adj = pys2let.synthesis_adjoint_px2wav
 
-        self._get_ncoefs()
+        self._get_ncoefs(harmonic)
 
     def forward(self, X):
         """
@@ -153,14 +153,12 @@ class SphericalWaveletTransform(Transform):
         X = self.fwd_adj(wav, scal, **self.params)
         return X
 
-    def _get_ncoefs(self):
+    def _get_ncoefs(self, harmonic=False):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        size = self.L ** 2 if harmonic else pyssht.sample_length(self.L)
+        f_wav, f_scal = self.fwd(np.empty(size, dtype=complex), **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From 643f99a355b14580acfb19b6ba8a12a97c4735b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:50 +0000
Subject: [PATCH 14/14] fix: build_mask keeps the rounded declination of the
 last ring within 90 degrees

pyssht's last ring can come out one ulp above pi, and astropy then refuses the latitude, so no mask could be built for
bandlimits 7, 24, 42, 50, ...
---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 0fbf4fb..d74bdbd 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -337,7 +337,7 @@ def build_mask(L, size=20):
                 mask[i, j] = 0
 
     thetaarray, phiarray = pyssht.sample_positions(L, Grid=True)
-    thetaarray = np.degrees(thetaarray) - 90
+    thetaarray = np.clip(np.degrees(thetaarray) - 90, -90, 90)
     phiarray = np.degrees(phiarray) - 180
 
     c = SkyCoord(phiarray, thetaarray, unit="deg")
-- 
2.43.0

