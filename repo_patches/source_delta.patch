From 26e046368d9da187c43f79298ea64a268babd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 01/38] fix: MCMC samplers stopped before, not after, T_max had
 elapsed

The time limit test was inverted: with T_max set, the chain stopped after its
first iteration. basis_exchange_sampler and zonotope_sampler also returned the
unvisited (zero) rows of the preallocated chain.
---
 dppy/mcmc_sampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..d709a15 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -406,7 +406,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -608,7 +609,8 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From ad86d08dc3829287dbd5306d5ec828b7362707ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 02/38] fix: MCMC exchange moves failed when the current state
 is the whole ground set

rng.choice was called on an empty array.
---
 dppy/mcmc_sampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index d709a15..9c246ff 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,9 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0 (only delete moves are possible when S0 = [N])
+        if size_S0 < N:
+            t = rng.choice(np.delete(ground_set, S0))
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -381,8 +382,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements (impossible when S0 = [N])
+        if rng.rand() < 0.5 and size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From 7e1a58f705df5a031a67ef8b7236eee1641d3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 03/38] fix: dpp_sampler_mcmc raises ValueError for an unknown
 mode

It failed with UnboundLocalError.
---
 dppy/mcmc_sampling.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 9c246ff..cc6d71f 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -60,6 +60,14 @@ def dpp_sampler_mcmc(kernel, mode='AED', **params):
         sampl = basis_exchange_sampler(kernel, s_init, nb_iter, T_max,
                                        random_state=rng)
 
+    else:
+        str_list = ['Invalid `mode` parameter, choose among:',
+                    '- `AED`: Add-Exchange-Delete',
+                    '- `AD`: Add-Delete',
+                    '- `E`: Exchange',
+                    'Given: {}'.format(mode)]
+        raise ValueError('\n'.join(str_list))
+
     return sampl
 
 
-- 
2.43.0


From 04eed31d84361065f2f8895abde4e668ac2792f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 04/38] fix: FiniteDPP with a non boolean projection raises
 ValueError

The error message read an attribute that does not exist (AttributeError).
---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..d5ff7df 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From eec4c990d80638caba40c3cd6e3de85ea39bf6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 05/38] fix: beta ensembles with negative beta raise ValueError

The error message read self.beta before it was set (AttributeError).
---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..c5731ae 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From acd7741a50a0b6fd9e119d2e884ab636dc8c3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 06/38] fix: converting K to L eigenvalues left numpy division
 errors enabled process-wide

Use np.errstate instead of np.seterr.
---
 dppy/finite_dpps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index d5ff7df..a7ce005 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -661,8 +661,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -915,8 +915,8 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 52441119e3602e67245605c76d6890fd9596af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 07/38] fix: symmetric polynomials were not recomputed for a
 larger k-DPP size

self.size_k_dpp had already been set to the new size, so that the second call
with a larger size failed with IndexError.
---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index a7ce005..d20bb27 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -647,7 +647,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] < size + 1:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From 2e1852e647e22e1aeffac6f5d09c352bba43f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 08/38] fix: vfx samplers rejected their documented options

q_func, max_iter and max_iter_size_rejection are forwarded with the other
options to vfx_sampling_precompute_constants, which did not accept them
(alpha_dpp_sampling_precompute_constants does).
---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..e62b706 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From 3891953c0471d490a4a97e930983dc39f21482b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 09/38] fix: constants cached by the vfx and alpha samplers
 were reused for other requests

Switching from vfx to alpha on one object failed with AttributeError, and
sampling a DPP after a k-DPP reused the rescaled kernel of the k-DPP.
---
 dppy/finite_dpps.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index d20bb27..19a5833 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -165,6 +165,7 @@ class FiniteDPP:
         # eval_L(X) = L(X, X)
         self.eval_L, self.X_data = params.get('L_eval_X_data', [None, None])
         self.intermediate_sample_info = None
+        self._intermediate_sample_request = None  # (mode, size) it is made for
 
         if self.eval_L is not None:
             if not callable(self.eval_L):
@@ -361,12 +362,16 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
+            if self._intermediate_sample_request != (self.sampling_mode, None):
+                self.intermediate_sample_info = None
+
             sampl, self.intermediate_sample_info = dpp_vfx_sampler(
                                                 self.intermediate_sample_info,
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
+            self._intermediate_sample_request = (self.sampling_mode, None)
             if r_state_outer:
                 params["random_state"] = r_state_outer
 
@@ -379,12 +384,16 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
+            if self._intermediate_sample_request != (self.sampling_mode, None):
+                self.intermediate_sample_info = None
+
             sampl, self.intermediate_sample_info = alpha_dpp_sampler(
                                                 self.intermediate_sample_info,
                                                 self.X_data,
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
+            self._intermediate_sample_request = (self.sampling_mode, None)
             if r_state_outer:
                 params["random_state"] = r_state_outer
 
@@ -557,6 +566,9 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
+            if self._intermediate_sample_request != (self.sampling_mode, size):
+                self.intermediate_sample_info = None
+
             sampl, self.intermediate_sample_info = k_dpp_vfx_sampler(
                                                 size,
                                                 self.intermediate_sample_info,
@@ -564,6 +576,7 @@ class FiniteDPP:
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
+            self._intermediate_sample_request = (self.sampling_mode, size)
 
             if r_state_outer:
                 params["random_state"] = r_state_outer
@@ -576,6 +589,9 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
+            if self._intermediate_sample_request != (self.sampling_mode, size):
+                self.intermediate_sample_info = None
+
             sampl, self.intermediate_sample_info = alpha_k_dpp_sampler(
                                                 size,
                                                 self.intermediate_sample_info,
@@ -583,6 +599,7 @@ class FiniteDPP:
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
+            self._intermediate_sample_request = (self.sampling_mode, size)
 
             if r_state_outer:
                 params["random_state"] = r_state_outer
-- 
2.43.0


From db3ca09db0eddf45af1ea1070250b57369199042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 10/38] fix: proj_dpp_sampler_eig ignored an invalid mode or
 size without eigenvectors

When no eigenvector is selected it returned an empty sample for any mode, and
for any requested size.
---
 dppy/exact_sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..dc6239c 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -415,7 +415,11 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
-    if eig_vecs.shape[1]:
+    rank = eig_vecs.shape[1]
+    if size and size > rank:
+        raise ValueError('size k={} > rank={}'.format(size, rank))
+
+    if rank or mode not in ('GS', 'GS_bis', 'KuTa12'):
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
         if mode == 'GS':  # Gram-Schmidt
-- 
2.43.0


From 2df4771cde06ac489408162bb29df34034477521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 11/38] fix: KuTa12 sampler could select an item twice

A pivot equal to rounding noise (e.g., eigenvectors of a block diagonal kernel)
ruined the remaining basis, and items already selected were not excluded.
Use the largest pivot and exclude selected items as the other samplers do.
---
 dppy/exact_sampling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index dc6239c..8ce5cb6 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -638,7 +638,9 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
         size = rank
     # else: k-DPP with k = size
 
+    ground_set = np.arange(N)
     sampl = np.zeros(size, dtype=int)  # sample list
+    avail = np.ones(N, dtype=bool)  # available items
 
     # Phase 1: Already performed!
     # Select eigvecs with Bernoulli variables with parameter the eigvals
@@ -649,14 +651,16 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
     # Following [Algo 1, KuTa12], the aim is to compute the orhto complement of the subspace spanned by the selected eigenvectors to the canonical vectors \{e_i ; i \in Y\}. We proceed recursively.
     for it in range(size):
 
-        j = rng.choice(N, p=np.abs(norms_2) / (rank - it))
+        j = rng.choice(ground_set[avail],
+                       p=np.abs(norms_2[avail]) / (rank - it))
         sampl[it] = j
         if it == size - 1:
             break
+        avail[j] = False
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
         # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From 4b51ee0a35639d11863eb8df0d31d1de80f34256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 12/38] fix: normalize_points overwrote the points it was given

e.g., normalize_points(ensemble.list_of_samples[-1]) rescaled the recorded sample.
---
 dppy/beta_ensembles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index c5731ae..fb8775d 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -260,14 +260,14 @@ class HermiteEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
-            points -= self.params['loc']
-            points /= np.sqrt(0.5) * self.params['scale']
+            points = points - self.params['loc']
+            points = points / (np.sqrt(0.5) * self.params['scale'])
         else:  # 'full'
             pass
 
         if self.beta > 0:
             # Normalize to fit the semi-circle distribution
-            points /= np.sqrt(self.beta * self.params['size_N'])
+            points = points / np.sqrt(self.beta * self.params['size_N'])
         else:
             pass
 
@@ -590,13 +590,13 @@ class LaguerreEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
-            points /= 0.5 * self.params['scale']
+            points = points / (0.5 * self.params['scale'])
         else:  # self.sampling_mode == 'full':
             pass
 
         if self.beta > 0:
             # Normalize to fit the Marcenko-Pastur distribution
-            points /= self.beta * self.params['size_M']
+            points = points / (self.beta * self.params['size_M'])
         else:
             pass
             # set a warning, won't concentrate as semi-circle, they are i.i.d.
-- 
2.43.0


From 503890b84add8925d80074fa69d968029b827a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 13/38] fix: equilibrium cdfs clipped the evaluation points of
 the caller in place

---
 dppy/beta_ensemble_polynomial_potential_core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..3507f70 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -533,8 +533,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
+        x = np.clip(x, -a, a)
         X = np.arcsin(x / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
@@ -612,8 +611,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
+            x = np.clip(x, -a, a)
             X = np.arcsin(x / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
@@ -623,8 +621,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
+            x = np.clip(x, -a, a)
             X = np.arcsin(x / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
-- 
2.43.0


From 052a5b9c9bc356c0781822be305a468238a2abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 14/38] fix: dropping the constant of the potential modified
 the polynomial of the caller

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..774a7cc 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -46,7 +46,7 @@ class BetaEnsemblePolynomialPotential(object):
 
         if self.V[0] != 0:
             print('Weird thing to introduce a constant V = ... + g_0={}. Reset g_0 = 0'.format(self.V[0]))
-            self.V[0] = 0
+            self.V = self.V - self.V[0]
 
         self._V_ClItKr10 = np.poly1d([1 / 20, -4 / 15, 1 / 5, 8 / 5, 0])
 
-- 
2.43.0


From 77ac251d95d90beca0066e24cbe90c7c98f155ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 15/38] fix: bless looped forever on small data sets

ucb_init.sum() is at most n * rls_oversample_param, which need not reach 10.
---
 dppy/bless.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..946c7e1 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -225,8 +225,8 @@ def bless(X_data,
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
     lam_init = n
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
-        lam_init /= 1.25
+    while ucb_init.sum() <= 10 and lam_init > lam_final:
+        lam_init = max(lam_init / 1.25, lam_final)
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
     rng = check_random_state(random_state)
-- 
2.43.0


From a987cd60b7d03beae88a37e8ddaca4390ef48b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 16/38] fix: zonotope_sampler looped forever if the initial
 point was on the boundary of a tile

---
 dppy/mcmc_sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index cc6d71f..be75e2d 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -576,6 +576,10 @@ def zonotope_sampler(A_zono, **params):
         y_star = solvers.lp(c, G, h, A, x0, solver='glpk')['x']
         # Get the tile
         B_x0 = extract_basis(np.asarray(y_star))
+        if len(B_x0) != r:  # x0 lies on the boundary of a tile
+            if 'x_0' in params:
+                raise ValueError('x_0 does not lie in the interior of a tile')
+            x0 = matrix(A_zono.dot(rng.rand(N)))
 
     # Initialize sequence of sample
     chain = np.zeros((nb_iter, r), dtype=int)
-- 
2.43.0


From 3ede829045088637c8a34bd37fb0357da4c72052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 17/38] fix: MultivariateJacobiOPE returned rejected candidates
 when proposals were exhausted

---
 dppy/multivariate_jacobi_ope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..c5c50a7 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -356,7 +356,7 @@ class MultivariateJacobiOPE:
             if rng.rand() * rejection_bound < Pk2_x * w_over_w_eq:
                 break
         else:
-            print('marginal distribution 1/N K(x,x), rejection fails after {} proposals'.format(trial))
+            raise ValueError('marginal distribution 1/N K(x,x), rejection fails after {} proposals'.format(nb_trials_max))
 
         return x
 
@@ -446,7 +446,7 @@ class MultivariateJacobiOPE:
                     phi[n] /= np.sqrt(schur)
                     break
             else:
-                print('conditional x_{} | x_1,...,x_{}, rejection fails after {} proposals'.format(n + 1, n, trial))
+                raise ValueError('conditional x_{} | x_1,...,x_{}, rejection fails after {} proposals'.format(n + 1, n, nb_trials_max))
 
         return sample
 
-- 
2.43.0


From 4df11cb1cc7f261218167bc792456d59915028bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 18/38] fix: compute_ordering overflowed for more than 32767
 points in dimension 1

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index c5c50a7..2276d06 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -661,7 +661,7 @@ def compute_ordering(N, d):
 
         - :cite:`BaHa16` Section 2.1.3
     """
-    layer_max = np.floor(N**(1.0 / d)).astype(np.int16)
+    layer_max = np.floor(N**(1.0 / d)).astype(int)
 
     ordering = itt.chain.from_iterable(
                 filter(lambda x: m in x,
-- 
2.43.0


From 3d2fd6d9e56621b54d1e6885678612d79b4fde39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 19/38] fix: ust_sampler_aldous_broder used np.int, which numpy
 no longer has

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 560404c06952c531aa5ec05dec7eb17e9a6b617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 20/38] fix: UST.sample ignored the requested root

---
 dppy/exotic_dpps.py      | 2 ++
 dppy/exotic_dpps_core.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..4b42296 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -558,10 +558,12 @@ class UST:
         if self.sampling_mode in self._sampling_modes['markov-chain']:
             if self.sampling_mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
+                                           root=root,
                                            random_state=rng)
 
             elif self.sampling_mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
+                                                  root=root,
                                                   random_state=rng)
 
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index e4fedb5..6a66c03 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -48,7 +48,7 @@ def ust_sampler_wilson(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = root if root is not None else rng.choice(nb_nodes)  # size=1)[0]
     # -1 = not visited / 0 = in path / 1 = in tree
     state = -np.ones(nb_nodes, dtype=int)
     state[n0] = 1
@@ -113,7 +113,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = root if root is not None else rng.choice(nb_nodes)  # size=1)[0]
     visited = np.zeros(nb_nodes, dtype=bool)
     visited[n0] = True
     nb_nodes_in_tree = 1
-- 
2.43.0


From 48606aa05cc2a0bc8bf401dd2da5456524b3a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 21/38] fix: UST.sample raised TypeError for an invalid
 sampling mode

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 4b42296..751fe54 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -587,11 +587,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join((
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)))
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From 3da84bdf45103973416952d29b55f3c1496cc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 22/38] fix: UST.sample rejected the documented modes GS_bis
 and KuTa12

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 751fe54..e04f600 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -490,7 +490,7 @@ class UST:
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
-                                'spectral-method': ['GS'],
+                                'spectral-method': ['GS', 'GS_bis', 'KuTa12'],
                                 'projection-K-kernel': ['Schur', 'Chol']}
         self.list_of_samples = []
 
-- 
2.43.0


From 64c17bfdc80edd6139fd21a83323c0129bea6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 23/38] fix: rescale_largest_eig_val raises ValueError when the
 support is unknown

---
 dppy/beta_ensemble_polynomial_potential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 774a7cc..c08a0b9 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -293,6 +293,9 @@ class BetaEnsemblePolynomialPotential(object):
             - `poly2cheb <https://docs.scipy.org/doc/numpy/reference/generated/numpy.polynomial.chebyshev.poly2cheb.html?>`_
         """
 
+        if self.support is None:
+            raise ValueError('The support of the equilibrium measure is not known for this potential, the largest eigenvalue cannot be rescaled')
+
         a_v, b_v = self.support
         shift = np.poly1d([0.5 * (b_v - a_v), 0.5 * (b_v + a_v)])
 
-- 
2.43.0


From f16269eb42db51574082e8c8bf6fbe3c26e9a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 24/38] fix: an explicit size of 0 is validated, not taken for
 the default, in banded models

---
 dppy/beta_ensembles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index fb8775d..dc5283e 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -511,7 +511,7 @@ class LaguerreEnsemble(BetaEnsemble):
 
         self.sampling_mode = 'banded'
 
-        if not size_M:  # Default setting
+        if size_M is None:  # Default setting
             if self.beta > 0:
                 size_M = 2 / self.beta * shape + size_N - 1
             else:
@@ -857,7 +857,7 @@ class JacobiEnsemble(BetaEnsemble):
 
         self.sampling_mode = 'banded'
 
-        if not (size_M1 and size_M2):  # default setting
+        if size_M1 is None or size_M2 is None:  # default setting
 
             if self.beta > 0:
                 size_M1 = 2 / self.beta * a + size_N - 1
-- 
2.43.0


From abde4cbf8a9420dbceb54bd4b285758d094fd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 25/38] fix: sign of the proposal correction in the MALA
 acceptance (the chain targeted exp(-3V))

---
 dppy/beta_ensemble_polynomial_potential_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 3507f70..74c9eaf 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -326,7 +326,7 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         Vy, grad_Vy = V(y), d1_V(y)
 
         acceptance = Vx - Vy\
-                    + 0.5\
+                    - 0.5\
                         / sigma**2\
                         * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
                             - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
-- 
2.43.0


From 6d299cdddece9cf6337f499023c241b6071e78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 26/38] fix: full matrix models with beta=4 return the N
 requested points, not each of them twice

---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..34496e8 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eig_vals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # quaternionic case: the 2Nx2N matrix has N distinct eigenvalues, each twice
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eig_vals = la.eigvalsh(A.dot(A.conj().T))
+
+    # quaternionic case: the 2Nx2N matrix has N distinct eigenvalues, each twice
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eig_vals = la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+
+    # quaternionic case: the 2Nx2N matrix has N distinct eigenvalues, each twice
+    return np.sort(eig_vals)[::2] if beta == 4 else eig_vals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From f636dd0dd06da47ff8c7a718481fd3c3618c105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 27/38] fix: MCMC samplers took an explicit T_max=0 for no time
 limit

---
 dppy/mcmc_sampling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index be75e2d..bb7ee7b 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -188,7 +188,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
     chain = [S0]  # Initialize the collection (list) of sample
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.time() if T_max is not None else 0
 
     for _ in range(1, nb_iter):
 
@@ -242,7 +242,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         else:
             chain.append(S0)
 
-        if T_max:
+        if T_max is not None:
             if time.time() - t_start > T_max:
                 break
 
@@ -298,7 +298,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
     chain = [S0]  # Initialize the collection (list) of sample
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.time() if T_max is not None else 0
 
     for _ in range(1, nb_iter):
 
@@ -325,7 +325,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
         else:
             chain.append(S0)
 
-        if T_max:
+        if T_max is not None:
             if time.time() - t_start > T_max:
                 break
 
@@ -386,7 +386,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     chain[0] = S0
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.time() if T_max is not None else 0
 
     for it in range(1, nb_iter):
 
@@ -414,7 +414,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
         else:
             chain[it] = S0
 
-        if T_max:
+        if T_max is not None:
             if time.time() - t_start > T_max:
                 chain = chain[:it + 1]
                 break
@@ -588,7 +588,7 @@ def zonotope_sampler(A_zono, **params):
     # Compute the det of the tile (Vol(B)=abs(det(B)))
     det_B_x0 = la.det(A_zono[:, B_x0])
 
-    t_start = time.time() if T_max else 0
+    t_start = time.time() if T_max is not None else 0
 
     for it in range(1, nb_iter):
 
@@ -621,7 +621,7 @@ def zonotope_sampler(A_zono, **params):
             else:
                 chain[it] = B_x0
 
-        if T_max:
+        if T_max is not None:
             if time.time() - t_start > T_max:
                 chain = chain[:it + 1]
                 break
-- 
2.43.0


From 5c3810e9226d3cc1c9e38367f7722918d30df6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 28/38] fix: sample_mcmc_k_dpp(size=0) started from a set of
 random size

---
 dppy/mcmc_sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index bb7ee7b..84903a5 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -126,7 +126,7 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
             break
         else:
             S0 = rng.choice(N,
-                            size=size if size else rng.randint(1, N + 1),
+                            size=rng.randint(1, N + 1) if size is None else size,
                             replace=False)
             det_S0 = det_ST(kernel, S0)
     else:
@@ -390,8 +390,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements (impossible when S0 = [N])
-        if rng.rand() < 0.5 and size < N:
+        # With proba 1/2 try to swap 2 elements (impossible when S0 = [] or [N])
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From 8ba6dfd49259d98f8b348890000e895ff7f31dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 29/38] fix: k-DPP of size 0 made k_dpp_eig_vecs_selector
 select an eigenvector or fail

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 8ce5cb6..fb0bd0d 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1301,11 +1301,12 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
 
+        if k == 0:
+            break
+
         if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
             k -= 1
             ind_selected[k] = n - 1
-            if k == 0:
-                break
 
     return eig_vecs[:, ind_selected]
 
-- 
2.43.0


From d664e6da684f8e8fa7305d14599d7c1574886bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 30/38] fix: alpha_k_dpp_sampler is verbose by default, as
 documented

---
 dppy/exact_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index fb0bd0d..b43fb88 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1164,7 +1164,7 @@ def alpha_k_dpp_sampler(size,
     ratio_alpha = intermediate_sample_info.alpha_max / intermediate_sample_info.alpha_min
     found_good_alpha = ratio_alpha <= stopping_ratio
 
-    prog_bar = get_progress_bar(disable=not params.get('verbose', False))
+    prog_bar = get_progress_bar(disable=not params.get('verbose', True))
     verbose_outer = None
     if 'verbose' in params:
         verbose_outer = params.pop('verbose')
-- 
2.43.0


From e82fce4db4912656bd139aee2dfc35a00603b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 31/38] fix: the size of the initial state was ignored in mode
 AD

---
 dppy/mcmc_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 84903a5..8b389f6 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -49,7 +49,8 @@ def dpp_sampler_mcmc(kernel, mode='AED', **params):
 
     elif mode == 'AD':  # Add-Delete S'=S+t, S-t
         if s_init is None:
-            s_init = initialize_AD_and_E_sampler(kernel, random_state=rng)
+            s_init = initialize_AD_and_E_sampler(kernel, size,
+                                                 random_state=rng)
         sampl = add_delete_sampler(kernel, s_init, nb_iter, T_max,
                                    random_state=rng)
 
-- 
2.43.0


From 19d0740d9a3408bf7172f8c4652f5743b1efecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:29 +0000
Subject: [PATCH 32/38] fix: acceptance ratio of the delete move of the
 add-exchange-delete chain (inverted proposal correction)

---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 8b389f6..726b827 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -233,7 +233,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From f7df3173c046f26d0a134d2864375eb32dc18c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:35 +0000
Subject: [PATCH 33/38] fix: vfx and alpha constants computed for one
 desired_expected_size are not reused for another

---
 dppy/finite_dpps.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 19a5833..6092557 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -165,7 +165,7 @@ class FiniteDPP:
         # eval_L(X) = L(X, X)
         self.eval_L, self.X_data = params.get('L_eval_X_data', [None, None])
         self.intermediate_sample_info = None
-        self._intermediate_sample_request = None  # (mode, size) it is made for
+        self._intermediate_sample_request = None  # request it is made for
 
         if self.eval_L is not None:
             if not callable(self.eval_L):
@@ -362,7 +362,9 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            if self._intermediate_sample_request != (self.sampling_mode, None):
+            request = (self.sampling_mode, None,
+                       params.get('desired_expected_size', None))
+            if self._intermediate_sample_request != request:
                 self.intermediate_sample_info = None
 
             sampl, self.intermediate_sample_info = dpp_vfx_sampler(
@@ -371,7 +373,7 @@ class FiniteDPP:
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
-            self._intermediate_sample_request = (self.sampling_mode, None)
+            self._intermediate_sample_request = request
             if r_state_outer:
                 params["random_state"] = r_state_outer
 
@@ -384,7 +386,9 @@ class FiniteDPP:
             if "random_state" in params:
                 r_state_outer = params.pop("random_state", None)
 
-            if self._intermediate_sample_request != (self.sampling_mode, None):
+            request = (self.sampling_mode, None,
+                       params.get('desired_expected_size', None))
+            if self._intermediate_sample_request != request:
                 self.intermediate_sample_info = None
 
             sampl, self.intermediate_sample_info = alpha_dpp_sampler(
@@ -393,7 +397,7 @@ class FiniteDPP:
                                                 self.eval_L,
                                                 random_state=rng,
                                                 **params)
-            self._intermediate_sample_request = (self.sampling_mode, None)
+            self._intermediate_sample_request = request
             if r_state_outer:
                 params["random_state"] = r_state_outer
 
-- 
2.43.0


From 9c5985b196b027ad32fdd6e53547a64d20084ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:30 +0000
Subject: [PATCH 34/38] fix: log-concave samplers raise when no proposal is
 accepted, instead of returning the last rejected one

---
 dppy/beta_ensemble_polynomial_potential_core.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 74c9eaf..228f5f9 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -140,9 +140,8 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
         if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
             break
     else:  # if no acceptation
-        print('gen_gamma with alpha=1 not accepted\
-                after {} iterations'.format(it))
-        X = 1e-7
+        raise ValueError('gen_gamma with alpha=1 not accepted'
+                         ' after {} iterations'.format(it))
 
     return X, it
 
@@ -160,9 +159,8 @@ def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
             break
 
     else:
-        print('gen_gamma with alpha<1 not accepted\
-                after {} iterations'.format(it))
-        pass
+        raise ValueError('gen_gamma with alpha<1 not accepted'
+                         ' after {} iterations'.format(it))
         # X = ...
 
     return X, it
@@ -306,8 +304,7 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
             return X + mode, iter_
 
     else:
-        print('Dev12 not accepted after {} iterations!'.format(iter_))
-        return X + mode, iter_
+        raise ValueError('Dev12 not accepted after {} iterations!'.format(nb_iter_max))
 
 
 def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
-- 
2.43.0


From 934e028c95b1c04223c661d49d4e292b6edfddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:30 +0000
Subject: [PATCH 35/38] fix: trunc_gaussian_sampler proposes around the mode,
 also when the mean lies inside the interval (mu > b)

---
 dppy/beta_ensemble_polynomial_potential_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 228f5f9..18efd41 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -133,11 +133,12 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
     rng = check_random_state(random_state)
 
     it_max = int(1e7)
+    mode = max(b, mu)
 
     for it in range(1, it_max + 1):
-        X = rng.normal(loc=b, scale=np.sqrt(var))
+        X = rng.normal(loc=mode, scale=np.sqrt(var))
         U = rng.rand()
-        if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
+        if (np.log(U) < -(mode - mu) * (X - mode) / var) and (X > b):
             break
     else:  # if no acceptation
         raise ValueError('gen_gamma with alpha=1 not accepted'
-- 
2.43.0


From 328f8a6d095741dde4ca8c2a498165c25b673859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:30 +0000
Subject: [PATCH 36/38] fix: rejection bound of MultivariateJacobiOPE is not
 NaN when exactly one Jacobi parameter is -1/2

---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 2276d06..795f7d6 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -12,7 +12,7 @@ import numpy as np
 import itertools as itt
 
 from scipy import stats
-from scipy.special import beta, betaln, factorial, gamma, gammaln
+from scipy.special import beta, betaln, factorial, gamma, gammaln, xlogy
 from scipy.special import eval_jacobi
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From e1a90d1e249571b2a269e2cbbbf0e7a43ae726f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:30 +0000
Subject: [PATCH 37/38] fix: Poisson rate of the vfx intermediate sample is not
 rounded up (it biased the law of the sample)

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index e62b706..891c7b9 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -368,8 +368,7 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            t = rng.poisson(lam=pc_state.q * np.exp(pc_state.s / pc_state.q))
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From 4207e0a1665c7ef9f91932e457ac27438e0d05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:26 +0000
Subject: [PATCH 38/38] fix: virtual descent process marks points with
 probability x_0 (the descents now have the documented marginal (1 - x_0^2)/2
 for any x_0)

---
 dppy/exotic_dpps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index e04f600..2214df4 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,12 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+        Y = rng.binomial(n=1, p=self.x_0, size=self.size + 1) == 1
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0

