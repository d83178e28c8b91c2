From 7429c951004778724af91d8ce8522ab416c9a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 01/51] fix: align cgf with the cluster plate in the mixture's
 message to the cluster assignments

---
 bayespy/inference/vmp/nodes/mixture.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 2e9c047..d6ca5f6 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -65,14 +65,6 @@ class MixtureDistribution(ExponentialFamilyDistribution):
             # Compute g:
             # Shape(g)      = [Nn,..,K,..,N0]
             g = self.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
-            # Reshape(g):
-            # Shape(g)      = [Nn,..,N0,K]
-            if np.ndim(g) < abs(self.cluster_plate):
-                # Not enough axes, just add the cluster plate axis
-                g = np.expand_dims(g, -1)
-            else:
-                # Move the cluster plate axis
-                g = misc.moveaxis(g, self.cluster_plate, -1)
 
             # Compute phi:
             # Shape(phi)    = [Nn,..,K,..,N0,Dd,..,D0]
-- 
2.43.0


From 8d456501364ba1fec962ad1e2850d66c9ea94eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 02/51] fix: squeeze an axis over which the number of trials is
 broadcasted

---
 bayespy/inference/vmp/nodes/binomial.py    | 3 +++
 bayespy/inference/vmp/nodes/multinomial.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 8a2f4df..3140507 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -142,6 +142,9 @@ class BinomialDistribution(ExponentialFamilyDistribution):
         return np.random.binomial(self.N, p, size=plates)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials is broadcasted over the axis
+            return BinomialDistribution(self.N)
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index bc651db..d5f35d8 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -213,6 +213,9 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
 
     def squeeze(self, axis):
+        if np.ndim(self.N) < abs(axis):
+            # The number of trials is broadcasted over the axis
+            return MultinomialDistribution(self.N)
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
-- 
2.43.0


From 8f4b8c0b5a57f2b7c3e1f59771b2d066f642692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 03/51] fix: split weights for all parents of Concatenate

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index a2b4b46..49bb66b 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -109,7 +109,7 @@ class Concatenate(Deterministic):
 
     def _compute_weights_to_parent(self, index, weights):
         axis = self._axis
-        indices = self._indices[index:(index+1)]
+        indices = self._indices[index:(index+2)]
         if np.ndim(weights) >= abs(axis) and np.shape(weights)[axis] > 1:
             # Take the middle one of the returned three arrays
             return np.split(weights, indices, axis=axis)[1]
-- 
2.43.0


From b3e69fa7f6cad46bfba34775bc0b9847ad129b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 04/51] fix: explicit broadcasting of row, time and plate axes
 in GaussianMarkovChain

---
 .../vmp/nodes/gaussian_markov_chain.py        | 52 ++++++++++---------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index cedadbf..1164a1a 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -249,20 +249,17 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
 
 
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
-                                           logdet_nu, N):
+                                           logdet_nu, N, D):
     """
     Compute CGF using the moments of the parents.
     """
 
     g0 = -0.5 * mumu_Lambda #np.einsum('...ij,...ij->...', mumu, Lambda)
 
-    g1 = 0.5 * logdet_Lambda
-    if np.ndim(logdet_nu) == 1:
-        g1 = g1 + 0.5 * (N-1) * np.sum(logdet_nu, axis=-1)
-    elif np.shape(logdet_nu)[-2] == 1:
-        g1 = g1 + 0.5 * (N-1) * np.sum(logdet_nu, axis=(-1,-2))
-    else:
-        g1 = g1 + 0.5 * np.sum(logdet_nu, axis=(-1,-2))
+    # Broadcast explicitly over time and state axes: (..., N-1, D)
+    logdet_nu = logdet_nu * np.ones((N-1, D))
+
+    g1 = 0.5 * logdet_Lambda + 0.5 * np.sum(logdet_nu, axis=(-1,-2))
 
     return g0 + g1
 
@@ -492,10 +489,10 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
                 m1_AB = -0.5 * Xn[..., :-1, None, :, None] * z[..., None, None, :]
 
                 # Construct full message arrays from blocks
-                m0 = np.concatenate([m0, m0_B], axis=-1)
-                row1 = np.concatenate([m1, m1_AB], axis=-1)
-                row2 = np.concatenate([m1_AB.swapaxes(-1,-2), m1_BB], axis=-1)
-                m1 = np.concatenate([row1, row2], axis=-2)
+                m0 = misc.concatenate(m0, m0_B, axis=-1)
+                row1 = misc.concatenate(m1, m1_AB, axis=-1)
+                row2 = misc.concatenate(m1_AB.swapaxes(-1,-2), m1_BB, axis=-1)
+                m1 = misc.concatenate(row1, row2, axis=-2)
 
             return [m0, m1, m2, m3]
 
@@ -510,9 +507,9 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             # (..., N-1, D, K)
             B = u_A_nu[0][...,D:]
             # (..., N-1, D, D, K)
-            AB = u_A_nu[1][...,:D,D:]
+            AB = u_A_nu[1][...,:D,D:] * np.ones((D,1,1))
             # (..., N-1, D, K, K)
-            BB = u_A_nu[1][...,D:,D:]
+            BB = u_A_nu[1][...,D:,D:] * np.ones((D,1,1))
 
             # (..., N-1, K)
             m0 = (
@@ -566,11 +563,14 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         # Helpful variables (show shapes in comments)
         Lambda_mu = u_mu_Lambda[0]   # (..., D)
         Lambda = u_mu_Lambda[2]      # (..., D, D)
-        nu_A = u_A_nu[0][...,:D]     # (..., N-1, D, D)
-        nu_AA = u_A_nu[1][...,:D,:D] # (..., N-1, D, D, D)
-        nu_B = u_A_nu[0][...,D:]     # (..., N-1, D, inputs)
-        nu_BB = u_A_nu[1][...,D:,D:] # (..., N-1, D, inputs, inputs)
-        nu_AB = u_A_nu[1][...,:D,D:] # (..., N-1, D, D, inputs)
+        # (the axis of the rows of A must not be broadcasted because it is summed)
+        u0_A_nu = u_A_nu[0] * np.ones((D,1))
+        u1_A_nu = u_A_nu[1] * np.ones((D,1,1))
+        nu_A = u0_A_nu[...,:D]       # (..., N-1, D, D)
+        nu_AA = u1_A_nu[...,:D,:D]   # (..., N-1, D, D, D)
+        nu_B = u0_A_nu[...,D:]       # (..., N-1, D, inputs)
+        nu_BB = u1_A_nu[...,D:,D:]   # (..., N-1, D, inputs, inputs)
+        nu_AB = u1_A_nu[...,:D,D:]   # (..., N-1, D, D, inputs)
         nu = u_A_nu[2] * np.ones(D)  # (..., N-1, D)
         # mu = u_mu[0]           # (..., D)
         # Lambda = u_Lambda[0]   # (..., D, D)
@@ -589,7 +589,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         if inputs is not None:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1],
                                                  np.shape(nu_B)[:-3],
-                                                 np.shape(nu_AB)[:-4])
+                                                 np.shape(nu_AB)[:-4],
+                                                 np.shape(inputs)[:-2])
         else:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1])
 
@@ -633,12 +634,13 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         g = _compute_cgf_for_gaussian_markov_chain(u_mu_Lambda[1],
                                                    u_mu_Lambda[3],
                                                    u_A_nu[3],
-                                                   self.N)
+                                                   self.N,
+                                                   self.D)
 
         if len(u_inputs):
             D = np.shape(u_mu_Lambda[0])[-1]
             uu = u_inputs[0][1]
-            nu_BB = u_A_nu[1][...,D:,D:]
+            nu_BB = u_A_nu[1][...,D:,D:] * np.ones((D,1,1))
             nu = u_A_nu[2]
             #BB_v = np.einsum('...d,...dij->...ij', v, BB)
             g_inputs = -0.5 * np.einsum(
@@ -1130,7 +1132,8 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
@@ -1672,7 +1675,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
-- 
2.43.0


From 9fb21f1578f09d10d56e24c4aa6775bda8968253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 05/51] fix: chol_solve with right-hand sides broadcasted over
 the matrices

---
 bayespy/utils/linalg.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index db1a9e4..e2b0f50 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -91,6 +91,15 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
                 misc.flatten_axes(b, ndim)
             )
 
+        # A separate system is solved for each matrix in U, so broadcast B
+        # explicitly along those axes over which U varies
+        B = misc.add_leading_axes(B, max(0, np.ndim(U) - 1 - np.ndim(B)))
+        plates_b = list(np.shape(B)[:-1])
+        for i in range(-(np.ndim(U) - 2), 0):
+            if plates_b[i] == 1:
+                plates_b[i] = np.shape(U)[:-2][i]
+        B = np.broadcast_to(B, tuple(plates_b) + np.shape(B)[-1:])
+
         # Allocate memory
         sh_u = U.shape[:-2]
         sh_b = B.shape[:-1]
-- 
2.43.0


From 1cea6a2d832e17f2fcdefbfc94cea99e1d8d7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 06/51] fix: slicing with negative step down to the first plate

---
 bayespy/inference/vmp/nodes/node.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0092454..eb8c132 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -863,7 +863,9 @@ from .deterministic import Deterministic
 def slicelen(s, length=None):
     if length is not None:
         s = slice(*(s.indices(length)))
-    return max(0, misc.ceildiv(s.stop - s.start, s.step))
+    # With negative step, the stop can be None, that is, "before the first"
+    stop = -1 if s.stop is None else s.stop
+    return max(0, misc.ceildiv(stop - s.start, s.step))
 
 class Slice(Deterministic):
 
@@ -971,7 +973,10 @@ class Slice(Deterministic):
                 # Index is a slice, e.g., [2:6]
 
                 # Normalize the slice
-                s = slice(*(s.indices(X.plates[j])))
+                (start, stop, step) = s.indices(X.plates[j])
+                # If the slice is used for indexing, a negative stop value would
+                # mean counting from the end
+                s = slice(start, None if stop < 0 else stop, step)
                 if slicelen(s) <= 0:
                     raise IndexError("Slicing leads to empty plates")
                 slices[k] = s
-- 
2.43.0


From ead89eaf631a97230f28a206de8d660c6acd2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 07/51] fix: lower bound contribution arguments of point
 estimate nodes

---
 bayespy/inference/vmp/nodes/dirichlet.py | 2 +-
 bayespy/inference/vmp/nodes/gamma.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 8825136..2d38131 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -323,7 +323,7 @@ class Concentration(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
+    def lower_bound_contribution(self, gradient=False, ignore_masked=True):
         return (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
             + self.u[1] * self.regularization[1]
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 371d256..162026b 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -330,7 +330,7 @@ class GammaShape(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
+    def lower_bound_contribution(self, gradient=False, ignore_masked=True):
         return 0
 
 
-- 
2.43.0


From 20ba5835442b4af6c264c37b8d64bc7f2f3e7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 08/51] fix: diagonal Wishart of gamma variables whose moments
 are broadcasted

---
 bayespy/inference/vmp/nodes/gamma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 162026b..722c45a 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -383,8 +383,10 @@ class _GammaToDiagonalWishart(Deterministic):
         u = self.parents[0].get_moments()
 
         # Form a diagonal matrix from the gamma variables
-        return [np.identity(self.dims[0][0]) * u[0][...,np.newaxis],
-                np.sum(u[1], axis=(-1))]
+        # (explicit broadcasting because the last plate is summed over)
+        D = self.dims[0][0]
+        return [np.identity(D) * u[0][...,np.newaxis],
+                np.sum(u[1] * np.ones(D), axis=-1)]
 
     @staticmethod
     def _compute_message_to_parent(index, m_children, *u_parents):
-- 
2.43.0


From 9bcab99cfb60af2604de902425165526dd748f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 09/51] fix: printing GaussianARD variables which are not
 vectors

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ec1ddb2..a1953c1 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1680,8 +1680,9 @@ class GaussianARD(_GaussianTemplate):
         return
 
     def __str__(self):
+        ndim = len(self.dims[0])
         mu = self.u[0]
-        Cov = self.u[1] - linalg.outer(mu, mu)
+        Cov = self.u[1] - linalg.outer(mu, mu, ndim=ndim)
         return ("%s ~ Gaussian(mu, Cov)\n"
                 "  mu = \n"
                 "%s\n"
-- 
2.43.0


From 310eb0f9d6926efabffdeb14ba571c8c9dcba2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 10/51] fix: initializing binomial and Bernoulli variables from
 a value

---
 bayespy/inference/vmp/nodes/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 3140507..8a0dcc9 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -45,7 +45,7 @@ class BinomialMoments(PoissonMoments):
         x = np.asanyarray(x)
         if np.any(x > self.N):
             raise ValueError("Invalid count")
-        return super().compute_fixed_moments()
+        return super().compute_fixed_moments(x)
 
 
     def compute_dims_from_values(self, x):
-- 
2.43.0


From 6f3a621bf7a5c2a93e6f21368a5ed8c56227d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 11/51] fix: sum messages and index sum-product keys in a
 deterministic order

---
 bayespy/inference/vmp/nodes/dot.py  | 2 +-
 bayespy/inference/vmp/nodes/node.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 0659ae4..477a587 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -172,7 +172,7 @@ class SumMultiply(Deterministic):
         for keyset in keysets:
             full_keyset += keyset
             #full_keyset += list(keyset.keys())
-        full_keyset = list(set(full_keyset))
+        full_keyset = misc.unique(full_keyset)
 
         # Input and output messages are Gaussian unless there is at least one
         # Gaussian-gamma message from the parents
diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index eb8c132..368c182 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -289,7 +289,9 @@ class Node():
         self.mask = np.array(False)
 
         # Children
-        self.children = set()
+        # (insertion-ordered so that the messages are always summed in the same
+        # order)
+        self.children = {}
 
         # Get and validate the plate multiplier
         parent_plates_multiplier = [self._plates_multiplier_from_parent(index)
@@ -435,13 +437,13 @@ class Node():
            The child node recognizes its parents by their index
            number.
         """
-        self.children.add((child, index))
+        self.children[(child, index)] = True
 
     def _remove_child(self, child, index):
         """
         Remove a child node.
         """
-        self.children.remove((child, index))
+        del self.children[(child, index)]
 
     def get_mask(self):
         return self.mask
-- 
2.43.0


From 7d08cf809173e60c5782ed47c3956e362fe12ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 12/51] fix: deleting nodes which have children

---
 bayespy/inference/vmp/nodes/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 368c182..562b162 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -443,7 +443,8 @@ class Node():
         """
         Remove a child node.
         """
-        del self.children[(child, index)]
+        # (already removed if it was a deterministic node without children)
+        self.children.pop((child, index), None)
 
     def get_mask(self):
         return self.mask
@@ -704,7 +705,8 @@ class Node():
         """
         for (ind, parent) in enumerate(self.parents):
             parent._remove_child(self, ind)
-        for (child, _) in self.children:
+        while self.children:
+            (child, _) = next(iter(self.children))
             child.delete()
 
     @staticmethod
-- 
2.43.0


From 26fa22264eaae0c8102165917f5f6434a99669a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 13/51] fix: replace the result file only when the new one is
 completely on the disk

---
 bayespy/inference/vmp/nodes/stochastic.py |  6 +--
 bayespy/inference/vmp/vmp.py              |  7 +--
 bayespy/utils/misc.py                     | 53 +++++++++++++++++++++++
 3 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index bc2e090..b87603c 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -304,17 +304,13 @@ class Stochastic(Node):
 
     def save(self, filename):
         # Open HDF5 file
-        h5f = h5py.File(filename, 'w')
-        try:
+        with misc.create_hdf5(filename) as h5f:
             # Write each node
             nodegroup = h5f.create_group('nodes')
             if self.name == '':
                 raise ValueError("In order to save nodes, they must have "
                                  "(unique) names.")
             self._save(nodegroup.create_group(self.name))
-        finally:
-            # Close file
-            h5f.close()
 
 
     def _save(self, group):
diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index d1aea67..766d275 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -259,9 +259,7 @@ class VB():
                 raise Exception("Filename must be given.")
 
         # Open HDF5 file
-        h5f = h5py.File(filename, 'w')
-
-        try:
+        with misc.create_hdf5(filename) as h5f:
             # Write each node
             nodegroup = h5f.create_group('nodes')
             for node in nodes:
@@ -287,9 +285,6 @@ class VB():
                 user_data_group = h5f.create_group('user_data')
                 for (key, value) in self.user_data.items():
                     user_data_group[key] = value
-        finally:
-            # Close file
-            h5f.close()
 
 
     @staticmethod
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index ca6bd97..2c612d5 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -10,13 +10,18 @@ General numerical functions and methods.
 
 """
 from scipy.optimize import approx_fprime
+import contextlib
 import functools
 import itertools
 import operator
+import os
+import stat
+import uuid
 
 import sys
 import getopt
 
+import h5py
 import numpy as np
 import scipy as sp
 import scipy.linalg as linalg
@@ -469,6 +474,54 @@ def write_to_hdf5(group, data, name):
         raise ValueError('Could not write %s' % data)
 
 
+@contextlib.contextmanager
+def create_hdf5(filename):
+    """
+    Create an HDF5 file, replacing the old file only when completed.
+
+    The contents are first written to a temporary file in the same directory.
+    Thus, a failure or a crash at any point leaves the old file as it was.
+    """
+    if (not isinstance(filename, (str, bytes, os.PathLike)) or
+        (os.path.exists(filename) and not os.path.isfile(filename))):
+        # File-like objects and special files can't be replaced
+        with h5py.File(filename, 'w') as h5f:
+            yield h5f
+        return
+
+    filename = os.path.realpath(os.fsdecode(filename))
+    (directory, basename) = os.path.split(filename)
+
+    tmpname = os.path.join(directory,
+                           '.%s.%s.tmp' % (basename[:100], uuid.uuid4().hex))
+    fd = os.open(tmpname, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o666)
+    try:
+        if os.path.exists(filename):
+            # Keep the permissions
+            os.chmod(tmpname, stat.S_IMODE(os.stat(filename).st_mode))
+
+        with h5py.File(tmpname, 'w') as h5f:
+            yield h5f
+
+        # Make sure everything is on the disk before replacing the old file
+        os.fsync(fd)
+        os.replace(tmpname, filename)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(tmpname)
+        raise
+    finally:
+        os.close(fd)
+
+    # Make the replacement durable too
+    if os.name == 'posix':
+        fd = os.open(directory, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
+
+
 def nans(size=()):
     return np.tile(np.nan, size)
 
-- 
2.43.0


From 029d2f4479765cb0e656646dce6fd4901ea174ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 14/51] fix: loading user data

---
 bayespy/inference/vmp/vmp.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 766d275..1e5209f 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -289,16 +289,8 @@ class VB():
 
     @staticmethod
     def load_user_data(filename):
-        f = h5py.File(filename, 'r')
-        try:
-            group = f['user_data']
-            for (key, value) in group.items():
-                user_data['key'] = value[...]
-        except:
-            raise
-        finally:
-            f.close()
-        return
+        with h5py.File(filename, 'r') as f:
+            return {key: value[()] for (key, value) in f['user_data'].items()}
 
 
     def load(self, *nodes, filename=None, nodes_only=False):
-- 
2.43.0


From 645e8efed431510552372f5881077bed65515bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 15/51] fix: use_logging

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 1e5209f..241a2bf 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -109,7 +109,7 @@ class VB():
 
 
     def use_logging(self, use):
-        if use_logging:
+        if use:
             logger = logging.getLogger(__name__)
             self.print = logger.info
         else:
-- 
2.43.0


From b9e7791dc60125793bc5bd1fd327ecbb8f07e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 16/51] fix: autosave only after the iteration has been counted

---
 bayespy/inference/vmp/vmp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 241a2bf..1d897e3 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -733,9 +733,13 @@ class VB():
                     self.print("Converged at iteration %d." % (self.iter+1))
                 self.converged = True
 
+        self.annealing_changed = False
+
+        self.iter += 1
+
         # Auto-save, if requested
         if (self.autosave_iterations > 0
-            and np.mod(self.iter+1, self.autosave_iterations) == 0):
+            and np.mod(self.iter, self.autosave_iterations) == 0):
 
             if self.autosave_nodes is not None:
                 self.save(*self.autosave_nodes, filename=self.autosave_filename)
@@ -744,8 +748,4 @@ class VB():
             if verbose:
                 self.print('Auto-saved to %s' % self.autosave_filename)
 
-        self.annealing_changed = False
-
-        self.iter += 1
-
         return self.converged
-- 
2.43.0


From ee1652601a3c312470130f3446c38298b2dbdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 17/51] fix: a failing load changes nothing, a succeeding one
 restores all records

---
 bayespy/inference/vmp/nodes/expfamily.py  | 28 ++++++++++------
 bayespy/inference/vmp/nodes/stochastic.py | 23 ++++++++++---
 bayespy/inference/vmp/vmp.py              | 41 ++++++++++++++---------
 3 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f93ec57..c7600e3 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -521,18 +521,26 @@ class ExponentialFamily(Stochastic):
         super()._save(group)
 
 
-    def _load(self, group):
+    def _read_state(self, group):
         """
-        Load the state of the node from a HDF5 file.
+        Read and check the state from a HDF5 file without changing the node.
         """
-        # TODO/FIXME: Check that the shapes are correct!
-        for i in range(len(self.phi)):
-            phii = group['phi%d' % i][...]
-            self.phi[i] = phii
-
-        self.f = group['f'][...]
-        self.g = group['g'][...]
-        super()._load(group)
+        phi = [group['phi%d' % i][...] for i in range(len(self.phi))]
+        for (i, phii) in enumerate(phi):
+            if not misc.is_shape_subset(np.shape(phii), self.get_shape(i)):
+                raise ValueError("Invalid shape of phi[%d] for node %s"
+                                 % (i, self.name))
+        return dict(phi=phi,
+                    f=group['f'][...],
+                    g=group['g'][...],
+                    **super()._read_state(group))
+
+
+    def _set_state(self, phi, f, g, **state):
+        self.phi = phi
+        self.f = f
+        self.g = g
+        super()._set_state(**state)
 
 
     def random(self):
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index b87603c..984df58 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -338,13 +338,26 @@ class Stochastic(Node):
         """
         Load the state of the node from a HDF5 file.
         """
-        # TODO/FIXME: Check that the shapes are correct!
-        for i in range(len(self.u)):
-            ui = group['u%d' % i][...]
-            self.u[i] = ui
+        self._set_state(**self._read_state(group))
+
+
+    def _read_state(self, group):
+        """
+        Read and check the state from a HDF5 file without changing the node.
+        """
+        u = [group['u%d' % i][...] for i in range(len(self.u))]
+        self._check_shape(u)
+        observed = group['observed'][...]
+        if not misc.is_shape_subset(np.shape(observed), self.plates):
+            raise ValueError("Invalid shape of the observation mask for node %s"
+                             % self.name)
+        return dict(u=u, observed=observed)
+
 
+    def _set_state(self, u, observed):
+        self.u = u
         old_observed = self.observed
-        self.observed = group['observed'][...]
+        self.observed = observed
         # Update masks if necessary
         if np.any(old_observed != self.observed):
             self._update_mask()
diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 1d897e3..6ac28b3 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -311,37 +311,48 @@ class VB():
                 nodes = self.model
             else:
                 nodes = [self[node] for node in nodes if node is not None]
-            # Read each node
-            for node_id in nodes:
-                node = self[node_id]
+            # Read everything before changing anything
+            states = []
+            for node in nodes:
                 if node.name == '':
-                    h5f.close()
                     raise Exception("In order to load nodes, they must have "
                                     "(unique) names.")
                 if hasattr(node, 'load') and callable(node.load):
                     try:
-                        node._load(h5f['nodes'][node.name])
+                        group = h5f['nodes'][node.name]
                     except KeyError:
-                        h5f.close()
                         raise Exception("File does not contain variable %s"
                                         % node.name)
+                    states.append((node, node._read_state(group)))
             # Read iteration statistics
             if not nodes_only:
-                self.L = h5f['L'][...]
-                self.cputime = h5f['cputime'][...]
-                self.iter = h5f['iter'][...]
-                self.converged = h5f['converged'][...]
+                L = h5f['L'][...]
+                cputime = h5f['cputime'][...]
+                iteration = int(h5f['iter'][()])
+                converged = bool(h5f['converged'][()])
+                # The history of the other nodes is not known
+                l = {node: misc.nans(len(L)) for node in self.model}
                 for node in nodes:
-                    self.l[node] = h5f['boundterms'][node.name][...]
-                try:
-                    self.callback_output = h5f['callback_output'][...]
-                except KeyError:
-                    pass
+                    l[node] = h5f['boundterms'][node.name][...]
+                callback_output = None
+                if 'callback_output' in h5f:
+                    callback_output = h5f['callback_output'][...]
 
         finally:
             # Close file
             h5f.close()
 
+        for (node, state) in states:
+            node._set_state(**state)
+
+        if not nodes_only:
+            self.L = L
+            self.cputime = cputime
+            self.iter = iteration
+            self.converged = converged
+            self.l = l
+            self.callback_output = callback_output
+
     def __getitem__(self, name):
         if name in self.model:
             return name
-- 
2.43.0


From 021bbbe9d1fbfb9d7f4ff973428e79b39eac859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 18/51] fix: save and load the value of maximum likelihood
 nodes

---
 bayespy/inference/vmp/nodes/ml.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/ml.py b/bayespy/inference/vmp/nodes/ml.py
index fda0753..2c07ff1 100644
--- a/bayespy/inference/vmp/nodes/ml.py
+++ b/bayespy/inference/vmp/nodes/ml.py
@@ -6,6 +6,8 @@
 
 import numpy as np
 
+from bayespy.utils import misc
+
 from .node import Moments
 from .deterministic import Deterministic
 from .stochastic import Stochastic
@@ -202,6 +204,23 @@ class MaximumLikelihood(Stochastic):
         raise NotImplementedError()
 
 
+    def _save(self, group):
+        misc.write_to_hdf5(group, self._x, 'x')
+        super()._save(group)
+
+
+    def _read_state(self, group):
+        x = group['x'][...]
+        if np.shape(x) != np.shape(self._x):
+            raise ValueError("Invalid shape of x for node %s" % self.name)
+        return dict(x=x, **super()._read_state(group))
+
+
+    def _set_state(self, x, **state):
+        self._x = x
+        super()._set_state(**state)
+
+
 class Function(Deterministic):
 
 
-- 
2.43.0


From 1b679a25639154daa5ed09d500e07a5f3dce4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 19/51] fix: form the result file in the memory, failing writes
 crash the HDF5 library

---
 bayespy/utils/misc.py | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 2c612d5..7c998f3 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -479,39 +479,46 @@ def create_hdf5(filename):
     """
     Create an HDF5 file, replacing the old file only when completed.
 
-    The contents are first written to a temporary file in the same directory.
-    Thus, a failure or a crash at any point leaves the old file as it was.
-    """
-    if (not isinstance(filename, (str, bytes, os.PathLike)) or
-        (os.path.exists(filename) and not os.path.isfile(filename))):
-        # File-like objects and special files can't be replaced
-        with h5py.File(filename, 'w') as h5f:
-            yield h5f
+    The contents are first formed in the memory and written to a temporary file
+    in the same directory. Thus, a failure or a crash at any point leaves the
+    old file as it was. (The HDF5 library itself may crash if writing fails.)
+    """
+    with h5py.File('memory', 'w', driver='core', backing_store=False) as h5f:
+        yield h5f
+        h5f.flush()
+        image = h5f.id.get_file_image()
+
+    if hasattr(filename, 'write'):
+        # File-like object
+        filename.seek(0)
+        filename.truncate()
+        filename.write(image)
         return
 
     filename = os.path.realpath(os.fsdecode(filename))
-    (directory, basename) = os.path.split(filename)
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        # Special files can't be replaced
+        with open(filename, 'wb') as f:
+            f.write(image)
+        return
 
+    (directory, basename) = os.path.split(filename)
     tmpname = os.path.join(directory,
                            '.%s.%s.tmp' % (basename[:100], uuid.uuid4().hex))
-    fd = os.open(tmpname, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o666)
     try:
-        if os.path.exists(filename):
-            # Keep the permissions
-            os.chmod(tmpname, stat.S_IMODE(os.stat(filename).st_mode))
-
-        with h5py.File(tmpname, 'w') as h5f:
-            yield h5f
-
-        # Make sure everything is on the disk before replacing the old file
-        os.fsync(fd)
+        with open(tmpname, 'xb') as f:
+            if os.path.exists(filename):
+                # Keep the permissions
+                os.chmod(tmpname, stat.S_IMODE(os.stat(filename).st_mode))
+            f.write(image)
+            # Make sure everything is on the disk before replacing the old file
+            f.flush()
+            os.fsync(f.fileno())
         os.replace(tmpname, filename)
     except BaseException:
         with contextlib.suppress(OSError):
             os.unlink(tmpname)
         raise
-    finally:
-        os.close(fd)
 
     # Make the replacement durable too
     if os.name == 'posix':
-- 
2.43.0


From 2d6bc8999c3750dd66cc7352c8342c2c81983694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 20/51] fix: record an iteration completely or not at all

---
 bayespy/inference/vmp/vmp.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 6ac28b3..ee504be 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -697,15 +697,16 @@ class VB():
             self._append_iterations(100)
 
         # Call the custom function provided by the user
+        callback_output = self.callback_output
         if callable(self.callback):
             z = self.callback()
             if z is not None:
                 z = np.array(z)[...,np.newaxis]
-                if self.callback_output is None:
-                    self.callback_output = z
+                if callback_output is None:
+                    callback_output = z
                 else:
-                    self.callback_output = np.concatenate((self.callback_output,z),
-                                                          axis=-1)
+                    callback_output = np.concatenate((callback_output,z),
+                                                     axis=-1)
 
         t = time.time()
         L = self.loglikelihood_lowerbound()
@@ -724,7 +725,7 @@ class VB():
                            % (self.iter+1, L, cputime))
 
         # Check the progress of the iteration
-        self.converged = False
+        converged = False
         if not self.ignore_bound_checks and not self.annealing_changed and self.iter > 0:
             # Check for errors
             if self.L[self.iter-1] - L > 1e-6:
@@ -742,11 +743,12 @@ class VB():
             #if (L1 - L0) / div < tol or L1 - L0 <= 0:
                 if verbose:
                     self.print("Converged at iteration %d." % (self.iter+1))
-                self.converged = True
-
-        self.annealing_changed = False
+                converged = True
 
-        self.iter += 1
+        # If anything above failed, the iteration has no record at all
+        (self.callback_output, self.annealing_changed, self.converged, self.iter) = (
+            callback_output, False, converged, self.iter + 1
+        )
 
         # Auto-save, if requested
         if (self.autosave_iterations > 0
-- 
2.43.0


From 216d311759d114f202bfdf09bc637662c8259ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 21/51] fix: plate multipliers of sliced nodes follow the
 plates

---
 bayespy/inference/vmp/nodes/node.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 562b162..4ab7f98 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -1026,6 +1026,29 @@ class Slice(Deterministic):
 
         return tuple(plates)
 
+    def _plates_multiplier_from_parent(self, index):
+
+        # The multiplier may have fewer axes than the plates
+        multiplier = self.parents[index].plates_multiplier
+        ndim = len(self.parents[index].plates)
+        multiplier = [1] * (ndim - len(multiplier)) + list(multiplier)
+
+        k = 0
+        for s in self.slices:
+            if s is None:
+                multiplier = multiplier[:k] + [1] + multiplier[k:]
+                k += 1
+            elif isinstance(s, slice):
+                k += 1
+            else:
+                if multiplier[k] != 1:
+                    raise NotImplementedError(
+                        "Integer indexing doesn't support plate multipliers"
+                    )
+                del multiplier[k]
+
+        return tuple(multiplier)
+
     @staticmethod
     def __reverse_indexing(slices, m_child, plates, dims):
         """
-- 
2.43.0


From 1a75fb752c8a013e16ca7157978df239727410dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 22/51] fix: SumMultiply applies plate multipliers to the
 messages to its parents

---
 bayespy/inference/vmp/nodes/dot.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 477a587..1e69f71 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -451,6 +451,12 @@ class SumMultiply(Deterministic):
 
         parent = self.parents[index]
 
+        # Multiplier of the plates which the parent doesn't have
+        r_multiplier = self.broadcasting_multiplier(
+            self.plates_multiplier,
+            self._plates_multiplier_from_parent(index)
+        )
+
         #
         # Compute the first message
         #
@@ -613,6 +619,9 @@ class SumMultiply(Deterministic):
             if r != 1:
                 msg[ind] *= r
 
+            # Apply the multiplier of the plates that are summed over
+            msg[ind] = r_multiplier * msg[ind]
+
         if self.gaussian_gamma:
             alphas = [
                 (u_parents[i][2] if not is_const else 1.0)
@@ -628,7 +637,7 @@ class SumMultiply(Deterministic):
                                        plates_from=self.plates,
                                        plates_to=parent.plates)
 
-            msg = msg + [m2, m3]
+            msg = msg + [r_multiplier * m2, r_multiplier * m3]
 
         return msg
 
-- 
2.43.0


From 987760082a27e0a722c1aaec661e682e8d8ba2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 23/51] fix: plate multipliers follow the plates in nodes that
 add or remove plates

---
 bayespy/inference/vmp/nodes/categorical_markov_chain.py | 3 +++
 bayespy/inference/vmp/nodes/gamma.py                    | 3 +++
 bayespy/inference/vmp/nodes/gate.py                     | 7 +++++++
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py    | 3 +++
 bayespy/inference/vmp/nodes/stochastic.py               | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index c0af2f9..d3f626b 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -432,6 +432,9 @@ class CategoricalMarkovChainToCategorical(Deterministic):
         else:
             raise ValueError("Parent index out of bounds")
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return tuple(plates_multiplier) + (1,)
+
 
 # Make use of the conversion node
 CategoricalMarkovChainMoments.add_converter(CategoricalMoments,
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 722c45a..7827580 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -375,6 +375,9 @@ class _GammaToDiagonalWishart(Deterministic):
     def _plates_from_parent(self, index):
         return self.parents[index].plates[:-1]
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return plates_multiplier[:-1]
+
     @staticmethod
     def _compute_weights_to_parent(index, weights):
         return weights[..., np.newaxis]
diff --git a/bayespy/inference/vmp/nodes/gate.py b/bayespy/inference/vmp/nodes/gate.py
index 81ca607..99e84ce 100644
--- a/bayespy/inference/vmp/nodes/gate.py
+++ b/bayespy/inference/vmp/nodes/gate.py
@@ -216,6 +216,13 @@ class Gate(Deterministic):
             raise ValueError("Invalid parent index")
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        """
+        The multiplier follows the plates
+        """
+        return self._compute_plates_from_parent(index, plates_multiplier)
+
+
 def Choose(z, *nodes):
     """Choose plate elements from nodes based on a categorical variable.
 
diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 1164a1a..271b88d 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -2036,6 +2036,9 @@ class _MarkovChainToGaussian(Deterministic):
         plates = parent.plates + (parent.dims[0][0],)
         return plates
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        return tuple(plates_multiplier) + (1,)
+
     def _compute_moments(self, u):
         """
         Transform the moments of a GMC to moments of a Gaussian.
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index 984df58..46413fc 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -164,6 +164,10 @@ class Stochastic(Node):
     def _compute_plates_from_parent(self, index, plates):
         return self._distribution.plates_from_parent(index, plates)
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        # The multiplier follows the plates
+        return self._distribution.plates_from_parent(index, plates_multiplier)
+
 
     def _compute_weights_to_parent(self, index, weights):
         return self._distribution.compute_weights_to_parent(index, weights)
-- 
2.43.0


From 86ace1021004a0e0c71e0517131d7a028c4508c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 24/51] fix: gradient of multinomial variables with different
 numbers of trials

---
 bayespy/inference/vmp/nodes/multinomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index d5f35d8..0e94e22 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -210,7 +210,8 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
             :math:`\phi`.
 
         """
-        return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
+        gu = linalg.inner(g[0], u[0])[...,None]
+        return [u[0] * (g[0] - gu / np.asanyarray(self.N)[...,None])]
 
     def squeeze(self, axis):
         if np.ndim(self.N) < abs(axis):
-- 
2.43.0


From 855f1d84f3add4a866f20bfbb470ea0b1485eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 25/51] fix: Euclidean gradient of Dirichlet variables

---
 bayespy/inference/vmp/nodes/dirichlet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 2d38131..51e3627 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -223,11 +223,13 @@ class DirichletDistribution(ExponentialFamilyDistribution):
 
            \nabla &=
            \begin{bmatrix}
-             (\psi^{(1)}(\phi_1) - \psi^{(1)}(\sum_d \phi_{1,d}) \nabla_1
+             \psi^{(1)}(\phi_1) \nabla_1
+             - \psi^{(1)}(\sum_d \phi_{1,d}) \sum_d \nabla_{1,d}
            \end{bmatrix}
         """
         sum_phi = np.sum(phi[0], axis=-1, keepdims=True)
-        d0 = g[0] * (special.polygamma(1, phi[0]) - special.polygamma(1, sum_phi))
+        d0 = (g[0] * special.polygamma(1, phi[0])
+              - np.sum(g[0], axis=-1, keepdims=True) * special.polygamma(1, sum_phi))
         return [d0]
 
 
-- 
2.43.0


From 8d318722bf9681be738ceaa81f9a7a7e3d4c3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 26/51] fix: reject negative shape parameters of gamma
 variables instead of returning spurious moments

---
 bayespy/inference/vmp/nodes/gamma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 7827580..8079e01 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -139,6 +139,9 @@ class GammaDistribution(ExponentialFamilyDistribution):
            &=
            TODO
         """
+        if np.any(np.asanyarray(phi[1]) < 0):
+            raise ValueError("Shape parameter should be positive")
+
         with np.errstate(invalid='raise', divide='raise'):
             log_b = np.log(-phi[0])
             u0 = phi[1] / (-phi[0])
-- 
2.43.0


From 2d306c9d1df0321b41ad4e3eb7298744a758d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 27/51] fix: gradient optimisation compares steps with the
 bound of the current model and recovers from failed ones

---
 bayespy/inference/vmp/vmp.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index ee504be..eb7bc08 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -515,14 +515,30 @@ class VB():
             else:
                 s = g2
 
+            # The state and the bound before the step. The previous iteration
+            # can't be used because the model may have been changed since.
+            L_prev = self.compute_lowerbound()
+            collapsed_params = self.get_parameters(*collapsed)
+
             success = False
             while not success:
 
+                if scale < 2 ** (-50):
+                    # Not even the shortest steps succeed, so stay
+                    if verbose:
+                        self.print("No successful step found")
+                    self.set_parameters(p, *nodes)
+                    self.set_parameters(collapsed_params, *collapsed)
+                    p_new = p
+                    scale = 1.0
+                    dd_prev = 0
+                    break
+
                 p_new = self.add(p, s, scale=scale)
 
                 try:
                     self.set_parameters(p_new, *nodes)
-                except:
+                except Exception:
                     if verbose:
                         self.print("CG update was unsuccessful, using gradient and resetting CG")
                     if s is g2:
@@ -532,11 +548,10 @@ class VB():
                     continue
 
                 # Update collapsed variables
-                collapsed_params = self.get_parameters(*collapsed)
                 try:
                     for node in collapsed:
                         self[node].update()
-                except:
+                except Exception:
                     self.set_parameters(collapsed_params, *collapsed)
                     if verbose:
                         self.print("Collapsed node update node failed, reset CG")
@@ -549,9 +564,8 @@ class VB():
                 L = self.compute_lowerbound()
 
                 bound_decreased = (
-                    self.iter > 0 and
-                    L < self.L[self.iter-1] and
-                    not np.allclose(L, self.L[self.iter-1], rtol=1e-8)
+                    L < L_prev and
+                    not np.allclose(L, L_prev, rtol=1e-8)
                 )
 
                 if np.isnan(L) or bound_decreased:
@@ -565,7 +579,7 @@ class VB():
                             self.print(
                                 "Gradient ascent decreased lower bound from {0} to {1}, halfing step length"
                                 .format(
-                                    self.L[self.iter-1],
+                                    L_prev,
                                     L,
                                 )
                             )
@@ -575,7 +589,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, reset CG."
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
@@ -587,7 +601,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, halfing step length"
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
-- 
2.43.0


From a885a923069df417cfbe379718f073c52b336c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 28/51] fix: pattern search tries every step from the same
 state and keeps the best

---
 bayespy/inference/vmp/vmp.py | 40 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index eb7bc08..40ae08a 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -647,28 +647,38 @@ class VB():
         # Search direction
         dp = self.add(p1, p0, scale=-1)
 
+        collapsed_params = self.get_parameters(*collapsed)
+
+        def step(alpha):
+            # Every step starts from the same state
+            self.set_parameters(self.add(p1, dp, scale=alpha), *nodes)
+            self.set_parameters(collapsed_params, *collapsed)
+            # Update collapsed nodes
+            for x in collapsed:
+                self[x].update()
+
         # Cost function for pattern search
+        costs = {}
         def cost(alpha):
-            p_new = self.add(p1, dp, scale=alpha)
             try:
-                self.set_parameters(p_new, *nodes)
-            except:
+                step(alpha)
+            except Exception:
                 return np.inf
-            # Update collapsed nodes
-            for x in collapsed:
-                self[x].update()
-            return -self.compute_lowerbound()
+            L = self.compute_lowerbound()
+            if np.isnan(L):
+                return np.inf
+            costs[float(alpha)] = -L
+            return -L
 
         # Optimize step length
-        res = scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
-
-        # Set found parameter values
-        p_new = self.add(p1, dp, scale=res.x)
-        self.set_parameters(p_new, *nodes)
+        try:
+            scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
+        except RuntimeError:
+            # No minimum was bracketed
+            pass
 
-        # Update collapsed nodes
-        for x in collapsed:
-            self[x].update()
+        # Set the best of the tried steps (or no step if everything failed)
+        step(min(costs, key=costs.get, default=0.0))
 
         cputime = time.time() - t
         self._end_iteration_step('PS', cputime)
-- 
2.43.0


From 548d86e0295726e99a73a8f548ab8aae69b95183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 29/51] fix: rotation of Gaussian variables

---
 bayespy/inference/vmp/transformations.py | 59 ++++++++++++------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 795e259..41ca39d 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -238,57 +238,57 @@ class RotateGaussian():
         This method should be called just before optimization.
         """
         
-        mask = self.X.mask[...,np.newaxis,np.newaxis]
+        # Plates which are ignored in the lower bound must be ignored here too
+        mask = np.broadcast_to(self.X.mask, self.X.plates)
 
         # Number of plates
-        self.N = self.X.plates[0] #np.sum(mask)
-
-        # Compute the sum <XX> over plates
-        self.XX = misc.sum_multiply(self.X.get_moments()[1],
-                                    mask,
-                                    axis=(-1,-2),
-                                    sumaxis=False,
-                                    keepdims=False)
-        # Parent's moments
-        self.Lambda = self.X.parents[1].get_moments()[0]
-
-    def _compute_bound(self, R, logdet=None, inv=None, gradient=False):
+        self.N = np.sum(mask)
+
+        # Compute <xx> and mu*<x> for each plate
+        (X, XX) = self.X.get_moments()
+        (Lambda_mu, _, self.Lambda, _) = self.X.parents[0].get_moments()
+        self.XX = XX * mask[...,np.newaxis,np.newaxis]
+        self.Lambda_mu_X = misc.sum_to_shape(
+            linalg.outer(Lambda_mu, X) * mask[...,np.newaxis,np.newaxis],
+            np.shape(XX)[-2:]
+        )
+
+    def _compute_bound(self, R, logdet=None, inv=None, gradient=False, terms=False):
         
         """
         Rotate q(X) as X->RX: q(X)=N(R*mu, R*Cov*R')
 
         Assume:
         :math:`p(\mathbf{X}) = \prod^M_{m=1} 
-               N(\mathbf{x}_m|0, \mathbf{\Lambda})`
+               N(\mathbf{x}_m|\boldsymbol{\mu}_m, \mathbf{\Lambda}_m)`
         """
 
         # TODO/FIXME: X and alpha should NOT contain observed values!! Check
         # that.
 
-        # TODO/FIXME: Allow non-zero prior mean!
-
-        # Assume constant mean and precision matrix over plates..
-
-        # Compute rotated moments
-        XX_R = dot(R, self.XX, R.T)
+        if inv is None:
+            inv = np.linalg.inv(R)
+        if logdet is None:
+            logdet = np.linalg.slogdet(R)[1]
 
-        inv_R = inv
-        logdet_R = logdet
+        # Compute rotated moments (and sum over the plates)
+        Lambda_R_XX = misc.sum_to_shape(dot(self.Lambda, R, self.XX),
+                                        np.shape(R))
 
         # Compute entropy H(X)
-        logH_X = random.gaussian_entropy(-2*self.N*logdet_R, 
+        logH_X = random.gaussian_entropy(-2*self.N*logdet, 
                                          0)
 
         # Compute <log p(X)>
-        logp_X = random.gaussian_logpdf(np.vdot(XX_R, self.Lambda),
-                                        0,
+        logp_X = random.gaussian_logpdf(np.vdot(Lambda_R_XX, R),
+                                        np.vdot(self.Lambda_mu_X, R),
                                         0,
                                         0,
                                         0)
 
         # Compute the bound
         if terms:
-            bound = {self.X: bound}
+            bound = {self.X: logp_X + logH_X}
         else:
             bound = logp_X + logH_X
 
@@ -296,13 +296,12 @@ class RotateGaussian():
             return bound
 
         # Compute dH(X)
-        dlogH_X = random.gaussian_entropy(-2*self.N*inv_R.T,
+        dlogH_X = random.gaussian_entropy(-2*self.N*inv.T,
                                           0)
 
         # Compute d<log p(X)>
-        dXX = 2*dot(self.Lambda, R, self.XX)
-        dlogp_X = random.gaussian_logpdf(dXX,
-                                         0,
+        dlogp_X = random.gaussian_logpdf(2*Lambda_R_XX,
+                                         self.Lambda_mu_X,
                                          0,
                                          0,
                                          0)
-- 
2.43.0


From f82c3a58a51fc9c80f5bc87f686513d79f8eb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 30/51] fix: gradient of plate rotations with respect to
 several precisions

---
 bayespy/inference/vmp/transformations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 41ca39d..7369f7b 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -1054,9 +1054,8 @@ class RotateGaussianARD():
 
         if self.update_alpha:
 
-            D_alpha = -psi(alpha/b)
-            D_b0_alpha = b0 * D_alpha
-            D_a0_logalpha = a0 * D_logalpha
+            D_b0_alpha = -psi(b0*alpha/b)
+            D_a0_logalpha = -psi(a0/b)
 
             # Compute dH(alpha)
             # This cancels out with the log(alpha) term in log(p(alpha))
-- 
2.43.0


From 746e17c6af74a92266b20139c87c2bce624ed699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 31/51] fix: rotations ignore the plates which the lower bound
 ignores

---
 bayespy/inference/vmp/transformations.py | 54 +++++++++++++++++-------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 7369f7b..18bf168 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -550,6 +550,9 @@ class RotateGaussianARD():
         plates_X = list(self.node_X.get_shape(0))
         plates_X.pop(self.axis)
 
+        # Plates which are ignored in the lower bound must be ignored here too
+        mask = misc.add_trailing_axes(self.node_X.mask, self.ndim-1)
+
         def sum_to_alpha(V, ndim=2):
             # TODO/FIXME: This could be improved so that it is not required to
             # explicitly repeat to alpha plates. Multiplying by ones was just a
@@ -574,6 +577,12 @@ class RotateGaussianARD():
             mu = safe_move_plate_axis(mu, 1)
             XX = safe_move_plate_axis(XX, 2)
             mu2 = safe_move_plate_axis(mu2, 1)
+            mask = safe_move_plate_axis(mask, 0)
+            # NOTE: A plate axis can be rotated only if its plates are ignored
+            # either all or not at all.
+            X = X * mask[...,None]
+            XX = XX * mask[...,None,None]
+            mu2 = mu2 * mask[...,None]
             if self.update_alpha:
                 a = safe_move_plate_axis(a, 1)
                 a0 = safe_move_plate_axis(a0, 1)
@@ -620,9 +629,9 @@ class RotateGaussianARD():
                     
         else:
             # Sum axes that are not in the plates of alpha
-            self.XX = sum_to_alpha(XX)
-            self.mu2 = sum_to_alpha(mu2, ndim=1)
-            self.Xmu = sum_to_alpha(Xmu)
+            self.XX = sum_to_alpha(mask[...,None,None] * XX)
+            self.mu2 = sum_to_alpha(mask[...,None] * mu2, ndim=1)
+            self.Xmu = sum_to_alpha(mask[...,None,None] * Xmu)
             
         
         if self.update_alpha:
@@ -632,6 +641,7 @@ class RotateGaussianARD():
         else:
             self.alpha = alpha
 
+        self.mask_X = np.asanyarray(mask)
         self.plates_X = plates_X
         self.plates_alpha = plates_alpha
 
@@ -808,16 +818,17 @@ class RotateGaussianARD():
             inv_R = inv
 
         # Compute entropy H(X)
-        logH_X = random.gaussian_entropy(-2*sum_plates(logdet_R + logdet_Q,
-                                                             plates_X),
-                                               0)
+        logH_X = random.gaussian_entropy(
+            -2*sum_plates(self.mask_X * (logdet_R + logdet_Q), plates_X),
+            0
+        )
 
         # Compute <log p(X|alpha)>
         logp_X = random.gaussian_logpdf(sum_plates(XmuXmu_alpha,
                                                          plates_alpha[:-1] + [D]),
                                               0,
                                               0,
-                                              sum_plates(logalpha,
+                                              sum_plates(self.mask_X[...,None] * logalpha,
                                                          plates_X + [D]),
                                               0)
 
@@ -902,16 +913,17 @@ class RotateGaussianARD():
         
         
         # Compute dH(X)
-        dlogH_X = random.gaussian_entropy(-2*sum_plates(D_logR,
-                                                        plates_X),
-                                          0)
+        dlogH_X = random.gaussian_entropy(
+            -2*sum_plates(self.mask_X[...,None,None] * D_logR, plates_X),
+            0
+        )
 
         # Compute d<log p(X|alpha)>
         dlogp_X = random.gaussian_logpdf(sum_plates(D_XmuXmu_alpha,
                                                     plates_alpha[:-1]),
                                          0,
                                          0,
-                                         (sum_plates(D_logalpha,
+                                         (sum_plates(self.mask_X[...,None,None] * D_logalpha,
                                                      plates_X)
                                           * broadcasting_multiplier((D,),
                                                              plates_alpha[-1:])),
@@ -1035,18 +1047,20 @@ class RotateGaussianARD():
         D_XX_alpha = DXX_alpha + XX_Dalpha
         D_logdetQ = D / sumQ
         N = np.shape(Q)[-1]
+        mask_X = self.mask_X[...,:1,None]
 
         # Compute dH(X)
-        dQ_logHX = random.gaussian_entropy(-2*sum_plates(D_logdetQ,
-                                                         plates_X[:-1]),
-                                           0)
+        dQ_logHX = random.gaussian_entropy(
+            -2*sum_plates(mask_X * D_logdetQ, plates_X[:-1]),
+            0
+        )
 
         # Compute d<log p(X|alpha)>
         dQ_logpX = random.gaussian_logpdf(sum_plates(D_XX_alpha,
                                                      plates_alpha[:-2]),
                                           0,
                                           0,
-                                          (sum_plates(D_logalpha,
+                                          (sum_plates(mask_X * D_logalpha,
                                                       plates_X[:-1])
                                            * broadcasting_multiplier((N,D),
                                                               plates_alpha[-2:])),
@@ -1258,6 +1272,14 @@ class RotateGaussianMarkovChain():
                 axis=-2
             )
 
+        # Plates which are ignored in the lower bound must be ignored here too
+        mask = np.broadcast_to(self.X_node.mask, self.X_node.plates)
+        self.M = self.N * np.sum(mask)
+        X = X * mask[...,None,None]
+        XnXn = XnXn * mask[...,None,None,None]
+        XpXn = XpXn * mask[...,None,None,None]
+        XpXp = XpXp * mask[...,None,None,None]
+
         #
         # Expectations with respect to X
         #
@@ -1331,7 +1353,7 @@ class RotateGaussianMarkovChain():
         R_CovA_XpXp = sumr * self.CovA_XpXp
 
         # Compute entropy H(X)
-        M = self.N*np.prod(self.X_node.plates) # total number of rotated vectors
+        M = self.M # total number of rotated vectors
         logH_X = random.gaussian_entropy(-2 * M * logdetR, 
                                          0)
 
-- 
2.43.0


From dca8ceca463a3c0e62a4d1864e3cbb8bf1c62605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 32/51] fix: take variable identities atomically so that models
 can be built in concurrent threads

---
 bayespy/inference/vmp/nodes/node.py       | 4 +++-
 bayespy/inference/vmp/nodes/stochastic.py | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 4ab7f98..d016caa 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -7,6 +7,7 @@
 
 import numpy as np
 import functools
+import itertools
 
 from bayespy.utils import misc
 
@@ -250,7 +251,8 @@ class Node():
     _parent_moments = None
     plates = None
 
-    _id_counter = 0
+    # (taking the next number is atomic, unlike incrementing an attribute)
+    _id_counter = itertools.count()
 
     @ensureparents
     def __init__(self, *parents, dims=None, plates=None, name="",
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index 46413fc..466fba0 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -111,8 +111,7 @@ class Stochastic(Node):
 
     def __init__(self, *args, initialize=True, dims=None, **kwargs):
 
-        self._id = Node._id_counter
-        Node._id_counter += 1
+        self._id = next(Node._id_counter)
 
         super().__init__(*args,
                          dims=dims,
-- 
2.43.0


From 2035f7e828931ee62073659003f6af36e97aa608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 33/51] fix: do not swallow interrupts in bare except clauses

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 bayespy/inference/vmp/nodes/node.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index 49bb66b..8a02dc3 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -35,7 +35,7 @@ class Concatenate(Deterministic):
         for node in nodes:
             try:
                 parent_moments = node._moments
-            except:
+            except AttributeError:
                 pass
             else:
                 break
diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index d016caa..bcaa796 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -629,7 +629,7 @@ class Node():
                 try:
                     r = self.broadcasting_multiplier(self.plates_multiplier,
                                                      multiplier_parent)
-                except:
+                except ValueError:
                     raise ValueError("The plate multipliers are incompatible. "
                                      "This node (%s) has %s and parent[%d] "
                                      "(%s) has %s"
-- 
2.43.0


From 1c7003266d50068d08d55efdc3679495eff16621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 34/51] fix: a failed construction of a node does not leave it
 as a child of its parents

---
 bayespy/inference/vmp/nodes/node.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index bcaa796..3b0ae13 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -221,7 +221,24 @@ def ensureparents(func):
     return wrapper
 
 
-class Node():
+class _NodeType(type):
+    """
+    A node is connected to its parents only if its construction succeeds.
+    """
+
+    def __call__(cls, *args, **kwargs):
+        node = cls.__new__(cls, *args, **kwargs)
+        try:
+            node.__init__(*args, **kwargs)
+        except BaseException:
+            # A half-built child would make the parents fail later
+            for (index, parent) in enumerate(getattr(node, 'parents', ())):
+                parent._remove_child(node, index)
+            raise
+        return node
+
+
+class Node(metaclass=_NodeType):
     """
     Base class for all nodes.
 
-- 
2.43.0


From 5de178cc5e3bf34da2ba95bc12ceb510e8486719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 35/51] fix: an interrupted reservation of iterations can be
 repeated

---
 bayespy/inference/vmp/vmp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 40ae08a..f8e5120 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -705,10 +705,13 @@ class VB():
         """
         Append some arrays for more iterations
         """
-        self.L = np.append(self.L, misc.nans(iters))
-        self.cputime = np.append(self.cputime, misc.nans(iters))
+        n = len(self.L) + iters
+        self.cputime = np.append(self.cputime, misc.nans(n - len(self.cputime)))
         for (node, l) in self.l.items():
-            self.l[node] = np.append(l, misc.nans(iters))
+            self.l[node] = np.append(l, misc.nans(n - len(l)))
+        # The last one, because its length tells whether there is room: an
+        # interrupted call must be repeated
+        self.L = np.append(self.L, misc.nans(iters))
         return
 
 
-- 
2.43.0


From 7a8d114714a9efd9de7b5ba1cb50213fe4089b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 36/51] fix: form every result file under a unique name in
 memory

---
 bayespy/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 7c998f3..cde0549 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -483,7 +483,8 @@ def create_hdf5(filename):
     in the same directory. Thus, a failure or a crash at any point leaves the
     old file as it was. (The HDF5 library itself may crash if writing fails.)
     """
-    with h5py.File('memory', 'w', driver='core', backing_store=False) as h5f:
+    # (HDF5 doesn't open two files by the same name, even in memory)
+    with h5py.File(uuid.uuid4().hex, 'w', driver='core', backing_store=False) as h5f:
         yield h5f
         h5f.flush()
         image = h5f.id.get_file_image()
-- 
2.43.0


From c248185ae77e9b37b4e2d72be464248116d4a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 37/51] fix: drawing from a categorical node does not modify
 its parameters

---
 bayespy/inference/vmp/nodes/categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/categorical.py b/bayespy/inference/vmp/nodes/categorical.py
index 0cd234d..a0f368d 100644
--- a/bayespy/inference/vmp/nodes/categorical.py
+++ b/bayespy/inference/vmp/nodes/categorical.py
@@ -119,7 +119,8 @@ class CategoricalDistribution(MultinomialDistribution):
         Draw a random sample from the distribution.
         """
         logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        # (not in place: these are the parameters of the node)
+        logp = logp - np.amax(logp, axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
-- 
2.43.0


From f41cc26a542180901a79623d03449ce3544a37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 38/51] fix: Wishart draws have the size and the mean of the
 scale matrix

---
 bayespy/utils/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index ba6b56d..a2873f6 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -69,7 +69,7 @@ def wishart(nu, V):
         raise ValueError("Degrees of freedom must be equal or greater than the "
                          "dimensionality of the matrix.")
     X = np.random.multivariate_normal(np.zeros(D), V, size=nu)
-    return np.dot(X, X.T)
+    return np.dot(X.T, X)
 
 wishart_rand = wishart
 
-- 
2.43.0


From 33dbc955868e0be1bc1b8076e21c11a9c2dcc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 39/51] fix: categorical draws never return impossible or
 nonexistent categories

---
 bayespy/utils/random.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index a2873f6..4c3a231 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -267,8 +267,10 @@ def categorical(p, size=None):
 
     # Compute cumulative probabilities (p_1, p_1+p_2, ..., p_1+...+p_N):
     P = np.cumsum(p, axis=-1)
+    # (the last one may differ from one because of rounding)
+    P = P / P[...,-1:]
 
-    # Draw samples from interval [0,1]
+    # Draw samples from interval [0,1)
     x = np.random.rand(*size)
 
     # For simplicity, repeat p to the size of the output (plus probability axis)
@@ -276,13 +278,13 @@ def categorical(p, size=None):
     P = P * np.ones(tuple(size)+(K,))
 
     if size == ():
-        z = np.searchsorted(P, x)
+        z = np.searchsorted(P, x, side='right')
     else:
         # Seach the indices
         z = np.zeros(size)
         inds = misc.nested_iterator(size)
         for ind in inds:
-            z[ind] = np.searchsorted(P[ind], x[ind])
+            z[ind] = np.searchsorted(P[ind], x[ind], side='right')
 
     return z.astype(int)
 
-- 
2.43.0


From 532180bf7c4e2434913f869a0be2c03f9d4380f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 40/51] fix: draws from Gaussian-gamma posteriors

---
 bayespy/inference/vmp/nodes/gaussian.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index a1953c1..785cd94 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1120,11 +1120,14 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         r"""
         Draw a random sample from the distribution.
         """
-        # TODO/FIXME: This is incorrect, I think. Gamma distribution parameters
-        # aren't directly those, because phi has some parts from the Gaussian
-        # distribution.
+        # Integrating the Gaussian variable out leaves a gamma distribution
+        dims = np.shape(phi[0])[np.ndim(phi[0])-self.ndim:]
+        D = np.prod(dims, dtype=int)
+        phi0 = np.reshape(phi[0], np.shape(phi[0])[:np.ndim(phi[0])-self.ndim] + (D,))
+        phi1 = np.reshape(phi[1], np.shape(phi[1])[:np.ndim(phi[1])-2*self.ndim] + (D, D))
+        xx = linalg.chol_solve(linalg.chol(-2*phi1), phi0)
         alpha = GammaDistribution().random(
-            phi[2],
+            phi[2] + 0.5 * linalg.inner(phi0, xx),
             phi[3],
             plates=plates
         )
-- 
2.43.0


From 50ef7238abea8a70d13d2832c89915626ebfdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 41/51] fix: draws from the posteriors of categorical Markov
 chains

---
 .../vmp/nodes/categorical_markov_chain.py     | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index d3f626b..31a6d3c 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -179,15 +179,23 @@ class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Draw a random sample from the distribution.
         """
-        # Convert natural parameters to transition probabilities
-        p0 = np.exp(phi[0] - misc.logsumexp(phi[0],
-                                            axis=-1,
-                                            keepdims=True))
-        P = np.exp(phi[1] - misc.logsumexp(phi[1],
+        # Explicit broadcasting
+        logp0 = phi[0]
+        logP = phi[1] * np.ones(plates + (self.N-1,1,1))
+        # Convert natural parameters to transition probabilities. Because they
+        # aren't normalized, each state has a weight from the later states.
+        for n in reversed(range(self.N-1)):
+            weight = misc.logsumexp(logP[...,n,:,:], axis=-1)
+            if n > 0:
+                logP[...,n-1,:,:] += weight[...,None,:]
+            else:
+                logp0 = logp0 + weight
+        p0 = np.exp(logp0 - misc.logsumexp(logp0,
                                            axis=-1,
                                            keepdims=True))
-        # Explicit broadcasting
-        P = P * np.ones(plates)[...,None,None,None]
+        # (impossible states have no weight)
+        Z = misc.logsumexp(logP, axis=-1, keepdims=True)
+        P = np.exp(logP - np.where(np.isneginf(Z), 0, Z))
         # Allocate memory
         Z = np.zeros(plates + (self.N,), dtype=np.int64)
         # Draw initial state
-- 
2.43.0


From 6770d6228c9232d14df30a1be56a6d92069e7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 42/51] fix: loading always updates the masks, so an
 interrupted load can be repeated

---
 bayespy/inference/vmp/nodes/stochastic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index 466fba0..88595fb 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -359,11 +359,10 @@ class Stochastic(Node):
 
     def _set_state(self, u, observed):
         self.u = u
-        old_observed = self.observed
         self.observed = observed
-        # Update masks if necessary
-        if np.any(old_observed != self.observed):
-            self._update_mask()
+        # (even if the observations didn't change, an interrupted load may have
+        # left the masks of the parents without updating)
+        self._update_mask()
 
 
     def random(self):
-- 
2.43.0


From 3582e2794e03fe377cfdb8ddda65aafb5f70084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 43/51] fix: plates of a Gaussian Markov chain also come from
 its input signals

---
 bayespy/inference/vmp/nodes/gaussian_markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index 271b88d..eaf882c 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -903,8 +903,8 @@ class GaussianMarkovChain(_TemplateGaussianMarkovChain):
                  kwargs,
                  dims,
                  cls._total_plates(kwargs.get('plates'),
-                                   distribution.plates_from_parent(0, mu_Lambda.plates),
-                                   distribution.plates_from_parent(1, A_nu.plates)),
+                                   *[distribution.plates_from_parent(index, parent.plates)
+                                     for (index, parent) in enumerate(parents)]),
                  distribution,
                  moments,
                  _parent_moments)
-- 
2.43.0


From e36ac71491182fa09ff189707ad91791340b3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 44/51] fix: tile nodes of any kind

---
 bayespy/inference/vmp/nodes/deterministic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index 7650951..b9a7642 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -181,10 +181,9 @@ def tile(X, tiles):
     
     class _Tile(Deterministic):
 
-        _parent_moments = (Moments(),)
-        
         def __init__(self, X, **kwargs):
             self._moments = X._moments
+            self._parent_moments = (X._moments,)
             super().__init__(X, dims=X.dims, **kwargs)
     
         def _compute_plates_to_parent(self, index, plates):
-- 
2.43.0


From a899c38334cd2a58ceb3883395e288145b4bd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 45/51] fix: accumulation of broadcast messages with
 multi-dimensional indices

---
 bayespy/utils/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index cde0549..02eb8db 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -603,6 +603,9 @@ def put(x, indices, y, axis=-1, ufunc=np.add):
 
     indices = axis*(slice(None),) + (indices,) + (ndim-axis-1)*(slice(None),)
     #y = add_trailing_axes(y, ndim-axis-1)
+    # Broadcast explicitly: some NumPy versions read outside the array when they
+    # broadcast it to multi-dimensional indices (e.g., 2.3)
+    y = np.broadcast_to(y, np.shape(x[indices]))
     ufunc.at(x, indices, y)
     return x
 
-- 
2.43.0


From 93f485c56caf7f093c143549c9c9561fb90d7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 46/51] fix: optimisers recover when computing the lower bound
 after a trial step fails

---
 bayespy/inference/vmp/vmp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index f8e5120..18309b2 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -551,6 +551,7 @@ class VB():
                 try:
                     for node in collapsed:
                         self[node].update()
+                    L = self.compute_lowerbound()
                 except Exception:
                     self.set_parameters(collapsed_params, *collapsed)
                     if verbose:
@@ -561,8 +562,6 @@ class VB():
                     s = g2
                     continue
 
-                L = self.compute_lowerbound()
-
                 bound_decreased = (
                     L < L_prev and
                     not np.allclose(L, L_prev, rtol=1e-8)
@@ -662,9 +661,9 @@ class VB():
         def cost(alpha):
             try:
                 step(alpha)
+                L = self.compute_lowerbound()
             except Exception:
                 return np.inf
-            L = self.compute_lowerbound()
             if np.isnan(L):
                 return np.inf
             costs[float(alpha)] = -L
-- 
2.43.0


From 1a087e0811ede666e0b5438e24e10277b24fa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 47/51] fix: rotations take the plate multipliers into account

---
 bayespy/inference/vmp/transformations.py | 29 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 18bf168..992c78f 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -240,6 +240,8 @@ class RotateGaussian():
         
         # Plates which are ignored in the lower bound must be ignored here too
         mask = np.broadcast_to(self.X.mask, self.X.plates)
+        # Each plate counts as many times as its multiplier tells
+        mask = mask * np.prod(self.X.plates_multiplier)
 
         # Number of plates
         self.N = np.sum(mask)
@@ -553,6 +555,15 @@ class RotateGaussianARD():
         # Plates which are ignored in the lower bound must be ignored here too
         mask = misc.add_trailing_axes(self.node_X.mask, self.ndim-1)
 
+        # Each plate of X counts as many times as its multiplier tells. The
+        # multiplier of alpha is a common factor.
+        multiplier = np.prod(self.node_X.plates_multiplier)
+        if self.update_alpha:
+            self.multiplier = np.prod(self.node_alpha.plates_multiplier)
+            multiplier = multiplier / self.multiplier
+        else:
+            self.multiplier = 1
+
         def sum_to_alpha(V, ndim=2):
             # TODO/FIXME: This could be improved so that it is not required to
             # explicitly repeat to alpha plates. Multiplying by ones was just a
@@ -580,7 +591,9 @@ class RotateGaussianARD():
             mask = safe_move_plate_axis(mask, 0)
             # NOTE: A plate axis can be rotated only if its plates are ignored
             # either all or not at all.
-            X = X * mask[...,None]
+            X = X * mask[...,None] * np.sqrt(multiplier)
+            mu = mu * np.sqrt(multiplier)
+            mask = mask * multiplier
             XX = XX * mask[...,None,None]
             mu2 = mu2 * mask[...,None]
             if self.update_alpha:
@@ -628,6 +641,7 @@ class RotateGaussianARD():
                 self.mu = mu
                     
         else:
+            mask = mask * multiplier
             # Sum axes that are not in the plates of alpha
             self.XX = sum_to_alpha(mask[...,None,None] * XX)
             self.mu2 = sum_to_alpha(mask[...,None] * mu2, ndim=1)
@@ -852,11 +866,12 @@ class RotateGaussianARD():
 
         # Compute the bound
         if terms:
-            bound = {self.node_X: logp_X + logH_X}
+            bound = {self.node_X: self.multiplier * (logp_X + logH_X)}
             if self.update_alpha:
-                bound.update({self.node_alpha: logp_alpha + logH_alpha})
+                bound.update({self.node_alpha:
+                              self.multiplier * (logp_alpha + logH_alpha)})
         else:
-            bound = (0
+            bound = self.multiplier * (0
             + logp_X
             + logp_alpha
             + logH_X
@@ -953,7 +968,7 @@ class RotateGaussianARD():
             if self.update_alpha:
                 dR_bound.update({self.node_alpha: dlogp_alpha + dlogH_alpha})
         else:
-            dR_bound = (0*dlogp_X
+            dR_bound = self.multiplier * (0*dlogp_X
             + dlogp_X
             + dlogp_alpha
             + dlogH_X
@@ -1094,7 +1109,7 @@ class RotateGaussianARD():
             if self.update_alpha:
                 dQ_bound.update({self.node_alpha: dQ_logpalpha + dQ_logHalpha})
         else:
-            dQ_bound = (0*dQ_logpX
+            dQ_bound = self.multiplier * (0*dQ_logpX
             + dQ_logpX
             + dQ_logpalpha
             + dQ_logHX
@@ -1274,6 +1289,8 @@ class RotateGaussianMarkovChain():
 
         # Plates which are ignored in the lower bound must be ignored here too
         mask = np.broadcast_to(self.X_node.mask, self.X_node.plates)
+        # Each plate counts as many times as its multiplier tells
+        mask = mask * np.prod(self.X_node.plates_multiplier)
         self.M = self.N * np.sum(mask)
         X = X * mask[...,None,None]
         XnXn = XnXn * mask[...,None,None,None]
-- 
2.43.0


From 30ebf9f6229a3844babb9d9d698428f6917bcf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 48/51] fix: Euclidean gradients take the plate multiplier into
 account

---
 bayespy/inference/vmp/nodes/expfamily.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index c7600e3..fc1eecb 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -291,8 +291,10 @@ class ExponentialFamily(Stochastic):
         can provide it to this function to avoid re-computing it."""
 
         g = self._distribution.compute_gradient(rg, self.u, self.phi)
+        # Each plate counts as many times as its multiplier tells
+        multiplier = np.prod(self.plates_multiplier)
         for i in range(len(g)):
-            g[i] /= self.annealing
+            g[i] *= multiplier / self.annealing
         return g
 
 
-- 
2.43.0


From e132857200f3ff2431d763d6e5e6d34da691aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:01 +0000
Subject: [PATCH 49/51] fix: Gaussian variables with other than one axis: the
 constant of the bound and random draws

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 +--
 bayespy/utils/linalg.py                 | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 785cd94..7528627 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -418,7 +418,6 @@ class GaussianDistribution(ExponentialFamilyDistribution):
         """
         # TODO: Compute -2*phi[1] and simplify the formulas
         L = linalg.chol(-2*phi[1], ndim=self.ndim)
-        k = np.shape(phi[0])[-1]
         Cov = linalg.chol_inv(L, ndim=self.ndim)
         mu = linalg.chol_solve(L, phi[0], ndim=self.ndim)
         # G
@@ -480,7 +479,7 @@ class GaussianDistribution(ExponentialFamilyDistribution):
            f(\mathbf{x})
            &= - \frac{D}{2} \log(2\pi)
         """
-        k = np.shape(x)[-1]
+        k = np.prod(np.shape(x)[np.ndim(x)-self.ndim:])
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
         return (u, f)
diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index e2b0f50..f6b4480 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -251,8 +251,13 @@ def logdet_cov(C, ndim=1):
 
 
 def solve_triangular(U, B, ndim=1, **kwargs):
+    if ndim == 0:
+        return B / U
     if ndim != 1:
-        raise NotImplementedError("Not yet implemented for ndim!=1")
+        x = solve_triangular(misc.flatten_axes(U, ndim, ndim),
+                             misc.flatten_axes(B, ndim),
+                             **kwargs)
+        return misc.reshape_axes(x, np.shape(B)[-ndim:])
     # Allocate memory
     U = np.atleast_2d(U)
     B = np.atleast_1d(B)
-- 
2.43.0


From a73cf93663f8f58a832f5cd4bfbd74f2e0b0b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:01 +0000
Subject: [PATCH 50/51] fix: predictive densities of mixtures whose cluster
 axis is not the last plate

---
 bayespy/inference/vmp/nodes/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index d6ca5f6..556bc54 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -500,7 +500,8 @@ class Mixture(ExponentialFamily):
             # Shape(u) = [M1,..,Mm,N1,..,1,..,Nn,D1,..,Dd]
             # Shape(f) = [M1,..,Mm,N1,..,1,..,Nn]
             (u, f) = self._distribution.raw_distribution.compute_fixed_moments_and_f(x)
-            f = np.expand_dims(f, axis=self.cluster_plate)
+            if np.ndim(f) > 0:
+                f = np.expand_dims(f, axis=self.cluster_plate)
             for i in range(len(u)):
                 ndim_i = len(self.dims[i])
                 cluster_axis = self.cluster_plate - ndim_i
@@ -526,7 +527,7 @@ class Mixture(ExponentialFamily):
 
             # Weighted average. TODO/FIXME: Use einsum!
             # Shape(pdf) = [M1,..,Mm,N1,..,Nn]
-            pdf = np.sum(pdf * p, axis=self.cluster_plate)
+            pdf = np.sum(pdf * p, axis=-1)
 
             # Back to log-scale (add the overflow fix!)
             lpdf_max = np.squeeze(lpdf_max, axis=self.cluster_plate)
-- 
2.43.0


From 81a0cd04b275db25999fc958f795856b8344418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:01 +0000
Subject: [PATCH 51/51] fix: log density of variables with impossible outcomes

---
 bayespy/inference/vmp/nodes/expfamily.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index fc1eecb..0c4bef4 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -492,6 +492,8 @@ class ExponentialFamily(Stochastic):
         Z = 0
         for (phi_d, u_d, dims) in zip(self.phi, u, self.dims):
             axis_sum = tuple(range(-len(dims),0))
+            # Handle 0 * -inf
+            phi_d = np.where(u_d != 0, phi_d, 0)
             # TODO/FIXME: Use einsum here?
             Z = Z + np.sum(phi_d * u_d, axis=axis_sum)
             #Z = Z + misc.sum_multiply(phi_d, u_d, axis=axis_sum)
-- 
2.43.0

