From 758c478f86f8d3393c300e3c88ef7552607a29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 01/22] fix: vectorize no longer uses np.int, which numpy has
 removed

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b33e6f5..b52d16f 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -86,7 +86,7 @@ def vectorize(tensor):
 
     def vectorized_shape(tensor):
         # Compute vectorized shape
-        n_elements = np.prod(np.asarray(tensor.shape, dtype=np.int))
+        n_elements = np.prod(np.asarray(tensor.shape, dtype=int))
         return (n_elements, 1)
 
     if isinstance(tensor, tf.Variable):
-- 
2.43.0


From 69c5afc53fded7f2c787cb82df51f22c7e906854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 02/22] fix: import logsumexp from scipy.special, where current
 scipy keeps it

---
 pysgmcmc/diagnostics/objective_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 742b3c3..d5e937b 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -1,4 +1,4 @@
-from scipy.misc import logsumexp
+from scipy.special import logsumexp
 import tensorflow as tf
 import numpy as np
 import functools
-- 
2.43.0


From da8d7f51edbdb8d35bccfbbad7716fbe29df09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 03/22] fix: gaussian mixture log likelihood works for
 variables of any float dtype

---
 pysgmcmc/diagnostics/objective_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index d5e937b..20e01a9 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -69,11 +69,12 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
 
     if isinstance(x, tf.Variable):
         def normldf_tf(x, mu, var):
-            pi = tf.constant(np.pi)
+            pi = tf.constant(np.pi, dtype=x.dtype.base_dtype)
             return -0.5 * tf.log(2.0 * pi * var) - 0.5 * ((x - mu) ** 2) / var
 
         return tf.reduce_logsumexp(
-            [tf.log(weights[i]) + normldf_tf(x, mu[i], var[i]) for i in range(len(mu))]
+            [tf.log(tf.cast(weights[i], x.dtype.base_dtype)) + normldf_tf(x, mu[i], var[i])
+             for i in range(len(mu))]
         )
     else:
         def normldf(x, mu, var):
-- 
2.43.0


From a64cf80e01165d1ab87d5720170ba035b49b264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 04/22] fix: SGLD uses the stepsize schedule it is given

---
 pysgmcmc/samplers/sgld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 486488e..81cd05b 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -96,7 +96,8 @@ class SGLDSampler(BurnInMCMCSampler):
         super().__init__(
             params=params, cost_fun=cost_fun, batch_generator=batch_generator,
             burn_in_steps=burn_in_steps, seed=seed,
-            session=session, dtype=dtype
+            session=session, dtype=dtype,
+            stepsize_schedule=stepsize_schedule
         )
 
         n_params = len(params)
-- 
2.43.0


From 8807ed5b35ff74a91e787000bca307d02688edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 05/22] fix: generate_shuffled_batches shuffles copies instead
 of the dataset itself

---
 pysgmcmc/data_batches.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysgmcmc/data_batches.py b/pysgmcmc/data_batches.py
index 9b44c09..25b2f44 100644
--- a/pysgmcmc/data_batches.py
+++ b/pysgmcmc/data_batches.py
@@ -200,6 +200,12 @@ def generate_shuffled_batches(x, y, x_placeholder, y_placeholder,
     rng_y.seed(seed)
 
     for batch in generate_batches(x, y, x_placeholder, y_placeholder, batch_size, seed):
+        # batches are views of the dataset: shuffle copies, not the dataset
+        batch = {
+            placeholder: minibatch.copy()
+            for placeholder, minibatch in batch.items()
+        }
+
         # shuffles x and y in the same way
         rng_x.shuffle(batch[x_placeholder])
         rng_y.shuffle(batch[y_placeholder])
-- 
2.43.0


From 06c818232bb7ec67edad14085fe518f37baf2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 06/22] fix: PYSGMCMCTrace.from_sampler honours keep_every

---
 pysgmcmc/diagnostics/sample_chains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 9dcfba6..dfffcbd 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -165,7 +165,9 @@ class PYSGMCMCTrace(object):
         """
         from itertools import islice
         samples = [
-            sample for sample, _ in islice(sampler, n_samples)
+            sample for sample, _ in islice(
+                sampler, 0, n_samples * keep_every, keep_every
+            )
         ]
 
         # ensure all sampler target parameters have a name
-- 
2.43.0


From 5ba611841941cf2e6cd26d6ba6a46bee13dce001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 07/22] fix: slicing a trace selects variables instead of
 samples

---
 pysgmcmc/diagnostics/sample_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index dfffcbd..298e303 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -234,7 +234,7 @@ class PYSGMCMCTrace(object):
         # XXX: Set chain_id to something unique, instead of self.chain
         return PYSGMCMCTrace(
             chain_id=self.chain,
-            samples=self.samples[slice_],
+            samples=[sample[slice_] for sample in self.samples],
             varnames=self.varnames[slice_]
         )
 
-- 
2.43.0


From 14ddfd99606bb9a2690ca8c428ebf62dd70e3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 08/22] fix: values fed by the caller are kept after burn-in

---
 pysgmcmc/samplers/base_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 3367499..45fad79 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -451,6 +451,6 @@ class BurnInMCMCSampler(MCMCSampler):
             assert hasattr(self, "minv")
 
             # feed tuned inverse of mass matrix (minv) during sampling
-            feed_dict = dict(zip(self.minv_t, self.minv))
+            feed_dict.update(zip(self.minv_t, self.minv))
 
         return super().__next__(feed_dict=feed_dict)
-- 
2.43.0


From 1dcdc7708f55d0e417b2281436ed6a5e2eada249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 09/22] fix: steps start from the target variables, not from a
 stale copy of them

---
 pysgmcmc/samplers/relativistic_sghmc.py | 5 +++--
 pysgmcmc/samplers/sghmc.py              | 5 +++--
 pysgmcmc/samplers/sgld.py               | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index e751998..23cea01 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -129,9 +129,10 @@ class RelativisticSGHMCSampler(MCMCSampler):
             )
 
             p_grad_new = self.epsilon * momentum_t / (m * tf.sqrt(momentum_t * momentum_t / (tf.square(m) * tf.square(c)) + 1))
-            vectorized_theta_t = tf.assign_add(
+            vectorized_theta_t = tf.assign(
                 vectorized_param,
-                tf.reshape(p_grad_new, vectorized_param.shape)
+                tf.reshape(param, vectorized_param.shape)
+                + tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
             self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index d6b4a7a..29ceeb9 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -238,8 +238,9 @@ class SGHMCSampler(BurnInMCMCSampler):
                         )
 
                         # Equation 10: left side
-                        vectorized_Theta_t = tf.assign_add(
-                            vectorized_param, v_t
+                        vectorized_Theta_t = tf.assign(
+                            vectorized_param,
+                            tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
                         self.theta_t[i] = tf.assign(
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index 81cd05b..ec99173 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -199,8 +199,9 @@ class SGLDSampler(BurnInMCMCSampler):
 
                         #  SGLD Update {{{ #
 
-                        vectorized_theta_t = tf.assign_add(
+                        vectorized_theta_t = tf.assign(
                             vectorized_param,
+                            tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
                         self.theta_t[i] = tf.assign(
-- 
2.43.0


From 50362194ecc9ea33ad4729910cc9c9a4a08a231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 10/22] fix: parameters are updated only after all gradients
 and the cost of a step are evaluated

---
 pysgmcmc/samplers/base_classes.py       | 15 +++++++++++++++
 pysgmcmc/samplers/relativistic_sghmc.py |  9 +++++----
 pysgmcmc/samplers/sghmc.py              | 16 +++++++++-------
 pysgmcmc/samplers/sgld.py               | 16 +++++++++-------
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index 45fad79..b985883 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -219,6 +219,21 @@ class MCMCSampler(object):
             shape=shape, dtype=self.dtype, seed=self.seed
         )
 
+    def _evaluate_before_update(self, grads):
+        """
+        Context in which operations wait until all gradients and the cost are
+        evaluated. Updating target parameters in this context ensures that no
+        gradient and no cost of a step sees a parameter value that was
+        already updated in this step.
+
+        Parameters
+        ----------
+        grads : list of tensorflow.Tensor
+            Gradients of the cost with respect to all target parameters.
+
+        """
+        return tf.control_dependencies(list(grads) + [tf.group(self.cost)])
+
     # Conform to iterator protocol.
     # For reference see:
     # https://docs.python.org/3/library/stdtypes.html#iterator-types
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index 23cea01..c5f7058 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -135,10 +135,11 @@ class RelativisticSGHMCSampler(MCMCSampler):
                 + tf.reshape(p_grad_new, vectorized_param.shape)
             )
 
-            self.theta_t[i] = tf.assign(
-                param,
-                unvectorize(vectorized_theta_t, original_shape=param.shape)
-            )
+            with self._evaluate_before_update(grads):
+                self.theta_t[i] = tf.assign(
+                    param,
+                    unvectorize(vectorized_theta_t, original_shape=param.shape)
+                )
 
 
 def _sample_relativistic_momentum(m, c, n_params,
diff --git a/pysgmcmc/samplers/sghmc.py b/pysgmcmc/samplers/sghmc.py
index 29ceeb9..c81cad8 100644
--- a/pysgmcmc/samplers/sghmc.py
+++ b/pysgmcmc/samplers/sghmc.py
@@ -243,12 +243,14 @@ class SGHMCSampler(BurnInMCMCSampler):
                             tf.reshape(param, vectorized_param.shape) + v_t
                         )
 
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_Theta_t, original_shape=param.shape
-                            ),
-                            name="theta_t_{}".format(i)
-                        )
+                        with self._evaluate_before_update(grads):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_Theta_t,
+                                    original_shape=param.shape
+                                ),
+                                name="theta_t_{}".format(i)
+                            )
 
                         #  }}} HMC Update #
diff --git a/pysgmcmc/samplers/sgld.py b/pysgmcmc/samplers/sgld.py
index ec99173..386df07 100644
--- a/pysgmcmc/samplers/sgld.py
+++ b/pysgmcmc/samplers/sgld.py
@@ -204,12 +204,14 @@ class SGLDSampler(BurnInMCMCSampler):
                             tf.reshape(param, vectorized_param.shape)
                             - self.epsilon * self.minv_t[i] * A * grad + sample,
                         )
-                        self.theta_t[i] = tf.assign(
-                            param,
-                            unvectorize(
-                                vectorized_theta_t, original_shape=param.shape
-                            ),
-                            name="Theta_t_{}".format(i)
-                        )
+                        with self._evaluate_before_update(grads):
+                            self.theta_t[i] = tf.assign(
+                                param,
+                                unvectorize(
+                                    vectorized_theta_t,
+                                    original_shape=param.shape
+                                ),
+                                name="Theta_t_{}".format(i)
+                            )
 
                         #  }}} SGLD Update #
-- 
2.43.0


From 9f2bab75e59706e4b3167035abc1ae6efc55ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 11/22] fix: target parameters of a seeded sampler get
 independent noise

---
 pysgmcmc/samplers/base_classes.py       | 25 ++++++++++++++++++++++++-
 pysgmcmc/samplers/relativistic_sghmc.py |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pysgmcmc/samplers/base_classes.py b/pysgmcmc/samplers/base_classes.py
index b985883..2729aed 100644
--- a/pysgmcmc/samplers/base_classes.py
+++ b/pysgmcmc/samplers/base_classes.py
@@ -84,6 +84,9 @@ class MCMCSampler(object):
 
         self.seed = seed
 
+        # number of noise operations set up so far (see `_next_noise_seed`)
+        self.n_noise_ops = 0
+
         assert hasattr(stepsize_schedule, "update")
         assert hasattr(stepsize_schedule, "__next__")
         assert hasattr(stepsize_schedule, "initial_value")
@@ -216,9 +219,29 @@ class MCMCSampler(object):
 
         """
         return sigma * tf.random_normal(
-            shape=shape, dtype=self.dtype, seed=self.seed
+            shape=shape, dtype=self.dtype, seed=self._next_noise_seed()
         )
 
+    def _next_noise_seed(self):
+        """
+        Operation-level seed for the next noise operation of this sampler.
+        Operations with equal seeds produce equal streams of numbers, so each
+        noise operation needs a seed of its own to make the noise independent
+        across target parameters.
+
+        Returns
+        -------
+        seed : int or NoneType
+            Seed derived from the seed of this sampler,
+            `None` if this sampler is not seeded.
+
+        """
+        if self.seed is None:
+            return None
+        seed = self.seed + 1000003 * self.n_noise_ops
+        self.n_noise_ops += 1
+        return seed
+
     def _evaluate_before_update(self, grads):
         """
         Context in which operations wait until all gradients and the cost are
diff --git a/pysgmcmc/samplers/relativistic_sghmc.py b/pysgmcmc/samplers/relativistic_sghmc.py
index c5f7058..418e24c 100644
--- a/pysgmcmc/samplers/relativistic_sghmc.py
+++ b/pysgmcmc/samplers/relativistic_sghmc.py
@@ -122,7 +122,7 @@ class RelativisticSGHMCSampler(MCMCSampler):
 
             p_grad = self.epsilon * momentum[i] / (m * tf.sqrt(momentum[i] * momentum[i] / (tf.square(m) * tf.square(c)) + 1))
 
-            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=seed)
+            n = tf.sqrt(self.epsilon * (2 * D - self.epsilon * b_hat)) * tf.random_normal(shape=vectorized_param.shape, dtype=dtype, seed=self._next_noise_seed())
             momentum_t = tf.assign_add(
                 momentum[i],
                 tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)
-- 
2.43.0


From 061ea350ee27e1971bb258f02fbb34eb890a69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 12/22] fix: SVGD supports particles with a single dimension

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 536da39..0b3c11a 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -118,7 +118,7 @@ class SVGDSampler(MCMCSampler):
             tf.variables_initializer([historical_grad, self.epsilon])
         )
 
-        lnpgrad = tf.squeeze(tf.gradients(self.cost, self.particles))
+        lnpgrad = tf.gradients(self.cost, self.particles)[0]
 
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
-- 
2.43.0


From 008c5b359b3a95d3175d61e874605e98bdac0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 13/22] fix: SVGD kernel gradients push particles apart, not
 together

---
 pysgmcmc/samplers/svgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index 0b3c11a..e34d23b 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -123,7 +123,7 @@ class SVGDSampler(MCMCSampler):
         kernel_matrix, kernel_gradients = self.svgd_kernel(self.particles)
 
         grad_theta = tf.divide(
-            tf.matmul(kernel_matrix, lnpgrad) + kernel_gradients,
+            tf.matmul(kernel_matrix, lnpgrad) - kernel_gradients,
             self.n_particles
         )
 
-- 
2.43.0


From 7b6bad8bc9bb406d802bdeac4a8e29e92e2f5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 14/22] fix: pdist of a single point keeps the dtype of its
 input

---
 pysgmcmc/tensor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysgmcmc/tensor_utils.py b/pysgmcmc/tensor_utils.py
index b52d16f..10b1f7e 100644
--- a/pysgmcmc/tensor_utils.py
+++ b/pysgmcmc/tensor_utils.py
@@ -406,7 +406,7 @@ def pdist(tensor, metric="euclidean"):
             for i in range(m):
                 for j in range(i + 1, m):
                     distances.append(euclidean_distance(tensor[i], tensor[j]))
-            return tf.convert_to_tensor(distances)
+            return tf.convert_to_tensor(distances, dtype=tensor.dtype.base_dtype)
 
         metric_function = pairwise_euclidean_distance
     else:
-- 
2.43.0


From 224620aa76e8a83d7e4c3a21bf042078baf644f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 15/22] fix: normalisation maps constant columns to 0 instead
 of NaN

---
 pysgmcmc/models/base_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/base_model.py b/pysgmcmc/models/base_model.py
index 72965c6..8095f37 100644
--- a/pysgmcmc/models/base_model.py
+++ b/pysgmcmc/models/base_model.py
@@ -113,7 +113,10 @@ def zero_one_normalization(X, lower=None, upper=None):
     if upper is None:
         upper = np.max(X, axis=0)
 
-    X_normalized = np.true_divide((X - lower), (upper - lower))
+    # constant columns have no range to scale by
+    spread = np.where(upper - lower == 0, np.ones_like(upper), upper - lower)
+
+    X_normalized = np.true_divide((X - lower), spread)
 
     return X_normalized, lower, upper
 
@@ -127,6 +130,9 @@ def zero_mean_unit_var_normalization(X, mean=None, std=None):
         mean = np.mean(X, axis=0)
     if std is None:
         std = np.std(X, axis=0)
+        # constant columns have no spread to scale by
+        is_constant = np.max(X, axis=0) == np.min(X, axis=0)
+        std = np.where(is_constant, np.ones_like(std), std)[()]
 
     X_normalized = (X - mean) / std
 
-- 
2.43.0


From e1db2d448f99dab8ed7e867d663961411000beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 16/22] fix: BNN predictions work for networks with a single
 parameter

---
 pysgmcmc/models/bayesian_neural_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index c281f57..535de24 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -552,6 +552,10 @@ class BayesianNeuralNetwork(object):
             on the given `input_data` points.
         """
 
+        if len(self.network_params) == 1 and not isinstance(params, (list, tuple)):
+            # samplers unravel samples of a single parameter
+            params = [params]
+
         feed_dict = dict(zip(self.network_params, params))
         feed_dict[self.X_Minibatch] = input_data
         return self.session.run(self.net_output, feed_dict=feed_dict)
-- 
2.43.0


From f42e4415afe028a8a9c9a9b7b8550da5aa887c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 17/22] fix: PYSGMCMCTrace.from_sampler supports a single
 non-scalar parameter

---
 pysgmcmc/diagnostics/sample_chains.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 298e303..6e08ab2 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -170,6 +170,13 @@ class PYSGMCMCTrace(object):
             )
         ]
 
+        if len(sampler.params) == 1:
+            # samplers unravel samples of a single target parameter
+            samples = [
+                sample if isinstance(sample, (list, tuple)) else [sample]
+                for sample in samples
+            ]
+
         # ensure all sampler target parameters have a name
         # => tensorflow names variables automatically, so this assumption
         # is fair
-- 
2.43.0


From 25876ece3cc1dcb580a4baed88ad9a339fc3fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 18/22] fix: BNN likelihood is averaged over the datapoints
 that are in a batch

---
 pysgmcmc/models/bayesian_neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/models/bayesian_neural_network.py b/pysgmcmc/models/bayesian_neural_network.py
index 535de24..ff71d68 100644
--- a/pysgmcmc/models/bayesian_neural_network.py
+++ b/pysgmcmc/models/bayesian_neural_network.py
@@ -374,7 +374,10 @@ class BayesianNeuralNetwork(object):
         )
 
         # scale by batch size to make this work nicely with the updaters above
-        log_like = log_like / tf.constant(self.batch_size, dtype=self.dtype)
+        # (batches are never larger than the dataset)
+        log_like = log_like / tf.constant(
+            min(self.batch_size, self.X.shape[0]), dtype=self.dtype
+        )
 
         # scale the priors by the dataset size for the same reason
         n_examples = tf.constant(self.X.shape[0], self.dtype, name="n_examples")
-- 
2.43.0


From b292b2c25ab471b6862f2301e517e722ef70184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 19/22] fix: gmm log-likelihood accepts a variable that is not
 wrapped in a list

---
 pysgmcmc/diagnostics/objective_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/objective_functions.py b/pysgmcmc/diagnostics/objective_functions.py
index 20e01a9..4601194 100644
--- a/pysgmcmc/diagnostics/objective_functions.py
+++ b/pysgmcmc/diagnostics/objective_functions.py
@@ -63,7 +63,8 @@ def gaussian_mixture_model_log_likelihood(x, mu=(-5, 0, 5), var=(1., 1., 1.),
                                           weights=(1. / 3., 1. / 3., 1. / 3.)):
     assert len(mu) == len(var) == len(weights)
 
-    if hasattr(x, "__iter__"):
+    # variables have an `__iter__` method, but cannot be iterated over
+    if hasattr(x, "__iter__") and not isinstance(x, tf.Variable):
         assert(len(x) == 1)
         x = x[0]
 
-- 
2.43.0


From 30d38d5a0f83afad614b712772ebbbb992047008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 20/22] fix: pymc3_multitrace keeps the state of already
 burnt-in samplers

---
 pysgmcmc/diagnostics/sample_chains.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/diagnostics/sample_chains.py b/pysgmcmc/diagnostics/sample_chains.py
index 6e08ab2..099c54d 100644
--- a/pysgmcmc/diagnostics/sample_chains.py
+++ b/pysgmcmc/diagnostics/sample_chains.py
@@ -379,7 +379,11 @@ def pymc3_multitrace(get_sampler, n_chains=2, samples_per_chain=100,
         graph = tf.Graph()
         with tf.Session(graph=graph) as session:
             sampler = get_sampler(session=session)
-            session.run(tf.global_variables_initializer())
+            # an already burnt-in sampler keeps its state
+            session.run(tf.variables_initializer([
+                variable for variable in tf.global_variables()
+                if not session.run(tf.is_variable_initialized(variable))
+            ]))
             trace = PYSGMCMCTrace.from_sampler(
                 chain_id=chain_id,
                 sampler=sampler,
-- 
2.43.0


From cfc8beff149e95dc15a3773110a61c1f1d2fd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 21/22] fix: allow more than one SVGD sampler per graph

---
 pysgmcmc/samplers/svgd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index e34d23b..fb3a3f6 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -109,9 +109,9 @@ class SVGDSampler(MCMCSampler):
             self.particles.shape[0], self.dtype
         )
 
-        historical_grad = tf.get_variable(
-            "historical_grad", self.particles.shape, dtype=dtype,
-            initializer=tf.zeros_initializer()
+        historical_grad = tf.Variable(
+            tf.zeros(self.particles.shape, dtype=dtype),
+            dtype=dtype, name="historical_grad"
         )
 
         self.session.run(
-- 
2.43.0


From f51220b3246dbd6158cdc3744f03451287a75486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 22/22] fix: accept cost functions without a __name__ in
 SVGDSampler

---
 pysgmcmc/samplers/svgd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysgmcmc/samplers/svgd.py b/pysgmcmc/samplers/svgd.py
index fb3a3f6..b339f60 100644
--- a/pysgmcmc/samplers/svgd.py
+++ b/pysgmcmc/samplers/svgd.py
@@ -87,7 +87,10 @@ class SVGDSampler(MCMCSampler):
         def cost_fun_wrapper(params):
             return tf.map_fn(lambda particle: cost_fun(particle), self.particles)
 
-        cost_fun_wrapper.__name__ = cost_fun.__name__
+        # callable objects (e.g. `functools.partial`) do not have a name
+        cost_fun_wrapper.__name__ = getattr(
+            cost_fun, "__name__", cost_fun_wrapper.__name__
+        )
 
         super().__init__(
             params=particles,
-- 
2.43.0

