From 4df5f38b86b742c3ffe3b981c43eeb60ddae4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 01/30] fix: reflective boundary condition could leave a value
 outside the bounds

A value more than one interval width below the lower bound (or three
above) was mirrored past the opposite bound and returned as is.
---
 pocomc/scaler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..ad123e7 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -149,10 +149,11 @@ class Reparameterize:
             x = x.copy()
             for i in self.reflective:
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    while x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        if x[j, i] > self.high[i]:
+                            x[j, i] = self.high[i] - x[j, i] + self.high[i]
+                        else:
+                            x[j, i] = self.low[i] + self.low[i] - x[j, i]
 
         return x
 
-- 
2.43.0


From 4170988d70778c68985b704f826d9f52e2bc9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 02/30] fix: use the clipped probability in the two-sided
 forward transform

The result of np.clip was discarded, so points on a bound mapped to
+-inf and poisoned the fitted mean and scale.
---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index ad123e7..b65b0f5 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -391,7 +391,7 @@ class Reparameterize:
         Transformed input data
         """
         p = (x[:, self.mask_both] - self.low[self.mask_both]) / (self.high[self.mask_both] - self.low[self.mask_both])
-        np.clip(p, 1e-13, 1.0 - 1e-13)
+        p = np.clip(p, 1e-13, 1.0 - 1e-13)
 
         if self.transform == "logit":
             u = np.log(p / (1.0 - p))
-- 
2.43.0


From effd4b7dbe6e2c4cae1a8ffcf2830fdca2a9cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 03/30] fix: trim_weights ran off the percentile grid for
 ess=1.0

Keeping every sample (percentile 0) can give a ratio a rounding error
below one; the loop then wrapped around the grid and raised IndexError.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..ebb8aef 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From 2480a9964ece01049bff3da67c38793a7c3e10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 04/30] fix: systematic_resample could index past the last
 weight

When the weights sum to slightly less than one the last position can
exceed the cumulative sum, which raised IndexError.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index ebb8aef..d9bb9c4 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -178,7 +178,7 @@ def systematic_resample(size: np.ndarray,
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum:
+        while positions[i] > cumulative_sum and j < len(weights) - 1:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From 9847400e283476bcaebe3dceeb23313237d1ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 05/30] fix: results were not refreshed after continuing a run

compute_results cached its first answer forever, so reading results and
then adding samples returned the old history.
---
 pocomc/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..fa42cea 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -146,6 +146,8 @@ class Particles:
                 value = data.get(key)
                 # Save to past states
                 self.past.get(key).append(value)
+        # Any previously computed results are now out of date
+        self.results_dict = None
 
     def pop(self, key):
         """
-- 
2.43.0


From 9dd3fc8f0d4fb4189f30cb458587704b2ac9deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 06/30] fix: resuming during warm-up recorded the finished
 prior batches again

The warm-up loop always restarted from the first batch, so a state saved
mid-warm-up led to duplicated prior particles in the history.
---
 pocomc/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..917b3c0 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,8 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            # On a resumed run the first t batches have already been recorded
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From ce5268a04b6bc1fdebec7536cbf38ab16b6c4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 07/30] fix: record the iteration index of every iteration

iter was only set during warm-up; all later iterations repeated the last
warm-up index.
---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 917b3c0..0730c02 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -730,6 +730,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From 46d19f69dccd0fb9ac62944af3f653b3409f266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 08/30] fix: continuing a run forgot the likelihood calls of
 the evidence estimate

The running total was restarted from the last iteration's count, which
does not include the importance sampling calls made after it.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 0730c02..10289d2 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -627,7 +627,7 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
+        current_particles["calls"] = self.calls + results.get('calls')
         self.calls = current_particles.get("calls")
         self.proposal_scale = results.get('proposal_scale')
 
-- 
2.43.0


From e85f54cc850bbac0322e4f99a990fadf236e5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 09/30] fix: resuming a state saved before the first iteration
 raised IndexError

There is nothing to show on the progress bar yet in that case.
---
 pocomc/sampler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 10289d2..1df03a8 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -407,14 +407,15 @@ class Sampler:
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-            self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
-                                        calls=self.particles.get("calls", -1),
-                                        ESS=self.particles.get("ess", -1),
-                                        logZ=self.particles.get("logz", -1),
-                                        logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
-                                        acc=self.particles.get("accept", -1),
-                                        steps=self.particles.get("steps", -1),
-                                        eff=self.particles.get("efficiency", -1)))
+            if t0 > 0:
+                self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
+                                            calls=self.particles.get("calls", -1),
+                                            ESS=self.particles.get("ess", -1),
+                                            logZ=self.particles.get("logz", -1),
+                                            logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
+                                            acc=self.particles.get("accept", -1),
+                                            steps=self.particles.get("steps", -1),
+                                            eff=self.particles.get("efficiency", -1)))
         else:
             t0 = self.t
             # Run parameters
-- 
2.43.0


From 71aea5a0c346557b653bf373b65ac2c95c6ee0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 10/30] fix: resuming a serially saved state dropped the new
 sampler's pool

pool=None was stored in the state and overwrote the pool of the sampler
that loads it, silently making the rest of the run serial.
---
 pocomc/sampler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 1df03a8..8ebbc2c 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1037,13 +1037,9 @@ class Sampler:
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-            try:
-                # deal with pool
-                if state['pool'] is not None:
-                    del state['pool']  # remove pool
-                    del state['distribute']  # remove `pool.map` function hook
-            except BaseException as e:
-                print(e)
+            # The pool belongs to the process, not to the saved state
+            state.pop('pool', None)  # remove pool
+            state.pop('distribute', None)  # remove `pool.map` function hook
 
             dill.dump(file=f, obj=state)
             f.flush()
-- 
2.43.0


From e075a0c8adecd2867666d54a6b1c3741b963df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 11/30] fix: save_state failed for a nested output directory

The run was lost at its first checkpoint when the parent of output_dir
did not exist.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 8ebbc2c..fef2677 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1032,7 +1032,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From 9ea7cb95e97af1b595e05e2f67410c745745a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 12/30] fix: importance sampling evidence ignored draws outside
 the prior support

Such draws have zero weight but still count: dropping them from the
average overestimated the evidence by -log(fraction inside).
---
 pocomc/sampler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index fef2677..522ee25 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -898,16 +898,18 @@ class Sampler:
         logp = self.log_prior(x_q)
 
         # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        finite = np.isfinite(logp)
+        x_q = x_q[finite]
+        logdetj = logdetj[finite]
+        logq = logq[finite]
+        logp = logp[finite]
 
         # compute log likelihood
         logl, _ = self._log_like(x_q)
 
-        # compute log weights
-        logw = logl + logp + logdetj - logq 
+        # compute log weights (draws outside the prior support have zero weight)
+        logw = np.full(len(finite), -np.inf)
+        logw[finite] = logl + logp + logdetj - logq
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -915,7 +917,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += len(x_q)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From 687e3e5cc91d8562d0dcb52c2b702edacd1977dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 13/30] fix: string and object blobs crashed the MCMC kernels

Elements of an object array have no dtype or shape; allocate the
proposed blobs from the blob array itself.
---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..c7f156f 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From 036c3ac62330d0bb5198c15d5664d8b4981b4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:06 +0000
Subject: [PATCH 14/30] fix: a step with every proposal outside the support
 crashed with blobs

There are no blobs to assign when the likelihood is not evaluated at all.
---
 pocomc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index c7f156f..556aefc 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -112,7 +112,8 @@ def preconditioned_pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -280,7 +281,8 @@ def preconditioned_rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -441,7 +443,8 @@ def pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -595,7 +598,8 @@ def rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
-- 
2.43.0


From 66a8ba70a15e896551b277872a7af027509a3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 15/30] fix: random-walk Metropolis failed for one-parameter
 problems

np.cov returns a 0-d array for a single variable, which cannot be
Cholesky factorised.
---
 pocomc/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
-- 
2.43.0


From cd0d6efdc72ae301a166fdaaed65d27781bb7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:54 +0000
Subject: [PATCH 16/30] fix: infer the blob dtype from all returned blobs, not
 the first one

A first blob that happens to be an int truncated every float blob of the
same batch.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 522ee25..daa62ee 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -846,7 +846,7 @@ class Sampler:
                 dt = self.blobs_dtype
             else:
                 try:
-                    dt = np.atleast_1d(blob[0]).dtype
+                    dt = np.atleast_1d(blob).dtype
                 except ValueError:
                     dt = np.dtype("object")
                 if dt.kind in "US":
-- 
2.43.0


From 191e2e49ad441dfb964f0fb3c2b21abcf9efc843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 17/30] fix: systematic_resample could draw zero-weight samples
 at the extreme offsets

With an offset of exactly 0 a leading zero-weight sample (or the sample before
a cumulative sum hit exactly) was drawn once too often, and with rounding at
the upper end a trailing zero-weight sample was drawn.
---
 pocomc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index d9bb9c4..9baafbf 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -175,10 +175,11 @@ def systematic_resample(size: np.ndarray,
     positions = (np.random.random() + np.arange(size)) / size
 
     j = 0
+    last = np.flatnonzero(weights)[-1]
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum and j < len(weights) - 1:
+        while positions[i] >= cumulative_sum and j < last:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From d849d0b35b4cb84534fb4ca63cbe6b357f6ec68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:50 +0000
Subject: [PATCH 18/30] fix: save_state was not atomic for paths ending in
 .temp

The temporary file had the same name as the final one, so the previous state
was truncated and rewritten in place. It also overwrote another state saved
under the same stem with the suffix .temp.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index daa62ee..cd0c232 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1035,7 +1035,7 @@ class Sampler:
         """
         print(f'Saving PMC state to {path}')
         Path(path).parent.mkdir(parents=True, exist_ok=True)
-        temp_path = Path(path).with_suffix('.temp')
+        temp_path = Path(path).with_name(Path(path).name + '.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-- 
2.43.0


From bc741b8b78028429dc10f90926fb77fc7f46b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 19/30] fix: boundary conditions never returned for values many
 widths away

---
 pocomc/scaler.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index b65b0f5..7b88629 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -124,11 +124,11 @@ class Reparameterize:
         if self.periodic is not None:
             x = x.copy()
             for i in self.periodic:
+                period = self.high[i] - self.low[i]
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.low[i] + x[j, i] - self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.high[i] + x[j, i] - self.low[i]
+                    if x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        x[j, i] = self.low[i] + np.mod(x[j, i] - self.low[i], period)
+                        x[j, i] = np.clip(x[j, i], self.low[i], self.high[i])
         return x
 
     def _apply_reflective_boundary_conditions_x(self, x: np.ndarray):
@@ -148,12 +148,12 @@ class Reparameterize:
         if self.reflective is not None:
             x = x.copy()
             for i in self.reflective:
+                period = self.high[i] - self.low[i]
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i] or x[j, i] < self.low[i]:
-                        if x[j, i] > self.high[i]:
-                            x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                        else:
-                            x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    if x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        x[j, i] = np.mod(x[j, i] - self.low[i], 2.0 * period)
+                        x[j, i] = self.low[i] + np.minimum(x[j, i], 2.0 * period - x[j, i])
+                        x[j, i] = np.clip(x[j, i], self.low[i], self.high[i])
 
         return x
 
-- 
2.43.0


From d38de69439075a40854a3064bc4afd83d322956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 20/30] fix: logit log-Jacobian was -inf in the upper tail

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 7b88629..1d1b4c0 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -418,7 +418,7 @@ class Reparameterize:
         if self.transform == "logit":
             p = np.exp(-np.logaddexp(0, -u[:, self.mask_both]))
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) + np.log(1.0 - p)
+            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) - np.logaddexp(0, -u[:, self.mask_both]) - np.logaddexp(0, u[:, self.mask_both])
         elif self.transform == "probit":
             p = ( erf(u[:, self.mask_both] / np.sqrt(2.0)) + 1.0 ) / 2.0
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-- 
2.43.0


From 8133780f2f528b71878fd82b11aeef04eea43b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:14 +0000
Subject: [PATCH 21/30] fix: rounding could push the inverse of a two-sided
 parameter past its bound

---
 pocomc/scaler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 1d1b4c0..a2e2917 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -423,6 +423,8 @@ class Reparameterize:
             p = ( erf(u[:, self.mask_both] / np.sqrt(2.0)) + 1.0 ) / 2.0
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
             J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + (-u[:, self.mask_both]**2.0 / 2.0) - np.log(np.sqrt(2.0 * np.pi))
+        # Rounding may push the edge of the interval past the upper bound
+        x = np.clip(x, self.low[self.mask_both], self.high[self.mask_both])
         return x, J
 
     def _forward_none(self, x:np.ndarray):
-- 
2.43.0


From 3099bc6e62ca6dbf0e78f8008bdbcaf9740101e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:35 +0000
Subject: [PATCH 22/30] fix: Reparameterize without bounds rejected every input

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index a2e2917..769845e 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,7 +54,7 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile([-np.inf, np.inf], (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
-- 
2.43.0


From 9c1148e55749b0d354baa4794ad14fd913bcdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 23/30] fix: full-covariance scaling failed for one parameter

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 769845e..2d5096b 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -173,7 +173,7 @@ class Reparameterize:
         if self.diagonal:
             self.sigma = np.std(u, axis=0)
         else:
-            self.cov = np.cov(u.T)
+            self.cov = np.atleast_2d(np.cov(u.T))
             self.L = np.linalg.cholesky(self.cov)
             self.L_inv = np.linalg.inv(self.L)
             self.log_det_L = np.linalg.slogdet(self.L)[1]
-- 
2.43.0


From d9d9458d911ead0589cc20bb4dc59bb67331729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 24/30] fix: flow regularisation failed with current zuko
 versions

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..0f9bb2a 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -404,7 +404,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for transform in model.modules():
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From 532f4b1e8741b1a7e73ec455392468938850475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:14 +0000
Subject: [PATCH 25/30] fix: validation_split was the training fraction, not
 the validation fraction

---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 0f9bb2a..00046ba 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dist)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_train = n_samples - int(np.ceil(validation_split * n_samples))
+            x_train = x[:n_train]
+            x_valid = x[n_train:]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[:n_train]
+                weights_valid = weights[n_train:]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From c0d87cd867e8795f384935c60365f9c617e9b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:33 +0000
Subject: [PATCH 26/30] fix: training noise was scaled by the distances of the
 last sample, not the mean nearest-neighbour distance

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 00046ba..3595bb7 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -242,7 +242,7 @@ class Flow:
             for i in range(n_samples):
                 min_dist = torch.linalg.norm(x[i] - x, axis=1)
                 min_dists[i] = torch.min(min_dist[min_dist > 0.0])
-            mean_min_dist = torch.mean(min_dist)
+            mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
             n_train = n_samples - int(np.ceil(validation_split * n_samples))
-- 
2.43.0


From 166c94bf2a5623a93ff4c57574ed6e55c2f8220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:19 +0000
Subject: [PATCH 27/30] fix: an iteration interrupted by an exception left the
 sampler in a state from which the run could not be continued correctly

---
 pocomc/sampler.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index cd0c232..ace6d6b 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -496,17 +496,25 @@ class Sampler:
                 if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                     self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
 
-            # Choose next beta based on ESS of weights
-            self.current_particles = self._reweight(self.current_particles)
+            # State to return to if the iteration is interrupted
+            before = (self.t, self.n_effective, self.flow_untrained, dict(self.current_particles))
 
-            # Train Preconditioner
-            self.current_particles = self._train(self.current_particles)
+            try:
+                # Choose next beta based on ESS of weights
+                self.current_particles = self._reweight(self.current_particles)
 
-            # Resample particles
-            self.current_particles = self._resample(self.current_particles)
+                # Train Preconditioner
+                self.current_particles = self._train(self.current_particles)
 
-            # Evolve particles using MCMC
-            self.current_particles = self._mutate(self.current_particles)   
+                # Resample particles
+                self.current_particles = self._resample(self.current_particles)
+
+                # Evolve particles using MCMC
+                self.current_particles = self._mutate(self.current_particles)   
+            except BaseException:
+                # An interrupted iteration leaves no trace, so that the run can be continued
+                self.t, self.n_effective, self.flow_untrained, self.current_particles = before
+                raise
 
             # Save particles
             self.particles.update(self.current_particles)
-- 
2.43.0


From d1f00cfcef1ff2a88a8f2aa2fe2ede7e5c66f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:19 +0000
Subject: [PATCH 28/30] fix: StopIteration raised by the likelihood silently
 truncated the batch

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index ace6d6b..dfc08ec 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -836,7 +836,7 @@ class Sampler:
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
-            results = list(map(self.log_likelihood, x))
+            results = [self.log_likelihood(x_i) for x_i in x]
 
 
         try:
-- 
2.43.0


From d3df5cfcee5d9b774bc347d7ff22bee61ef887af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 29/30] fix: pool=1 raised AttributeError instead of running in
 serial mode

---
 pocomc/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index dfc08ec..5c4632b 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -265,7 +265,9 @@ class Sampler:
 
         # Parallelism
         self.pool = pool
-        if pool is None:
+        if pool is None or (isinstance(pool, int) and pool == 1):
+            # A single process is serial mode
+            self.pool = None
             self.distribute = map
         elif isinstance(pool, int) and pool > 1:
             self.pool = Pool(pool)
-- 
2.43.0


From e9c37d3db677f6c51de9c91a6b31827243346501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 30/30] fix: weight helpers normalised the caller's array in
 place and failed for integer weights

---
 pocomc/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 9baafbf..7b1b4b8 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -31,7 +31,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
     """
 
     # normalize weights
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     # compute untrimmed ess
     ess_total = 1.0 / np.sum(weights**2.0)
     # define percentile grid
@@ -67,7 +67,7 @@ def effective_sample_size(weights):
     ess : ``float``
         Effective sample size.
     """
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     return 1.0 / np.sum(weights**2.0)
 
 
@@ -89,7 +89,7 @@ def unique_sample_size(weights, k=None):
     """
     if k is None:
         k = len(weights)
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     return np.sum(1.0 - (1.0 - weights)**k)
 
 
-- 
2.43.0

