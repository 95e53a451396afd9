From c9b2013bda11c1a62f6526778fc71dd3893c77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 01/38] fix: rank histograms crashed with pyanen_skip_nan

np.float no longer exists in numpy, so every rank histogram computed with
missing values allowed raised AttributeError.
---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From 12f3d7bfd378d4d8e49c25ab17058ed5d8cc2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 02/38] fix: randomize tied ranks when every sample has a tie

The loop skipped the smallest number of ties on the assumption that it is zero.
When every observation was tied with some member, the observations with the
fewest ties always got the lowest possible rank.
---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..e94af77 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From e1d1672f0cc51f2ca4ec7e1590f0f55edf33de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 03/38] fix: parallel truncated gamma CDF ignored the threshold

The worker evaluated the CDF at the constant 3 instead of its threshold array.
---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From c25954edf5c24f33ce64016a05dc3a5ec8b31ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 04/38] fix: do not cut the upper tail of sharp truncated
 distributions

The upper truncation point is in units of the scale parameter. A truncated gamma
with mean / standard deviation around 100 has its bulk at 10000 scales, and was
therefore truncated from above as well.
---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..b77ee89 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -24,7 +24,7 @@ from functools import partial
 from .dist_truncgamma import truncgamma_gen
 from tqdm.contrib.concurrent import process_map
 
-_LARGE_NUMBER_ = 10000
+_LARGE_NUMBER_ = np.inf
 
 
 def _parallel_process(wrapper, iterable, total, name=''):
-- 
2.43.0


From ec7d8ef9a6b59af20be542bd5cba35e566908136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 05/38] fix: gamma CRPS was NaN for sharp forecasts

special.gamma overflows from about 171.6 on, so the log of the beta function was
inf - inf for every forecast with (mu / sigma) ** 2 above that.
---
 PyAnEn/utils_crps.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8887d42 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,9 +23,7 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
-    return log_prod_gamma_x - log_gamma_sum_x
+    return special.betaln(x1, x2)
 
 
 def crps_gamma(mu, sigma, shift, obs, reduce_sum=True):
-- 
2.43.0


From 4b7ddf2ae90ad84cde382486d3d8fc0f3a8804bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 06/38] fix: set_collapse_func and set_ensemble_axis had no
 effect on errors

The collapsed forecasts were only computed in the constructor.
---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From 79c7f87adfef35457c7fc4584c4b5eee80a2105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 07/38] fix: respect move_sampled_ens_axis in spread and rank
 histograms

Both assumed that sampled members lie along the last axis.
---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From 8ac8a509aa64e17e833c873fb72dc24128c0ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 08/38] fix: binned_spread_skill sorted the caller's arrays in
 place

---
 PyAnEn/utils_ss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..07f51d2 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -64,8 +64,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     shape_to_keep = variance.shape[to_axis:]
     
     # Flatten the sample dimensions and the kept dimensions separately
-    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
-    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
+    # and make copies because the arrays are going to be sorted in place
+    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
+    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
     
     # Sort arrays based on variance 
     for i in range(variance.shape[1]):
-- 
2.43.0


From fe589320ffe45c7f44b479ed578d6b5b5e604e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 09/38] fix: saved IOU, reliability and spread-skill data
 ignored the average axis

These depend on avg_axis, which was not part of the file name: with
start_from_scratch=False, changing avg_axis returned the data of the old axis.
---
 PyAnEn/Verify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..cdb92d8 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -67,8 +67,8 @@ class Verify:
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -78,8 +78,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, avg_axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, avg_axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From f1598e1b170fde1c849cb15edc15eb61be9c87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 10/38] fix: saved data of nearly equal threshold arrays shared
 one file

str() of an array keeps 8 digits, so the results of one threshold array were
returned for another one that differs only after that.
---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index cdb92d8..f9b60b3 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -155,7 +155,7 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
-            strs[k] = str(v).replace(' ', '_')
+            strs[k] = str(v.tolist() if isinstance(v, np.ndarray) else v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
     
-- 
2.43.0


From d1df0aa67c43e117ec006cbbc7868a950c6624b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 11/38] fix: iou_prob could not be called with only one of over
 and below

The public method passed None for the missing one, which the implementation
rejects; its own default is (None, None).
---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index f9b60b3..a32edb1 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -68,7 +68,7 @@ class Verify:
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
     def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
+    def iou_prob(self, over=(None, None), below=(None, None), save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
-- 
2.43.0


From b32c1c87d876be2c5f7b30cbdd7edebd3141c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 12/38] fix: reliability index of a flat rank histogram was not
 zero

The index is the sum of |f_j - 1/(M+1)| over the M+1 bins (Delle Monache et al.,
2006); the expected frequency was 1/2, 1/3, ... instead.
---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index a32edb1..928cb44 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -94,7 +94,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From 225c3bc062aa86bc371d4302a375bb278660a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 13/38] fix: negative average axes

Negative and non-negative axes together, e.g. (1, -1), made bootstrapping,
reliability and spread-skill sample along other axes than the requested ones,
and correlation and Brier decomposition raised for any negative axis.
---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 2 +-
 PyAnEn/utils_verify.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..ccbc7f4 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [i + len(o.shape) if i < 0 else i for i in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 07f51d2..1c65796 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -55,7 +55,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([i + len(variance.shape) if i < 0 else i for i in sample_axis]):
         if from_axis != to_axis:
             variance = np.moveaxis(variance, from_axis, to_axis)
             sq_error = np.moveaxis(sq_error, from_axis, to_axis)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e94af77..27c849d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -261,7 +261,7 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([i + len(metric.shape) if i < 0 else i for i in sample_axis]):
         if from_axis != to_axis:
             metric = np.moveaxis(metric, from_axis, to_axis)
         to_axis += 1
@@ -304,7 +304,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in np.sort([i + len(f_prob.shape) if i < 0 else i for i in sample_axis]):
         if from_axis != to_axis:
             f_prob = np.moveaxis(f_prob, from_axis, to_axis)
             o_binary = np.moveaxis(o_binary, from_axis, to_axis)
-- 
2.43.0


From 79b2998dcc01e2d1fa6d9b831e83ccfe0bca8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 14/38] fix: autocovariance of the Diebold Mariano test

Harvey et al. (1997) and the code this was adopted from divide the sum by the
length of the series, not by the number of terms.
---
 PyAnEn/utils_significance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_significance.py b/PyAnEn/utils_significance.py
index b5d75f4..d67bd6a 100644
--- a/PyAnEn/utils_significance.py
+++ b/PyAnEn/utils_significance.py
@@ -20,7 +20,7 @@ from scipy.stats import t
 
 
 def autocovariance(d, k):
-    return np.mean((d[k:] - d.mean()) * (d[:(len(d) - k)] - d.mean()))
+    return np.sum((d[k:] - d.mean()) * (d[:(len(d) - k)] - d.mean())) / len(d)
 
 
 def diebold_mariano_test(actual_lst, pred1_lst, pred2_lst, h=1, crit="MSE", power=2):
-- 
2.43.0


From 30dbf99e8b2726db8939afa11a062fff126c26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 15/38] fix: bootstrap intervals had a lower confidence than
 configured

Only boot_vec returned the central interval. Correlation, Brier decomposition,
reliability and spread-skill used the quantiles 1-confidence and confidence: a
90% interval for pyanen_boot_confidence=0.95, and a lower limit above the upper
one for confidences below 0.5.
---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index ccbc7f4..9ed6d60 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.nanquantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.quantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 1c65796..43c7bee 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -160,8 +160,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence)/2, (1+confidence)/2])
+            mse_ci = np.quantile(mses, [(1-confidence)/2, (1+confidence)/2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 27c849d..4d11731 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -410,10 +410,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence)/2, (1+confidence)/2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence)/2, (1+confidence)/2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From fef05a0216ec6fbb4b6dc190e286e6335dfbc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 16/38] fix: bootstrapped correlation ignored pyanen_skip_nan

Missing pairs are dropped without bootstrapping, but with it every resample that
had a missing pair was NaN.
---
 PyAnEn/utils_special_boot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 9ed6d60..77e7318 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -125,6 +125,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
     
     else:
         corr = []
+        
+        if skip_nan:
+            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+            if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
             
         for _ in range(repeats):
             indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
-- 
2.43.0


From 9fef6024bf10912f34ecefce8a6d40beebff0da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 17/38] fix: a failed integration left changed settings and
 files behind

An exception from the verifier skipped the restoration of pyanen_tqdm_disable and
pyanen_tqdm_workers, left the memory map on disk, and left Ray running, which
made the next parallel integration fail.
---
 PyAnEn/utils_approximation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..cd15f84 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -224,10 +224,14 @@ class Integration:
     def _workflow(self, func):
         
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
+        
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            ret = func()
+        finally:
+            self._resume_sublevel_tqdm()
+            if self.cores > 1: ray.shutdown()
+            self._finalize_memmap()
         
         return ret
     
@@ -247,8 +251,8 @@ class Integration:
                 dtype=self.memmap_dtype, mode='readonly') if self.less_memory else None
     
     def _finalize_memmap(self):
-        if self.less_memory:
-            del self.memmap_arr_r
+        if self.memmap_arr_str is not None:
+            self.memmap_arr_r = None
             
             os.remove(self.memmap_arr_str)
             
-- 
2.43.0


From 18a79d85f4014d3a63efbc2b7838d0363dc938ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 18/38] fix: parallel sampling generated the same members in
 every worker

Workers are forked with a copy of the global random state, so slices handled by
different workers got identical random numbers.
---
 PyAnEn/utils_dist.py   | 9 +++++++--
 PyAnEn/utils_verify.py | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index b77ee89..8443e34 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -44,6 +44,11 @@ def _parallel_process(wrapper, iterable, total, name=''):
     return np.concatenate(ens, axis=parallelize_axis)
 
 
+def wrapper_seeded(x, wrapper):
+    # Workers are forked with the same random state. Without a seed they would all generate the same numbers.
+    np.random.seed(x[0])
+    return wrapper(x[1])
+
 def wrapper_gamma_rvs(x, n_sample_members):
     return stats.gamma(a=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_gamma_cdf(x):
@@ -108,7 +113,7 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
         else:
             wrapper = partial(wrapper_norm_rvs, n_sample_members=n_sample_members)
         
-        ens = _parallel_process(wrapper, iterable, total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs')
+        ens = _parallel_process(partial(wrapper_seeded, wrapper=wrapper), zip(np.random.randint(2 ** 31, size=mu.shape[parallelize_axis]), iterable), total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs')
             
     # Move the ensemble axis somewhere else if the first position is not desired
     if move_axis != 0:
@@ -152,7 +157,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
         else:
             wrapper = partial(wrapper_gamma_rvs, n_sample_members=n_sample_members)
         
-        ens = _parallel_process(wrapper, iterable, total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs')
+        ens = _parallel_process(partial(wrapper_seeded, wrapper=wrapper), zip(np.random.randint(2 ** 31, size=shape.shape[parallelize_axis]), iterable), total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs')
         
     # Move the ensemble axis somewhere else if the first position is not desired
     if move_axis != 0:
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 4d11731..c45471d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -27,7 +27,10 @@ from sklearn.neighbors import KernelDensity
 from tqdm.contrib.concurrent import process_map
 
 
-def rankdata(x):
+def rankdata(x, seed=None):
+    # Workers are forked with the same random state. Without a seed they would all break ties in the same way.
+    if seed is not None: np.random.seed(seed)
+    
     ranks = stats.rankdata(x, method='min', axis=0)
     
     obs_ranks = ranks[0]
@@ -76,6 +79,7 @@ def rank_histogram(f, o, ensemble_axis):
         
         ranks = process_map(rankdata,
                             np.split(c, c.shape[parallelize_axis], parallelize_axis),
+                            np.random.randint(2 ** 31, size=c.shape[parallelize_axis]),
                             disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                             leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                             chunksize=chunksize, max_workers=cores,
-- 
2.43.0


From adcbde4f76feddff6be0b15855395e4d310fc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 19/38] fix: gamma hurdle probabilities below zero

The CDF was 1-pop for negative thresholds, where it has to be 0. The default
integration range extends below zero, which added (1-pop)**2 times the length of
that part to every CRPS.
---
 PyAnEn/VerifyProbGammaHurdle.py | 3 +++
 PyAnEn/utils_approximation.py   | 2 +-
 PyAnEn/utils_dist.py            | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..3e51138 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -24,6 +24,9 @@ from .utils_approximation import Integration
 
 class VerifyProbGammaHurdle(VerifyProb):
     
+    # There is no probability below zero. The default integration range starts from here at the earliest.
+    lower_bound = 0
+    
     def __init__(self, f, o, move_sampled_ens_axis=-1, truncated=False,
                  pit_randomize_zero_ranks=True, avg_axis=None,
                  n_sample_members=None, clip_member_to_zero=None, n_approx_bins=20, 
diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index cd15f84..92c2891 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -292,7 +292,7 @@ class Integration:
             vmax = np.max(self.verifier.o)
             
             vrange = vmax - vmin
-            self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
+            self.integration_range = (max(vmin - range_multi * vrange, getattr(self.verifier, 'lower_bound', -np.inf)), vmax + range_multi * vrange)
             
         self.seq_x = np.linspace(self.integration_range[0], self.integration_range[1], self.nbins)
     
diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 8443e34..383c460 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -61,6 +61,7 @@ def wrapper_truncgamma_cdf(x):
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
+    prob[x[3] < 0.] = 0.
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
     return prob
@@ -255,6 +256,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
 def cdf_gamma_hurdle(pop, mu, sigma, below):
     # The calculation is as follows:
     #
+    # 0                                        given below<0
     # 1 - pop                                  given below=0
     # [1-pop] + pop*CDFgamma(y,shape,scale).   given below>0
     #
-- 
2.43.0


From 132c66cd442009e8ee8b1fe608f97e40466eaa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 20/38] fix: open_mfdataset failed for groups without station
 coordinates

xarray rejects concat_dim unless combine='nested'. Files are combined by the
station coordinates that preprocess adds, as for the group itself.
---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..e9c9b67 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,7 +145,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
 
-- 
2.43.0


From cb4dad19c7c2fd0574e35f5cbc4c7c6f3c4fc12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:12 +0000
Subject: [PATCH 21/38] fix: truncated Gaussian CRPS was NaN for means far
 below zero

---
 PyAnEn/utils_crps.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 8887d42..974cece 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -97,21 +97,20 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     
     dist = stats.norm()
     f_z = dist.pdf(z)
-    F_z = dist.cdf(z)
-    F_l = dist.cdf(l)
-    F_u = 1
     
-    F_usqrt2 = 1
-    F_lsqrt2 = dist.cdf(l * np.sqrt(2))
+    # Survival functions (1 - F) because F is rounded to one when mu is far below the truncation
+    S_z = dist.sf(z)
+    S_l = dist.sf(l)
+    S_lsqrt2 = dist.sf(l * np.sqrt(2))
     
     # Calculate intermediate terms
-    frac1 = 1 / (F_u - F_l)
+    frac1 = 1 / S_l
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (2 * F_z - F_u - F_l)
+    term2 = frac1 * z * (S_l - 2 * S_z)
     term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * (F_usqrt2 - F_lsqrt2)
+    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 77d6680a51f71bd3cdb57d263f7b016cdb167bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:49 +0000
Subject: [PATCH 22/38] fix: Brier decomposition counted missing values with
 skip_nan

---
 PyAnEn/utils_special_boot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 77e7318..6dd68cb 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -49,6 +49,10 @@ def brier_decomp(f, o, avg_axis=None, n_samples=None, repeats=None, confidence=N
 
 def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_nan, n_bins=19):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     bins = np.linspace(0, 1, n_bins + 2)[1:-1]
     belongs = np.digitize(f_slice, bins)
 
-- 
2.43.0


From 3e921010082d2d7812107c82f31159f024b99589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 23/38] fix: missing observations counted as non-events with
 skip_nan

Threshold metrics (Brier score, ROC, reliability, IOU) compared a missing
observation with the threshold, which is always false.
---
 PyAnEn/utils_verify.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index c45471d..3e84425 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -200,7 +200,13 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o < below if over is None else o > over
+    o_binary = o < below if over is None else o > over
+    
+    if util.strtobool(os.environ['pyanen_skip_nan']) and np.any(np.isnan(o)):
+        # A missing observation is neither an event nor a non-event
+        o_binary = np.where(np.isnan(o), np.nan, o_binary)
+    
+    return o_binary
 
 
 def calculate_roc(f_prob, o_binary):
@@ -327,7 +333,15 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     return binids, f_prob, o_binary, bins
 
 
+def _reliability_drop_nan(binids, y_prob, y_true):
+    mask = np.isnan(y_prob) | np.isnan(y_true)
+    return binids[~mask], y_prob[~mask], y_true[~mask]
+
+
 def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
+    
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        binids, y_prob, y_true = _reliability_drop_nan(binids, y_prob, y_true)
 
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
     bin_true = np.bincount(binids, weights=y_true, minlength=len(bins))
@@ -393,6 +407,7 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
     if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
     if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
     if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+    if skip_nan: binids, y_prob, y_true = _reliability_drop_nan(binids, y_prob, y_true)
     
     probs_pred = []
     probs_true = []
@@ -514,6 +529,12 @@ def _iou(f_binary, o_binary, axis=None):
     return iou
 
 
+def _iou_drop_nan(f, o, f_binary, o_binary):
+    # A pair with a missing value is in neither of the two sets
+    valid = ~(np.isnan(f) | np.isnan(o))
+    return f_binary & valid, (o_binary == 1) & valid
+
+
 def iou_determ(f, o, axis=None, over=None, below=None):
     assert f.shape == o.shape
     assert (over is None) ^ (below is None), 'Must specify over or below'
@@ -525,6 +546,9 @@ def iou_determ(f, o, axis=None, over=None, below=None):
         f_binary = f > over
         o_binary = o > over
     
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        f_binary, o_binary = _iou_drop_nan(f, o, f_binary, o_binary)
+    
     return _iou(f_binary, o_binary, axis)
 
 
@@ -539,5 +563,8 @@ def iou_prob(f_prob, o_binary, axis=None, over=None, below=None):
         assert 0 <= over <= 1, 'over needs to be a probability in [0, 1]'
         f_binary = f_prob > over
     
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        f_binary, o_binary = _iou_drop_nan(f_prob, o_binary, f_binary, o_binary)
+    
     return _iou(f_binary, o_binary, axis)
 
-- 
2.43.0


From f728bf822bc28c7bd21edafeef2aa6ead45795be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 24/38] fix: missing members counted as above the threshold
 with skip_nan

---
 PyAnEn/utils_verify.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 3e84425..8838324 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -125,7 +125,14 @@ def ens_to_prob_kde(ens, bandwidth=None, kernel=None,
 
 def ens_to_prob_moments(ens, pbar=None):
     if pbar is not None: pbar.update(1)
-    return np.count_nonzero(ens[1:] <= ens[0], axis=0) / (ens.shape[0] - 1)
+    n_members = ens.shape[0] - 1
+    
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        # Missing members are neither below nor above the threshold. The probability is missing without any members.
+        n_members = np.count_nonzero(~np.isnan(ens[1:]), axis=0)
+        n_members = np.where(n_members == 0, np.nan, n_members)
+    
+    return np.count_nonzero(ens[1:] <= ens[0], axis=0) / n_members
 
 
 def ens_to_prob(f, ensemble_aixs, over=None, below=None):
-- 
2.43.0


From 39f6fdb444f7627e022b8395510705df3ea2ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:35 +0000
Subject: [PATCH 25/38] fix: gamma hurdle accepted forecasts that do not match
 the observations

---
 PyAnEn/VerifyProbGammaHurdle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index 3e51138..ae63fc8 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -58,6 +58,13 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert hasattr(self.f, 'keys'), 'f should be dict-like'
         assert isinstance(self.o, np.ndarray)
         
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in self.f.keys():
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
-- 
2.43.0


From 41c47c8761bf3f8ec5aafabb79f28d6bdbfb6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:37 +0000
Subject: [PATCH 26/38] fix: all components of the Brier decomposition are
 missing for a slice without any pairs

---
 PyAnEn/utils_special_boot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 6dd68cb..409716e 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -51,7 +51,11 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
     
     if skip_nan:
         mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
-        if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
+        
+        # All components are missing if there are no pairs left
+        if not np.any(mask): return [np.nan] * 3 if n_samples is None else [[np.nan] * 3] * 3
+        
+        f_slice, o_slice = f_slice[mask], o_slice[mask]
     
     bins = np.linspace(0, 1, n_bins + 2)[1:-1]
     belongs = np.digitize(f_slice, bins)
-- 
2.43.0


From 9fbdd945e88ffabde4ab2e9c9e1acb310526e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 27/38] fix: keep missing gamma hurdle probabilities below zero
 missing

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 383c460..719132c 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -61,7 +61,7 @@ def wrapper_truncgamma_cdf(x):
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-    prob[x[3] < 0.] = 0.
+    prob[x[3] < 0.] *= 0.  # not assigned so that missing forecasts stay missing
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
     return prob
-- 
2.43.0


From e1cfc9cd50cb75d4c17291e6ddb8e5e1e02a5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:17 +0000
Subject: [PATCH 28/38] fix: saved correlation and Brier decomposition ignored
 the average axis and bootstrap

With a save_name, the averaged (or bootstrapped) result was saved under a name
without avg_axis and boot_samples: with start_from_scratch=False, changing either
returned the data of the old setting.
---
 PyAnEn/Verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 928cb44..fb6e820 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -59,8 +59,8 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
-- 
2.43.0


From a65ed084f6b09cbb2ea3310ea985e1de834af5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:49 +0000
Subject: [PATCH 29/38] fix: truncated gamma was missing wherever the shift is
 positive

The lower bound -shift / scale is below the support of the gamma
distribution when the shift is positive, and the distribution then refused
its arguments: probabilities, members and ranks were NaN. Nothing is
truncated in that case.
---
 PyAnEn/utils_dist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 719132c..99eaf16 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -55,9 +55,9 @@ def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=np.maximum(-x[2], 0)/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=np.maximum(-x[2], 0)/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
@@ -140,7 +140,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     
     if cores == 1:
         if truncated:
-            ens = truncgamma_gen()(a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
+            ens = truncgamma_gen()(a=np.maximum(-shift, 0)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         else:
             ens = stats.gamma(a=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         
@@ -227,7 +227,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     if cores == 1:
         if truncated:
-            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
+            probs = truncgamma_gen().cdf(x=below, a=np.maximum(-shift, 0)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
         else:
             probs = stats.gamma.cdf(x=below, a=shape, loc=shift, scale=scale)
             
-- 
2.43.0


From 69b651b38d1ded9805d7480e2dcf77ab4e648496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:51 +0000
Subject: [PATCH 30/38] fix: errors, spread and CRPS of small or unsigned
 integers wrapped around

---
 PyAnEn/VerifyDeterm.py   |  7 ++++---
 PyAnEn/VerifyEnsemble.py | 25 +++++++++++++++----------
 PyAnEn/utils_verify.py   |  5 +++++
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/PyAnEn/VerifyDeterm.py b/PyAnEn/VerifyDeterm.py
index bded77d..50d8bee 100644
--- a/PyAnEn/VerifyDeterm.py
+++ b/PyAnEn/VerifyDeterm.py
@@ -18,6 +18,7 @@ import numpy as np
 
 from .Verify import Verify
 from .utils_special_boot import corr
+from .utils_verify import as_float
 from .utils_verify import iou_determ
 
 
@@ -37,13 +38,13 @@ class VerifyDeterm(Verify):
     ##################
     
     def _error(self):
-        return self.f - self.o
+        return as_float(self.f) - self.o
     
     def _sq_error(self):
-        return (self.f - self.o) ** 2
+        return (as_float(self.f) - self.o) ** 2
     
     def _ab_error(self):
-        return np.abs(self.f - self.o)
+        return np.abs(as_float(self.f) - self.o)
     
     def _iou_determ(self, over=None, below=None):
         return iou_determ(self.f, self.o, axis=self.avg_axis, over=over, below=below)
diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 751abac..c7eb497 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -23,6 +23,7 @@ from tqdm.auto import tqdm
 from .Verify import Verify
 from .utils_special_boot import corr
 from .utils_special_boot import brier_decomp
+from .utils_verify import as_float
 from .utils_verify import iou_prob
 from .utils_verify import iou_determ
 from .utils_verify import ens_to_prob
@@ -77,26 +78,28 @@ class VerifyEnsemble(Verify):
         return corr(self.f_determ(), self.o, self.avg_axis, self.boot_samples)
     
     def _error(self):
-        return self.f_collapsed - self.o
+        return as_float(self.f_collapsed) - self.o
     
     def _sq_error(self):
-        return (self.f_collapsed - self.o) ** 2
+        return (as_float(self.f_collapsed) - self.o) ** 2
     
     def _ab_error(self):
-        return np.abs(self.f_collapsed - self.o)
+        return np.abs(as_float(self.f_collapsed) - self.o)
     
     def _crps(self):
+        f, o = as_float(self.f), as_float(self.o)
+        
         if util.strtobool(os.environ['pyanen_split_crps_ensemble_along_0']):
             
             # Move ensemble axis to the last one if it is not already
             if self.ensemble_axis == -1 or self.ensemble_axis == len(self.f.shape) - 1:
-                _f = self.f
+                _f = f
             else:
-                _f = np.moveaxis(self.f, self.ensemble_axis, -1)
+                _f = np.moveaxis(f, self.ensemble_axis, -1)
                 
-            crps = [ps.crps_ensemble(self.o[i], _f[i], axis=-1)
+            crps = [ps.crps_ensemble(o[i], _f[i], axis=-1)
                     for i in tqdm(
-                        range(self.o.shape[0]),
+                        range(o.shape[0]),
                         disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                         leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                         desc='Ensemble CRPS (along first axis)')]
@@ -104,16 +107,18 @@ class VerifyEnsemble(Verify):
             return np.stack(crps, axis=0)
         
         else:
-            return ps.crps_ensemble(observations=self.o, forecasts=self.f, axis=self.ensemble_axis)
+            return ps.crps_ensemble(observations=o, forecasts=f, axis=self.ensemble_axis)
     
     def _rank_hist(self):
         return rank_histogram(f=self.f, o=self.o, ensemble_axis=self.ensemble_axis)
     
     def _spread(self):
+        f = as_float(self.f)
+        
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(self.f, axis=self.ensemble_axis) - np.nanmin(self.f, axis=self.ensemble_axis)
+            return np.nanmax(f, axis=self.ensemble_axis) - np.nanmin(f, axis=self.ensemble_axis)
         else:
-            return np.max(self.f, axis=self.ensemble_axis) - np.min(self.f, axis=self.ensemble_axis)
+            return np.max(f, axis=self.ensemble_axis) - np.min(f, axis=self.ensemble_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 8838324..f1c5f0c 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -27,6 +27,11 @@ from sklearn.neighbors import KernelDensity
 from tqdm.contrib.concurrent import process_map
 
 
+def as_float(x):
+    # Differences and squares of integers would wrap around
+    return x if np.issubdtype(x.dtype, np.inexact) else x.astype(float)
+
+
 def rankdata(x, seed=None):
     # Workers are forked with the same random state. Without a seed they would all break ties in the same way.
     if seed is not None: np.random.seed(seed)
-- 
2.43.0


From 0b1c038938b0f0f7d166b706610ac85331521aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 31/38] fix: the default integration range was missing with
 skip_nan and a missing observation

---
 PyAnEn/utils_approximation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 92c2891..4a0d803 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -288,8 +288,9 @@ class Integration:
             assert range_multi > 0
             
             # Define the x bins to integrate
-            vmin = np.min(self.verifier.o)
-            vmax = np.max(self.verifier.o)
+            skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+            vmin = np.nanmin(self.verifier.o) if skip_nan else np.min(self.verifier.o)
+            vmax = np.nanmax(self.verifier.o) if skip_nan else np.max(self.verifier.o)
             
             vrange = vmax - vmin
             self.integration_range = (max(vmin - range_multi * vrange, getattr(self.verifier, 'lower_bound', -np.inf)), vmax + range_multi * vrange)
-- 
2.43.0


From a35dd1a3ca6ce7495f7f9a71dc292a93957363df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 32/38] fix: the default integration range wrapped around for
 observations of small integer types

---
 PyAnEn/utils_approximation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 4a0d803..e5466db 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -292,6 +292,9 @@ class Integration:
             vmin = np.nanmin(self.verifier.o) if skip_nan else np.min(self.verifier.o)
             vmax = np.nanmax(self.verifier.o) if skip_nan else np.max(self.verifier.o)
             
+            # Integers would wrap around
+            vmin, vmax = float(vmin), float(vmax)
+            
             vrange = vmax - vmin
             self.integration_range = (max(vmin - range_multi * vrange, getattr(self.verifier, 'lower_bound', -np.inf)), vmax + range_multi * vrange)
             
-- 
2.43.0


From c2c9aa9b5c0094a68be460b4e4b66d6e5edf4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 33/38] fix: the gamma hurdle CRPS of a missing observation was
 a number

---
 PyAnEn/VerifyProbGammaHurdle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index ae63fc8..088640f 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -89,7 +89,10 @@ class VerifyProbGammaHurdle(VerifyProb):
         return Integration(verifier=self, integration_range=self.integration_range, nbins=self.n_approx_bins).mean()
     
     def _crps(self):
-        return Integration(verifier=self, integration_range=self.integration_range, nbins=self.n_approx_bins).crps()
+        crps = Integration(verifier=self, integration_range=self.integration_range, nbins=self.n_approx_bins).crps()
+        
+        # A missing observation has no score. Without skip_nan, it would have been integrated as a non-event.
+        return np.where(np.isnan(self.o), np.nan, crps)
     
     def _corr(self):
         return corr(self.f_determ(), self.o, self.avg_axis, self.boot_samples)
-- 
2.43.0


From 0cb2acdf7f2230234805b02f06802fdcfa63b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 34/38] fix: the gamma hurdle PIT of a missing observation was
 a number

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 99eaf16..b9a2add 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -62,7 +62,7 @@ def wrapper_truncgamma_cdf(x):
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     prob[x[3] < 0.] *= 0.  # not assigned so that missing forecasts stay missing
-    mask = x[3] > 0.
+    mask = ~(x[3] <= 0.)  # including missing thresholds, which have missing probabilities
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
     return prob
 
-- 
2.43.0


From 50a8c3a2291e338be2fe62f516d20e7d660b7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:58 +0000
Subject: [PATCH 35/38] fix: the Diebold-Mariano test of small or unsigned
 integers wrapped around

---
 PyAnEn/utils_significance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/utils_significance.py b/PyAnEn/utils_significance.py
index d67bd6a..a2a3deb 100644
--- a/PyAnEn/utils_significance.py
+++ b/PyAnEn/utils_significance.py
@@ -17,6 +17,7 @@
 import numpy as np
 
 from scipy.stats import t
+from .utils_verify import as_float
 
 
 def autocovariance(d, k):
@@ -68,6 +69,7 @@ def diebold_mariano_test(actual_lst, pred1_lst, pred2_lst, h=1, crit="MSE", powe
     actual_lst = actual_lst.ravel()
     pred1_lst = pred1_lst.ravel()
     pred2_lst = pred2_lst.ravel()
+    actual_lst, pred1_lst, pred2_lst = as_float(actual_lst), as_float(pred1_lst), as_float(pred2_lst)
     
     lst_size = len(actual_lst)
     assert lst_size == len(pred1_lst) == len(pred2_lst), 'Lengths of actual_lst, pred1_lst and pred2_lst must match!'
-- 
2.43.0


From f10331f4ef4b60c7a75e046bd333b77160a99ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 36/38] fix: truncated gamma distributions with little
 probability above the lower bound lost their digits or were NaN

---
 PyAnEn/dist_truncgamma.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..9f517b3 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -20,6 +20,7 @@ import scipy.special as sc
 from scipy import stats
 from scipy.stats import rv_continuous
 from scipy.special import gammainc, gammaincinv
+from scipy.special import gammaincc, gammainccinv
 
 
 class truncgamma_gen(rv_continuous):
@@ -37,8 +38,12 @@ class truncgamma_gen(rv_continuous):
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
 
+    def _mass(self, lower, upper, s):
+        # The complements are used in the upper tail, where the regularized gamma function is rounded to one
+        return np.where(lower > s, gammaincc(s, lower) - gammaincc(s, upper), gammainc(s, upper) - gammainc(s, lower))
+
     def _pdf(self, x, a, b, s):
-        result = np.exp(self._logpdf(x, s)) / (sc.gammainc(s, b) - sc.gammainc(s, a))
+        result = np.exp(self._logpdf(x, s)) / self._mass(a, b, s)
         
         mask = (x<a) | (x>b)
         result[mask] = 0.0
@@ -46,19 +51,15 @@ class truncgamma_gen(rv_continuous):
 
     def _cdf(self, x, a, b, s):
         
-        P_x = sc.gammainc(s, x)
-        P_a = sc.gammainc(s, a)
-        P_b = sc.gammainc(s, b)
-        result = (P_x - P_a) / (P_b - P_a)
+        result = self._mass(a, x, s) / self._mass(a, b, s)
         
         mask = (x<a) | (x>b)
         result[mask] = 0.0
         return result
     
     def _ppf(self, q, a, b, s):
-        P_a = gammainc(s, a)
-        P_b = gammainc(s, b)
-        return gammaincinv(s, q * (P_b - P_a) + P_a)
+        P = q * self._mass(a, b, s)
+        return np.where(a > s, gammainccinv(s, gammaincc(s, a) - P), gammaincinv(s, P + gammainc(s, a)))
     
     def _rvs(self, a, b, s, size=None, random_state=None):
         q = stats.uniform().rvs(size=size)
-- 
2.43.0


From 6085a7fca06bbfc58db5e55207a3f8a0f76fed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 37/38] fix: CRPS of Gaussian forecasts truncated far above
 their mean was NaN

---
 PyAnEn/utils_crps.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 974cece..1058587 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -96,21 +96,17 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     z[mask] = l[mask]
     
     dist = stats.norm()
-    f_z = dist.pdf(z)
     
-    # Survival functions (1 - F) because F is rounded to one when mu is far below the truncation
-    S_z = dist.sf(z)
-    S_l = dist.sf(l)
-    S_lsqrt2 = dist.sf(l * np.sqrt(2))
-    
-    # Calculate intermediate terms
-    frac1 = 1 / S_l
+    # Logarithms of survival functions (1 - F) because F is rounded to one, and then
+    # the survival function to zero, when mu is far below the truncation
+    #
+    log_S_l = dist.logsf(l)
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (S_l - 2 * S_z)
-    term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
+    term2 = z * (1 - 2 * np.exp(dist.logsf(z) - log_S_l))
+    term3 = 2 * np.exp(dist.logpdf(z) - log_S_l)
+    term4 = np.exp(dist.logsf(l * np.sqrt(2)) - 2 * log_S_l) / np.sqrt(np.pi)
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 1bfaab1165d33ed34171dd25e8e049996084c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 38/38] fix: parameters of distributions stored as small or
 unsigned integers wrapped around

---
 PyAnEn/VerifyProbGamma.py    | 5 +++--
 PyAnEn/VerifyProbGaussian.py | 9 +++++----
 PyAnEn/utils_crps.py         | 3 +++
 PyAnEn/utils_dist.py         | 8 ++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/VerifyProbGamma.py b/PyAnEn/VerifyProbGamma.py
index 62b945a..c463602 100644
--- a/PyAnEn/VerifyProbGamma.py
+++ b/PyAnEn/VerifyProbGamma.py
@@ -19,6 +19,7 @@ import numpy as np
 from .VerifyProb import VerifyProb
 from .utils_crps import crps_gamma
 from .utils_special_boot import corr
+from .utils_verify import as_float
 from .utils_dist import sample_dist_gamma, cdf_gamma
 
 
@@ -55,10 +56,10 @@ class VerifyProbGamma(VerifyProb):
         assert 'unshifted_mu' in self.f.keys()
         
     def _f_determ(self):
-        return np.copy(self.f['mu'])
+        return as_float(np.copy(self.f['mu']))
     
     def _variance(self):
-        return self.f['sigma'] ** 2
+        return as_float(self.f['sigma']) ** 2
     
     def _prob_to_ens(self):
         assert self.n_sample_members is not None, 'Set the number of members to sample, e.g., obj.set_ensemble_members(15)'
diff --git a/PyAnEn/VerifyProbGaussian.py b/PyAnEn/VerifyProbGaussian.py
index c6bf58f..896e561 100644
--- a/PyAnEn/VerifyProbGaussian.py
+++ b/PyAnEn/VerifyProbGaussian.py
@@ -19,6 +19,7 @@ import properscoring as ps
 
 from .VerifyProb import VerifyProb
 from .utils_special_boot import corr
+from .utils_verify import as_float
 from .utils_crps import crps_truncated_gaussian
 from .utils_dist import sample_dist_gaussian, cdf_gaussian
 
@@ -53,10 +54,10 @@ class VerifyProbGaussian(VerifyProb):
         assert 'sigma' in self.f.keys()
         
     def _f_determ(self):
-        return np.copy(self.f['mu'])
+        return as_float(np.copy(self.f['mu']))
     
     def _variance(self):
-        return self.f['sigma'] ** 2
+        return as_float(self.f['sigma']) ** 2
     
     def _prob_to_ens(self):
         assert self.n_sample_members is not None, 'Set the number of members to sample, e.g., obj.n_sample_members = 15'
@@ -76,9 +77,9 @@ class VerifyProbGaussian(VerifyProb):
     def _crps(self):
         
         if self.truncated:
-            return crps_truncated_gaussian(self.o, mu=self.f['mu'], scale=self.f['sigma'], l=0)
+            return crps_truncated_gaussian(self.o, mu=as_float(self.f['mu']), scale=as_float(self.f['sigma']), l=0)
         else:
-            return ps.crps_gaussian(self.o, mu=self.f['mu'], sig=self.f['sigma'])
+            return ps.crps_gaussian(self.o, mu=as_float(self.f['mu']), sig=as_float(self.f['sigma']))
     
     def _corr(self):
         return corr(self.f_determ(), self.o, self.avg_axis, self.boot_samples)
diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 1058587..170169f 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -20,6 +20,7 @@ import numpy as np
 
 from distutils import util
 from scipy import stats, special
+from .utils_verify import as_float
 
 
 def _lbeta(x1, x2):
@@ -31,6 +32,8 @@ def crps_gamma(mu, sigma, shift, obs, reduce_sum=True):
     # Based on the following paper:
     # https://doi.org/10.1016/j.advwatres.2021.103907
     
+    mu, sigma, shift = as_float(mu), as_float(sigma), as_float(shift)
+    
     # Calculate distribution parameters
     shape = np.square(mu / sigma)
     scale = (np.square(sigma)) / mu
diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index b9a2add..b43ac1b 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -22,6 +22,7 @@ from scipy import stats
 from distutils import util
 from functools import partial
 from .dist_truncgamma import truncgamma_gen
+from .utils_verify import as_float
 from tqdm.contrib.concurrent import process_map
 
 _LARGE_NUMBER_ = np.inf
@@ -86,6 +87,7 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
     assert mu.shape == sigma.shape
     assert isinstance(move_axis, int)
     
+    mu, sigma = as_float(mu), as_float(sigma)
     arr_shape = list(mu.shape)
     
     # Random samples
@@ -129,6 +131,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     assert shift.shape == unshifted_mu.shape
     assert isinstance(move_axis, int)
     
+    unshifted_mu, sigma, shift = as_float(unshifted_mu), as_float(sigma), as_float(shift)
     arr_shape = list(unshifted_mu.shape)
     
     # Calculate distribution parameters
@@ -175,6 +178,7 @@ def cdf_gaussian(mu, sigma, below, truncated=False):
         
     assert isinstance(truncated, bool)
     
+    mu, sigma = as_float(mu), as_float(sigma)
     cores = int(os.environ['pyanen_tqdm_workers'])        
     
     if isinstance(below, np.ndarray):
@@ -214,6 +218,8 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     cores = int(os.environ['pyanen_tqdm_workers'])
     
+    unshifted_mu, sigma, shift = as_float(unshifted_mu), as_float(sigma), as_float(shift)
+    
     # Calculate distribution parameters
     shape = (unshifted_mu / sigma) ** 2
     scale = sigma ** 2 / unshifted_mu
@@ -261,6 +267,8 @@ def cdf_gamma_hurdle(pop, mu, sigma, below):
     # [1-pop] + pop*CDFgamma(y,shape,scale).   given below>0
     #
     
+    mu, sigma = as_float(mu), as_float(sigma)
+    
     # Calculate distribution parameters
     shape = (mu / sigma) ** 2
     scale = sigma ** 2 / mu
-- 
2.43.0

