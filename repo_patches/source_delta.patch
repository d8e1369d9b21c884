From 1d464ef55adb4266aaa6cd741510128cdd287b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 01/13] fix: LivePoint scaling used a C single-precision float
 for the scalar

'float other' in a cdef class method is a C float, so multiplying or dividing a
live point rounded the factor to 24 bits (p*0.1 gave 0.10000000149) and
overflowed to inf for factors above 3.4e38.
---
 cpnest/parameter.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index 1bfa767..cd42197 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -93,27 +93,27 @@ cdef class LivePoint:
             self.values[i]-=other.values[i]
         return self
 
-    def __mul__(LivePoint self, float other):
+    def __mul__(LivePoint self, double other):
         cdef LivePoint result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=other*self.values[i]
         return result
 
-    def __imul__(LivePoint self, float other):
+    def __imul__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]*=other
         return self
 
-    def __truediv__(LivePoint self, float other):
+    def __truediv__(LivePoint self, double other):
         cdef LivePoint result = LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]/other
         return result
 
-    def __itruediv__(LivePoint self, float other):
+    def __itruediv__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]/=other
-- 
2.43.0


From f87d10cdf7bbd92cc58887a19e788196d3a0d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 02/13] fix: Model.to_normalised used an undefined name

It read value.values where the argument is called point, so every call raised
NameError.
---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..bf91f1c 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 8d8577dffbbdd30cc6be258351319d6d9e2ae9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 03/13] fix: draw_N_posterior assumed normalised weights

The weights returned by compute_weights sum to one only approximately (the
evidence is a trapezoidal sum). When they sum to less than one a uniform
above the total indexed past the end of the data; when they sum to more, the
last samples could never be drawn. Normalise the cumulative sums.
---
 cpnest/nest2pos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..cdade59 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -120,6 +120,8 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
+    # the weights from compute_weights do not sum to one exactly
+    log_cumsums-=log_cumsums[-1]
 
     us=np.log(uniform(size=N))
     idxs=np.digitize(us, log_cumsums)
-- 
2.43.0


From bf78d6d4e70683214e8449ac4e7238dec55ec1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 04/13] fix: draw_N_posterior_many failed for runs with
 different shares

vstack needs equally long inputs, so combining runs of different evidence
raised ValueError; a run with no share contributed a list without dtype.
---
 cpnest/nest2pos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index cdade59..df06c73 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -115,7 +115,7 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     Draw N samples from the input data, weighted by log_wt.
     For large N there may be repeated samples
     """
-    if(N==0): return []
+    if(N==0): return data[:0]
     log_cumsums=np.zeros(log_wts.shape[0]+1)
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
@@ -141,7 +141,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate(posts)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 534cb0be55e0e8f7de9e9f6c798b45e9fa9ae1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 05/13] fix: resample_mcmc_chain(burnin=True) sliced with a
 float index

chain.shape[0]/2-1 is a float, so asking for burn-in raised TypeError. Discard
the first half of the chain, as documented.
---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index df06c73..92729e1 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -149,7 +149,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
     each one of them against the Metropolis-Hastings rule
     """
     LOGGER.critical('Number of input samples: {0!s}'.format(chain.shape[0]))
-    if burnin: chain = chain[chain.shape[0]/2-1:]
+    if burnin: chain = chain[chain.shape[0]//2:]
     # thin according to the autocorrelation length
     ACL = []
     for n in chain.dtype.names:
-- 
2.43.0


From 7648132d91b4de706ec37cb4421527ce4e548e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 06/13] fix: populating the live points deadlocked on
 zero-likelihood points

When a worker returned a point with logL or logP of -inf, reset() went on to
read the next worker's pipe without asking for a replacement, and ended up
waiting for replies nobody owed it. Ask the same worker again and read its
answer.
---
 cpnest/NestedSampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..c495083 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,16 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
                             self.logger.warn("Likelihood function returned NaN for params "+str(params))
                             self.logger.warn("You may want to check your likelihood function")
                         if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
                             i+=1
                             pbar.update()
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             break
+                        # ask the same worker for another point
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From 73492cc48c858d42a4d1865696ce6ab4d2888d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 07/13] fix: samplers of different kinds shared checkpoint
 files

The Hamiltonian and slice samplers numbered their resume files from 0 again,
so with a mix of samplers they overwrote each other's checkpoints, and a
resumed run loaded the wrong kind of sampler.
---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..5fcc20e 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From a6ebb198f57d948ddf88b7466a2633c8f0193537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 08/13] fix: CPNest.checkpoint replaced the shared flag instead
 of setting it

The workers read manager.checkpoint_flag.value in shared memory; rebinding the
attribute in the parent never reached them.
---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 5fcc20e..0d69dfe 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -548,7 +548,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value=1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 60d4ddc7cf6fe6aa0cef997093c831285ac70756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 09/13] fix: a crash while checkpointing destroyed the previous
 checkpoint

The resume files were truncated before the new state was pickled. Write to a
temporary file and rename it over the old checkpoint.
---
 cpnest/NestedSampling.py | 4 +++-
 cpnest/sampler.py        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index c495083..921a7b9 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -496,8 +496,10 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
+        tmp_file = self.resume_file + ".tmp"
+        with open(tmp_file, "wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..f2dc507 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -273,8 +273,10 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
+        tmp_file = self.resume_file + ".tmp"
+        with open(tmp_file, "wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
-- 
2.43.0


From 93dc616f63eb4e572a28a34b540a5d96f4ec71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 10/13] fix: concurrent samplers lost updates of the shared
 maximum likelihood

The read and the write of logLmax.value were separate, so two workers could
overwrite each other's maximum; the Hamiltonian sampler wrote back a maximum
read when it started. Update it under the value's lock.
---
 cpnest/sampler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index f2dc507..240f10c 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -335,7 +335,8 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        with self.logLmax.get_lock():
+                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -390,7 +391,8 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
+            with self.logLmax.get_lock():
+                self.logLmax.value = max(self.logLmax.value, global_lmax)
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -534,7 +536,8 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            with self.logLmax.get_lock():
+                                self.logLmax.value = max(self.logLmax.value, newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
-- 
2.43.0


From 04b505a0676a01b46fc69452bc4168d03e67d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 11/13] fix: Hamiltonian samplers could not be checkpointed

The proposal holds a generator (the counter of saved trajectories), which
cannot be pickled, so every checkpoint of a Hamiltonian sampler raised
TypeError. Leave it out and make a new one when loading.
---
 cpnest/proposal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..608dbdb 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -402,6 +402,16 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.c              = self.counter()
         self.DEBUG          = 0
 
+    def __getstate__(self):
+        # generators cannot be pickled
+        state = self.__dict__.copy()
+        del state['c']
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__ = state
+        self.c        = self.counter()
+
     def set_ensemble(self, ensemble):
         """
         override the set ensemble method
-- 
2.43.0


From 416b0b866601787600634526b0aee80913535312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 12/13] fix: an interrupt inside an iteration checkpointed a
 half-updated state

The signal handler raises CheckPoint anywhere in consume_sample, and the state
was pickled as it stood: dead points already recorded but still alive, evidence
incremented but no replacement inserted. Go back to the state at the start of
the iteration before writing the checkpoint.
---
 cpnest/NestedSampling.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 921a7b9..0da4424 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -449,8 +449,10 @@ class NestedSampler(object):
             self.logger.warning("Nested Sampling process {0!s}, exiting".format(os.getpid()))
             return 0
 
+        boundary = self.iteration_boundary()
         try:
             while self.condition > self.tolerance:
+                boundary = self.iteration_boundary()
                 self.consume_sample()
                 if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                     self.checkpoint()
@@ -460,6 +462,8 @@ class NestedSampler(object):
                     self.check_insertion_indices()
 
         except CheckPoint:
+            # the interrupt may have arrived half way through an iteration
+            self.restore_boundary(boundary)
             self.checkpoint()
             # Run each pipe to get it to checkpoint
             for c in self.manager.consumer_pipes:
@@ -491,6 +495,33 @@ class NestedSampler(object):
           self.state.plot(os.path.join(self.output_folder,'logXlogL.png'))
         return self.state.logZ, self.nested_samples
 
+    def iteration_boundary(self):
+        """
+        Returns what is needed to come back to the current state
+        from anywhere in the next iteration
+        """
+        attributes = self.__dict__.copy()
+        attributes['params'] = OrderedLivePoints(self.params)
+        integral = self.state.__dict__.copy()
+        # these only grow, remember their length
+        history = [(l, len(l)) for l in (self.nested_samples,
+                                         self.insertion_indices,
+                                         self.rolling_p,
+                                         self.state.logLs,
+                                         self.state.log_vols)]
+        return attributes, integral, history, self.logLmin.value
+
+    def restore_boundary(self, boundary):
+        """
+        Undo a partial iteration
+        """
+        attributes, integral, history, logLmin = boundary
+        self.__dict__.update(attributes)
+        self.state.__dict__.update(integral)
+        for l, n in history:
+            del l[n:]
+        self.logLmin.value = logLmin
+
     def checkpoint(self):
         """
         Checkpoint its internal state
-- 
2.43.0


From 43512dbbd7f3280418104d5e979b2393ad2cc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 13/13] fix: a Hamiltonian sampler never stopped if the run
 ended between two looks at the threshold

---
 cpnest/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 240f10c..c9a3b67 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -247,7 +247,11 @@ class Sampler(object):
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                logLmin = self.logLmin.value
+                # the run may have ended since the threshold was checked
+                if logLmin == np.inf:
+                    break
+                _, _ = next(self.yield_sample(logLmin))
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0

