From 144059c2c48ec06ee565b288d039bcd83582e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 01/33] fix: give every MCMC ensemble a random stream of its
 own

---
 radvel/mcmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..802a678 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -333,7 +333,12 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 statevars.initial_positions.append(p0)
             else:
                 statevars.initial_positions.append(statevars.prechains[e][-1, :, :])
-            statevars.samplers.append(emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, post.logprob_array))
+            sampler = emcee.EnsembleSampler(statevars.nwalkers, statevars.ndim, post.logprob_array)
+            # emcee starts every sampler from a copy of numpy's global generator: without a seed of its own each
+            # ensemble would use the same random numbers as the others, a few steps apart
+            sampler.random_state = np.random.RandomState(
+                np.random.randint(2**32, size=8, dtype=np.uint64).astype(np.uint32)).get_state()
+            statevars.samplers.append(sampler)
 
         if proceed:
             for i, sampler in enumerate(statevars.samplers):
-- 
2.43.0


From ec61182f953431a29a9a9baf4360cf0258f26139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 02/33] fix: replace MCMC checkpoints as a whole, so that a
 crash, full disk or earlier run with other settings cannot spoil them

---
 radvel/mcmc.py  | 69 ++++++++++++++++++++++---------------------------
 radvel/utils.py | 26 +++++++++++++++++++
 2 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 802a678..0b246c4 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -173,6 +173,31 @@ def convergence_check(minAfactor, maxArchange, maxGR, minTz, minsteps, minpercen
             _status_message_CLI(statevars)
 
 
+def _save_checkpoint(savename):
+    """Save the state of the current run. The file is replaced as a whole, so that it always holds one complete
+    checkpoint of one run.
+
+    Args:
+        savename (string): location of h5py file
+    """
+    with utils.replacing(savename) as tmpname:
+        with h5py.File(tmpname, 'w') as h5f:
+            for i, sampler in enumerate(statevars.samplers):
+                h5f.create_dataset(str(i) + '_chain', data=sampler.get_chain())
+                h5f.create_dataset(str(i) + '_log_prob', data=sampler.get_log_prob())
+                h5f.create_dataset(str(i) + '_accepted', data=sampler.backend.accepted)
+            h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
+                                             statevars.maxgr])
+            h5f.create_dataset('autosample', data=statevars.autosamples)
+            h5f.create_dataset('automin', data=statevars.automin)
+            h5f.create_dataset('automean', data=statevars.automean)
+            h5f.create_dataset('automax', data=statevars.automax)
+            if statevars.burn_complete==True:
+                h5f.create_dataset('burned', data=[statevars.nburn])
+            else:
+                h5f.create_dataset('burned', data=[0])
+
+
 def _domcmc(input_tuple):
     """Function to be run in parallel on different CPUs
     Input is a tuple: first element is an emcee sampler object, second is an array of
@@ -228,14 +253,16 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         if save and savename is None:
             raise ValueError('save set to true but no savename provided')
 
-        if save:
-            h5f = h5py.File(savename, 'a')
+        if save and not os.path.isdir(os.path.dirname(os.path.abspath(savename))):
+            raise FileNotFoundError('directory of savename does not exist: {}'.format(savename))
 
         if proceed:
             if proceedname is None:
                 raise ValueError('proceed set to true but no proceedname provided')
             else:
-                h5p = h5py.File(proceedname, 'r')
+                # read everything now: proceedname may be the file that this run saves to
+                with h5py.File(proceedname, 'r') as h5f:
+                    h5p = {key: h5f[key][...] for key in h5f.keys()}
                 msg = 'Loading chains and run information from previous MCMC'
                 print(msg)
             statevars.prechains = []
@@ -399,41 +426,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                               minsteps=minsteps, minpercent=minpercent, headless=headless)
 
             if save:
-                for i, sampler in enumerate(statevars.samplers):
-                    str_chain = str(i) + '_chain'
-                    str_log_prob = str(i) + '_log_prob'
-                    str_accepted = str(i) + '_accepted'
-                    if str_chain in h5f.keys():
-                        del h5f[str_chain]
-                    if str_log_prob in h5f.keys():
-                        del h5f[str_log_prob]
-                    if str_accepted in h5f.keys():
-                        del h5f[str_accepted]
-                    if 'crit' in h5f.keys():
-                        del h5f['crit']
-                    if 'autosample' in h5f.keys():
-                        del h5f['autosample']
-                    if 'automin' in h5f.keys():
-                        del h5f['automin']
-                    if 'automean' in h5f.keys():
-                        del h5f['automean']
-                    if 'automax' in h5f.keys():
-                        del h5f['automax']
-                    if 'burned' in h5f.keys():
-                        del h5f['burned']
-                    h5f.create_dataset(str_chain, data=sampler.get_chain())
-                    h5f.create_dataset(str_log_prob, data=sampler.get_log_prob())
-                    h5f.create_dataset(str_accepted, data=sampler.backend.accepted)
-                    h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
-                                                     statevars.maxgr])
-                    h5f.create_dataset('autosample', data=statevars.autosamples)
-                    h5f.create_dataset('automin', data=statevars.automin)
-                    h5f.create_dataset('automean', data=statevars.automean)
-                    h5f.create_dataset('automax', data=statevars.automax)
-                    if statevars.burn_complete==True:
-                        h5f.create_dataset('burned', data=[statevars.nburn])
-                    else:
-                        h5f.create_dataset('burned', data=[0])
+                _save_checkpoint(savename)
 
             # Burn-in complete after maximum G-R statistic first reaches burnGR or minAfactor reaches burnAfactor
             # reset samplers
diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..dfce62c 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import sys
 from decimal import Decimal
 from contextlib import contextmanager
@@ -47,6 +48,31 @@ def load_module_from_file(module_name, module_path):
     return module
 
 
+@contextmanager
+def replacing(filename):
+    """Replace a file as a whole or not at all
+
+    Context manager that yields the name of a temporary file next to ``filename``. The temporary file takes the
+    place of ``filename`` once the block has completed, and is removed if the block fails.
+
+    Args:
+        filename (str): name of the file to create or replace
+    """
+    filename = os.path.realpath(filename)
+    tmpname = '{}.{}.tmp'.format(filename, os.getpid())
+    try:
+        yield tmpname
+        if os.path.exists(filename):
+            shutil.copymode(filename, tmpname)
+        os.replace(tmpname, filename)
+    except BaseException:
+        try:
+            os.remove(tmpname)
+        except OSError:
+            pass
+        raise
+
+
 def initialize_posterior(config_file, decorr=False):
     """Initialize Posterior object
 
-- 
2.43.0


From 342e8ae502f8c2573613118b84c00ff1ade9113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 03/33] fix: MCMC runs no longer depend on the wall clock
 advancing between checks

---
 radvel/mcmc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 0b246c4..8ed6026 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -132,7 +132,11 @@ def convergence_check(minAfactor, maxArchange, maxGR, minTz, minsteps, minpercen
     statevars.ar /= statevars.ensembles
 
     statevars.pcomplete = statevars.ncomplete/float(statevars.totsteps) * 100
-    statevars.rate = (statevars.checkinterval*statevars.nwalkers*statevars.ensembles) / statevars.interval
+    # the wall clock may not have advanced, or have been set back
+    if statevars.interval > 0:
+        statevars.rate = (statevars.checkinterval*statevars.nwalkers*statevars.ensembles) / statevars.interval
+    else:
+        statevars.rate = np.nan
 
     if statevars.ensembles < 3:
         # if less than 3 ensembles then GR between ensembles does
-- 
2.43.0


From 4c80a9edcb5d274c0103686c607409fee713bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 04/33] fix: wrap angles of a copy of the samples, so that
 parameter tables with a free w can be made

---
 radvel/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index dfce62c..5d54d7f 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -482,10 +482,8 @@ def geterr(vec, angular=False):
         tuple: 50, 15.9 and 84.1 percentiles
     """
 
-    try:
-        vec = vec.values
-    except AttributeError:
-        pass
+    # work on a copy: wrapping the angles must not change the caller's samples, which may also be read-only
+    vec = np.array(vec)
 
     if angular:
         val, edges = np.histogram(vec, bins=50)
-- 
2.43.0


From 21efe339cf166d304d65a78569437492b1ce132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 05/33] fix: an MCMC run that fails or is interrupted ends its
 workers, restores the terminal and raises no other error

---
 radvel/mcmc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 8ed6026..f07698f 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -418,10 +418,10 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                     result = _domcmc(mcmc_input_array[i])
                     statevars.samplers.append(result)
             else:
-                pool = mp.Pool(statevars.ensembles)
-                statevars.samplers = pool.map(_domcmc, mcmc_input_array)
-                pool.close()  # terminates worker processes once all work is done
-                pool.join()   # waits for all processes to finish before proceeding
+                with mp.Pool(statevars.ensembles) as pool:   # terminates worker processes on errors and interrupts
+                    statevars.samplers = pool.map(_domcmc, mcmc_input_array)
+                    pool.close()  # terminates worker processes once all work is done
+                    pool.join()   # waits for all processes to finish before proceeding
 
             t2 = time.time()
             statevars.interval = t2 - t1
@@ -488,7 +488,11 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         return df
 
     except KeyboardInterrupt:
-        curses.endwin()
+        _closescr()
+
+    except BaseException:
+        _closescr()
+        raise
 
 
 def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
-- 
2.43.0


From 876e38c46cc3d27c5c3087bedd94a2a23ab10d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 06/33] fix: replace the status file and every artefact as a
 whole, so that a crash or full disk cannot damage them

---
 radvel/driver.py    | 31 ++++++++++++++++++++-----------
 radvel/posterior.py |  5 +++--
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..d00b11d 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -213,14 +213,16 @@ def mcmc(args):
 
     print("Saving output files...")
     saveto = os.path.join(args.outputdir, conf_base+'_post_summary.csv')
-    post_summary.to_csv(saveto, sep=',')
+    with radvel.utils.replacing(saveto) as tmpname:
+        post_summary.to_csv(tmpname, sep=',')
 
     postfile = os.path.join(args.outputdir,
                             '{}_post_obj.pkl'.format(conf_base))
     post.writeto(postfile)
 
     csvfn = os.path.join(args.outputdir, conf_base+'_chains.csv.bz2')
-    chains.to_csv(csvfn, compression='bz2')
+    with radvel.utils.replacing(csvfn) as tmpname:
+        chains.to_csv(tmpname, compression='bz2')
 
     auto = pd.DataFrame()
     auto['autosamples'] = statevars.autosamples
@@ -229,7 +231,8 @@ def mcmc(args):
     auto['automax'] = statevars.automax
     auto['factor'] = statevars.factor
     autocorr = os.path.join(args.outputdir, conf_base+'_autocorr.csv')
-    auto.to_csv(autocorr, sep=',')
+    with radvel.utils.replacing(autocorr) as tmpname:
+        auto.to_csv(tmpname, sep=',')
 
     savestate = {'run': True,
                  'postfile': os.path.relpath(postfile),
@@ -376,14 +379,16 @@ def nested_sampling(args):
 
     print("Saving output files...")
     saveto = os.path.join(args.outputdir, conf_base+'_post_summary_ns.csv')
-    post_summary.to_csv(saveto, sep=',')
+    with radvel.utils.replacing(saveto) as tmpname:
+        post_summary.to_csv(tmpname, sep=',')
 
     postfile = os.path.join(args.outputdir,
                             '{}_post_obj_ns.pkl'.format(conf_base))
     post.writeto(postfile)
 
     csvfn = os.path.join(args.outputdir, conf_base+'_chains_ns.csv.bz2')
-    chains.to_csv(csvfn, compression='bz2')
+    with radvel.utils.replacing(csvfn) as tmpname:
+        chains.to_csv(tmpname, compression='bz2')
 
     savestate = {'run': True,
                  'postfile': os.path.relpath(postfile),
@@ -530,8 +535,9 @@ def tables(args):
         saveto = os.path.join(
             args.outputdir, '{}_{}.tex'.format(conf_base, tabtype)
         )
-        with open(saveto, 'w+') as f:
-            f.write(tex)
+        with radvel.utils.replacing(saveto) as tmpname:
+            with open(tmpname, 'w') as f:
+                f.write(tex)
 
         savestate = {'{}_tex'.format(tabtype): os.path.relpath(saveto)}
         save_status(statfile, 'table', savestate)
@@ -668,7 +674,8 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
     # values returned by MCMC chains
     quantiles = chains.quantile([0.159, 0.5, 0.841])
     csvfn = os.path.join(args.outputdir, conf_base+'_derived_quantiles.csv')
-    quantiles.to_csv(csvfn, columns=outcols)
+    with radvel.utils.replacing(csvfn) as tmpname:
+        quantiles.to_csv(tmpname, columns=outcols)
 
     # saved derived paramters to posterior file
     post.derived = quantiles[outcols]
@@ -676,7 +683,8 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
     savestate['quantfile'] = os.path.relpath(csvfn)
 
     csvfn = os.path.join(args.outputdir, conf_base+'_derived.csv.bz2')
-    chains.to_csv(csvfn, columns=outcols, compression='bz2')
+    with radvel.utils.replacing(csvfn) as tmpname:
+        chains.to_csv(tmpname, columns=outcols, compression='bz2')
     savestate['chainfile'] = os.path.relpath(csvfn)
 
     print("Derived parameters:", outcols)
@@ -778,8 +786,9 @@ def save_status(statfile, section, statevars):
     for key, val in statevars.items():
         config.set(section, key, val)
 
-    with open(statfile, 'w') as f:
-        config.write(f)
+    with radvel.utils.replacing(statfile) as tmpname:
+        with open(tmpname, 'w') as f:
+            config.write(f)
 
 
 def load_status(statfile):
diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..ba81e9d 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -199,8 +199,9 @@ class Posterior(Likelihood):
             filename (string): full path to outputfile
         """
 
-        with open(filename, 'wb') as f:
-            pickle.dump(self, f)
+        with radvel.utils.replacing(filename) as tmpname:
+            with open(tmpname, 'wb') as f:
+                pickle.dump(self, f)
 
     def residuals(self):
         """Overwrite inherited residuals method that does not work"""
-- 
2.43.0


From 4bf7dbac23edd4b3e238058336314cc6fa489819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 07/33] fix: nested sampling leaves the option dictionaries of
 its caller alone

---
 radvel/nested_sampling.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..92acfbd 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -41,8 +41,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -137,8 +137,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,7 +207,7 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
@@ -298,8 +298,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From a0d51265436d03dddb1bd24917eda9ee422d56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 08/33] fix: dynesty runs can start in an existing directory,
 and continue without a checkpoint

---
 radvel/nested_sampling.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 92acfbd..2c5c118 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -75,17 +75,11 @@ def _run_dynesty(
             len(post.name_vary_params()),
             **sampler_kwargs,
         )
-        # Dynesty cannot resume when the file does not exist
-        if (
-            proceed
-            and checkpoint_file is not None
-            and not os.path.exists(checkpoint_file)
-        ):
-            run_kwargs["resume"] = False
-
-    if checkpoint_file is not None and not os.path.exists(checkpoint_file):
-        outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        # Dynesty cannot resume when there is nothing to resume from
+        run_kwargs["resume"] = False
+
+    if checkpoint_file is not None:
+        os.makedirs(output_dir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
-- 
2.43.0


From 3a33bc2475fb6c5483246488288c156e8b5f2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 09/33] fix: replace nested-sampling results as a whole, so
 that a crash or full disk cannot damage them

---
 radvel/nested_sampling.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 2c5c118..c6694d0 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -8,6 +8,7 @@ from pandas import DataFrame, read_hdf
 
 
 from radvel.posterior import Posterior
+from radvel.utils import replacing
 
 
 def _run_dynesty(
@@ -417,12 +418,13 @@ def run(
     results["samples"] = df
 
     if output_dir is not None:
-        with h5py.File(results_file, mode="w") as h5f:
-            for key, val in results.items():
-                if key == "sampler" or key == "samples":
-                    continue
-                h5f.create_dataset(key, data=val)
-        results["samples"].to_hdf(results_file, key="samples", mode="a")
+        with replacing(results_file) as tmpname:
+            with h5py.File(tmpname, mode="w") as h5f:
+                for key, val in results.items():
+                    if key == "sampler" or key == "samples":
+                        continue
+                    h5f.create_dataset(key, data=val)
+            results["samples"].to_hdf(tmpname, key="samples", mode="a")
 
     return results
 
-- 
2.43.0


From 3bbb69846ae835ce416ac8348eb6b82057478bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 10/33] fix: MultiNest runs without an output directory use a
 private temporary directory and always remove it

---
 radvel/nested_sampling.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index c6694d0..f4dd8d0 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,5 +1,5 @@
 import os
-import shutil
+import tempfile
 from typing import Optional
 
 import h5py
@@ -204,14 +204,10 @@ def _run_multinest(
 
     run_kwargs = dict(run_kwargs or {})
 
-    # By default, assume we want a temporary output dir
-    tmp = True
-
+    # By default, use a private output dir that is removed however the run ends
     if output_dir is None:
-        output_dir = "tmpdir"
-    else:
-        # if an actual outupt dir was specified, it is not temporary
-        tmp = False
+        with tempfile.TemporaryDirectory() as tmpdir:
+            return _run_multinest(post, output_dir=tmpdir, overwrite=True, run_kwargs=run_kwargs)
 
     if "outputfiles_basename" in run_kwargs:
         raise ValueError(
@@ -225,7 +221,7 @@ def _run_multinest(
         )
     run_kwargs["resume"] = proceed
 
-    os.makedirs(output_dir, exist_ok=tmp or overwrite or proceed)
+    os.makedirs(output_dir, exist_ok=overwrite or proceed)
 
     def loglike(p, ndim, nparams):
         """Log-likelihood for multinest
@@ -258,9 +254,6 @@ def _run_multinest(
     results["lnZ"] = a.get_stats()["global evidence"]
     results["lnZerr"] = a.get_stats()["global evidence error"]
 
-    if tmp:
-        shutil.rmtree(output_dir)
-
     return results
 
 
-- 
2.43.0


From 6ef40bdb64e5c3b7ac7190197ac061766284a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 11/33] fix: report a failed write of nested-sampling results

---
 radvel/nested_sampling.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index f4dd8d0..0d6b13e 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,10 +1,11 @@
+import io
 import os
 import tempfile
 from typing import Optional
 
 import h5py
 import numpy as np
-from pandas import DataFrame, read_hdf
+from pandas import DataFrame, HDFStore, read_hdf
 
 
 from radvel.posterior import Posterior
@@ -411,17 +412,37 @@ def run(
     results["samples"] = df
 
     if output_dir is not None:
+        image = _results_image(results)
         with replacing(results_file) as tmpname:
-            with h5py.File(tmpname, mode="w") as h5f:
-                for key, val in results.items():
-                    if key == "sampler" or key == "samples":
-                        continue
-                    h5f.create_dataset(key, data=val)
-            results["samples"].to_hdf(tmpname, key="samples", mode="a")
+            with open(tmpname, "wb") as f:
+                f.write(image)
 
     return results
 
 
+def _results_image(results: dict) -> bytes:
+    """Contents of the HDF5 results file
+
+    The file is made in memory because PyTables does not report failed writes.
+
+    Args:
+        results: Dictionary with nested sampling results.
+    Returns:
+        Bytes of the file.
+    """
+    buffer = io.BytesIO()
+    with h5py.File(buffer, mode="w") as h5f:
+        for key, val in results.items():
+            if key == "sampler" or key == "samples":
+                continue
+            h5f.create_dataset(key, data=val)
+    with HDFStore(
+        "results.hdf5", mode="a", driver="H5FD_CORE", driver_core_backing_store=0, driver_core_image=buffer.getvalue(),
+    ) as store:
+        store.put("samples", results["samples"])
+        return store.root._v_file.get_file_image()
+
+
 def load_results(results_file: str) -> dict:
     """Load nested sampling results dictionary
 
-- 
2.43.0


From f9ac7edfeb76e07b8c976a1ff6b3f348018dd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:05 +0000
Subject: [PATCH 12/33] fix: commands may create their output directory at the
 same time

---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..18b3c5b 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -237,7 +237,7 @@ descriptive titles without star name [False]'''
         args.outputdir = outdir
 
     if not os.path.isdir(args.outputdir):
-        os.mkdir(args.outputdir)
+        os.makedirs(args.outputdir, exist_ok=True)
 
     args.func(args)
 
-- 
2.43.0


From 6127bfb5a59a7facafe2fef18584a12fa213a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:01 +0000
Subject: [PATCH 13/33] fix: commands running at the same time no longer lose
 one another's records in the status file

---
 radvel/driver.py | 21 +++++++++++----------
 radvel/utils.py  | 26 ++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index d00b11d..b946340 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -775,20 +775,21 @@ def save_status(statfile, section, statevars):
            the specified section
     """
 
-    config = configparser.RawConfigParser()
+    with radvel.utils.locking(statfile):
+        config = configparser.RawConfigParser()
 
-    if os.path.isfile(statfile):
-        config.read(statfile)
+        if os.path.isfile(statfile):
+            config.read(statfile)
 
-    if not config.has_section(section):
-        config.add_section(section)
+        if not config.has_section(section):
+            config.add_section(section)
 
-    for key, val in statevars.items():
-        config.set(section, key, val)
+        for key, val in statevars.items():
+            config.set(section, key, val)
 
-    with radvel.utils.replacing(statfile) as tmpname:
-        with open(tmpname, 'w') as f:
-            config.write(f)
+        with radvel.utils.replacing(statfile) as tmpname:
+            with open(tmpname, 'w') as f:
+                config.write(f)
 
 
 def load_status(statfile):
diff --git a/radvel/utils.py b/radvel/utils.py
index 5d54d7f..9fe7db4 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -1,3 +1,4 @@
+import errno
 import os
 import shutil
 import sys
@@ -73,6 +74,31 @@ def replacing(filename):
         raise
 
 
+@contextmanager
+def locking(filename):
+    """Keep other processes from updating a file
+
+    Context manager that holds an exclusive lock on ``filename`` with ``.lock`` appended. Where there are no file
+    locks it does nothing.
+
+    Args:
+        filename (str): name of the file to be updated
+    """
+    try:
+        import fcntl
+    except ImportError:
+        yield
+        return
+
+    with open(filename + '.lock', 'w') as f:
+        try:
+            fcntl.flock(f, fcntl.LOCK_EX)
+        except OSError as e:
+            if e.errno not in (errno.ENOSYS, errno.ENOLCK, errno.EOPNOTSUPP):
+                raise
+        yield
+
+
 def initialize_posterior(config_file, decorr=False):
     """Initialize Posterior object
 
-- 
2.43.0


From f7dcd7fdd5aa9668bb2f78eaac66830c50fc8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:29 +0000
Subject: [PATCH 14/33] fix: a failed GP factorisation gives a log-likelihood
 of minus infinity with current numpy

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..49e959c 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -508,7 +508,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
-- 
2.43.0


From dad894c8e053a6878880117a6b766ed68073b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:19 +0000
Subject: [PATCH 15/33] fix: a quasi-periodic kernel that is switched off no
 longer reuses the covariance of the previous evaluation

---
 radvel/gp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..07ca587 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,8 +327,8 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
+            K = np.zeros(self.dist_se.shape)
+            self.covmatrix = K
             if isinstance(errors, (int, float)) and errors == 0:
                 return K
             else:
-- 
2.43.0


From 736d0a9c89523e53f09f1e894be48849ad9cd25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 16/33] fix: a GP prediction that fails leaves the kernel ready
 for the next likelihood evaluation

---
 radvel/likelihood.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 49e959c..641d530 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -523,6 +523,13 @@ class GPLikelihood(RVLikelihood):
                     np.array: the numpy array of predictive standard deviations
         """
 
+        try:
+            return self._predict(xpred)
+        finally:
+            # set the default distances back to their regular values
+            self.kernel.compute_distances(self.x, self.x)
+
+    def _predict(self, xpred):
         self.update_kernel_params()
 
         r = np.array([self._resids()]).T
@@ -549,9 +556,6 @@ class GPLikelihood(RVLikelihood):
         var = np.array(np.diag(Kss - np.dot(Ks, B))).flatten()
         stdev = np.sqrt(var)
 
-        # set the default distances back to their regular values
-        self.kernel.compute_distances(self.x, self.x)
-
         return mu, stdev
 
 
-- 
2.43.0


From 28cbc9aa10a8e0f31c54fa55ed1fa14e6e1ed911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 17/33] fix: a LaTeX run that fails leaves the working
 directory, temporary files and the earlier report alone

---
 radvel/report.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..ac58d22 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -138,6 +138,13 @@ class RadvelReport(object):
         texname = os.path.basename(pdfname).split('.')[0] + '.tex'
         current = os.getcwd()
         temp = tempfile.mkdtemp()
+        try:
+            self._compile(temp, current, texname, pdfname, latex_compiler, depfiles)
+        finally:
+            os.chdir(current)
+            shutil.rmtree(temp)
+
+    def _compile(self, temp, current, texname, pdfname, latex_compiler, depfiles):
         for fname in depfiles:
             shutil.copy2(
                 os.path.join(current, fname), os.path.join(temp, fname)
@@ -167,10 +174,15 @@ or pass in the path as an argument
             print(msg)
             return
 
-        shutil.copy(pdfname, current)
+        # a compiler that was killed or ran out of disk space leaves part of a PDF
+        with open(pdfname, 'rb') as f:
+            complete = b'%%EOF' in f.read()[-1024:]
+        if not complete:
+            print("WARNING: REPORT: {} did not complete {}".format(latex_compiler, pdfname))
+            return
 
-        shutil.rmtree(temp)
-        os.chdir(current)
+        with radvel.utils.replacing(os.path.join(current, os.path.basename(pdfname))) as tmpname:
+            shutil.copy(pdfname, tmpname)
 
 
 class TexTable(RadvelReport):
-- 
2.43.0


From 7901b7396a37d680e48da2d30aeb3ca88020021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 18/33] fix: model comparisons without a list of their own no
 longer include the results of earlier ones

---
 radvel/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..48fd76e 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -46,7 +46,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -70,6 +70,8 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
 
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
+    if mc_list is None:
+        mc_list = []
     assert isinstance(mc_list, list), \
         "mc_list must be either an empty list or a list of model comparison dictionaries"
     assert isinstance(params, list), \
-- 
2.43.0


From a3fcb83148727bbd8df364254d1fbadc0f827e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 19/33] fix: an interrupted mcmc command ends without an
 AttributeError

---
 radvel/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index b946340..0d25a74 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -204,6 +204,9 @@ def mcmc(args):
                          minpercent=args.minpercent, thin=args.thin, serial=args.serial, save=args.save,
                          savename=backend_loc, proceed=args.proceed, proceedname=backend_loc, headless=args.headless)
 
+    if chains is None:
+        sys.exit("MCMC was interrupted before it finished, no results are saved")
+
     mintz = statevars.mintz
     maxgr = statevars.maxgr
     minafactor = statevars.minafactor
-- 
2.43.0


From d1cc9dfb69d71635c4a4084e0f5a265969a4196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 20/33] fix: setup files are always compiled from their current
 contents

---
 radvel/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 9fe7db4..d5716ae 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -37,7 +37,9 @@ def load_module_from_file(module_name, module_path):
         import importlib.util
         spec = importlib.util.spec_from_file_location(module_name, module_path)
         module = importlib.util.module_from_spec(spec)
-        spec.loader.exec_module(module)
+        # compile the source itself: cached bytecode may be that of an earlier edit with the same size and time stamp
+        source = spec.loader.get_data(module_path)
+        exec(spec.loader.source_to_code(source, module_path), module.__dict__)
     elif sys.version_info[0] == 3 and sys.version_info[1] < 5:
         import importlib.machinery
         loader = importlib.machinery.SourceFileLoader(module_name, module_path)
-- 
2.43.0


From d8735ecece8b8987a0aeb369969fec9b9f0e7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:41 +0000
Subject: [PATCH 21/33] fix: any failure to load the compiled Kepler solver
 falls back to the NumPy one

---
 radvel/kepler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index b7367f5..a703438 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -9,7 +9,9 @@ def _check_cext():
     try:
         from . import _kepler
         return True
-    except ImportError:
+    except Exception:
+        # besides ImportError, an extension built against another version of
+        # NumPy or Python raises ValueError, RuntimeError or SystemError
         warnings.warn("Unable to import the C solver", category=UserWarning, stacklevel=2)
         return False
 
-- 
2.43.0


From ddcabc7f7783fdd93d37e8923777cf6d24f22261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:41 +0000
Subject: [PATCH 22/33] fix: the NumPy Kepler solver accepts an empty array of
 times, as the compiled one does

---
 radvel/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index a703438..2b64d0b 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -106,7 +106,7 @@ def kepler(Marr, eccarr):
         convd = np.abs(fiarr) > conv  # test for convergence
         nd = np.sum(convd)
 
-    if Earr.size > 1:
+    if Earr.size != 1:
         return Earr
     else:
         return Earr[0]
-- 
2.43.0


From 7a3ea82d3de863b8bc60d569836270638b07d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:41 +0000
Subject: [PATCH 23/33] fix: the compiled Kepler solver accepts integer times,
 as the NumPy one does

---
 radvel/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index 2b64d0b..4e93412 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -52,7 +52,7 @@ def rv_drive(t, orbel, use_c_kepler_solver=cext):
     if use_c_kepler_solver and _check_cext():
         try:
             from . import _kepler
-            rv = _kepler.rv_drive_array(t, per, tp, e, om, k)
+            rv = _kepler.rv_drive_array(np.asarray(t, dtype=float), per, tp, e, om, k)
         except (ImportError, NameError):
             # Fall back to pure NumPy implementation when C extension is unavailable
             nu = radvel.orbit.true_anomaly(t, tp, per, e)
-- 
2.43.0


From a757bfe01686423b1c09e148c146884e44e9d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 24/33] fix: a fit leaves the posterior at the best point
 evaluated, not at the last one

---
 radvel/fitting.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 48fd76e..579047c 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -31,11 +31,22 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     if verbose:
         print("Initial loglikelihood = %f" % post.logprob())
         print("Performing maximum a posteriori fit...")
+    # The optimizer leaves the posterior at whichever point it evaluated last,
+    # so keep track of the best one
+    best = [np.array(post.get_vary_params()), np.inf]
+
+    def neglogprob(param_values_array):
+        value = post.neglogprob_array(param_values_array)
+        if value < best[1]:
+            best[:] = np.array(param_values_array), value
+        return value
+
     with warnings.catch_warnings():
         warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
         _ = scipy.optimize.minimize(
-            post.neglogprob_array, post.get_vary_params(), method=method,
+            neglogprob, post.get_vary_params(), method=method,
             options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+    post.neglogprob_array(best[0])
     post.vector.vector_to_dict()
 
     if verbose:
-- 
2.43.0


From 66f2186969b5cfdc5281ccff8baa44942d57e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:52 +0000
Subject: [PATCH 25/33] fix: a failed write of an MCMC checkpoint was not
 always reported and could replace the file by a damaged one

---
 radvel/mcmc.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index f07698f..60101d1 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -1,3 +1,4 @@
+import io
 import time
 import curses
 import sys
@@ -184,22 +185,27 @@ def _save_checkpoint(savename):
     Args:
         savename (string): location of h5py file
     """
+    # made in memory because libhdf5 does not report all failed writes
+    image = io.BytesIO()
+    with h5py.File(image, 'w') as h5f:
+        for i, sampler in enumerate(statevars.samplers):
+            h5f.create_dataset(str(i) + '_chain', data=sampler.get_chain())
+            h5f.create_dataset(str(i) + '_log_prob', data=sampler.get_log_prob())
+            h5f.create_dataset(str(i) + '_accepted', data=sampler.backend.accepted)
+        h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
+                                         statevars.maxgr])
+        h5f.create_dataset('autosample', data=statevars.autosamples)
+        h5f.create_dataset('automin', data=statevars.automin)
+        h5f.create_dataset('automean', data=statevars.automean)
+        h5f.create_dataset('automax', data=statevars.automax)
+        if statevars.burn_complete==True:
+            h5f.create_dataset('burned', data=[statevars.nburn])
+        else:
+            h5f.create_dataset('burned', data=[0])
+
     with utils.replacing(savename) as tmpname:
-        with h5py.File(tmpname, 'w') as h5f:
-            for i, sampler in enumerate(statevars.samplers):
-                h5f.create_dataset(str(i) + '_chain', data=sampler.get_chain())
-                h5f.create_dataset(str(i) + '_log_prob', data=sampler.get_log_prob())
-                h5f.create_dataset(str(i) + '_accepted', data=sampler.backend.accepted)
-            h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
-                                             statevars.maxgr])
-            h5f.create_dataset('autosample', data=statevars.autosamples)
-            h5f.create_dataset('automin', data=statevars.automin)
-            h5f.create_dataset('automean', data=statevars.automean)
-            h5f.create_dataset('automax', data=statevars.automax)
-            if statevars.burn_complete==True:
-                h5f.create_dataset('burned', data=[statevars.nburn])
-            else:
-                h5f.create_dataset('burned', data=[0])
+        with open(tmpname, 'wb') as f:
+            f.write(image.getbuffer())
 
 
 def _domcmc(input_tuple):
-- 
2.43.0


From 200cafd345d2f67ddf56aae3aa44039dff0f3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:30 +0000
Subject: [PATCH 26/33] fix: a figure was left truncated when making it was
 interrupted or the disk was full

---
 radvel/plot/__init__.py    | 21 +++++++++++++++++++++
 radvel/plot/mcmc_plots.py  |  9 +++++----
 radvel/plot/orbit_plots.py |  4 ++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index c24e887..7bd845e 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 import numpy as np
 import matplotlib
 # matplotlib.use('agg')
@@ -6,6 +8,8 @@ from matplotlib.cm import nipy_spectral
 from matplotlib import rcParams
 from matplotlib.offsetbox import AnchoredText
 
+from radvel.utils import replacing
+
 latex = {
     'ms': r'm s$^{\mathregular{-1}}$',
     'BJDTDB': r'BJD$_{\mathregular{TDB}}$'
@@ -177,3 +181,20 @@ def labelfig(letter):
         frameon=False
     )
 
+
+def savefig(filename, **kwargs):
+    """
+    Save the current figure. An existing file is replaced as a whole.
+
+    Args:
+        filename (str): name of the file to create or replace, its
+            extension determines the format
+        kwargs: passed on to `matplotlib.pyplot.savefig`
+    """
+    extension = os.path.splitext(filename)[1]
+    if not extension:
+        extension = '.' + rcParams['savefig.format']
+        filename = str(filename) + extension
+
+    with replacing(filename) as tmpname:
+        pl.savefig(tmpname, format=extension[1:], **kwargs)
diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..21e87d5 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -5,6 +5,7 @@ from matplotlib import pyplot as pl
 from matplotlib import rcParams
 
 from radvel import plot
+from radvel.utils import replacing
 
 """
 Module for plotting results of MCMC analysis, including:
@@ -43,7 +44,7 @@ class TrendPlot(object):
         """
         Make and save the trend plot as PDF
         """
-        with PdfPages(self.outfile) as pdf:
+        with replacing(self.outfile) as tmpname, PdfPages(tmpname) as pdf:
             for param, tex in zip(self.labels, self.texlabels):
                 flatchain = self.chains[param].values
                 wchain = flatchain.reshape((self.nwalkers, self.nensembles, -1))
@@ -113,7 +114,7 @@ class AutoPlot(object):
         fig.tight_layout()
 
         if self.saveplot is not None:
-            fig.savefig(self.saveplot, dpi=150)
+            plot.savefig(self.saveplot, dpi=150)
             print("Auto plot saved to %s" % self.saveplot)
         else:
             fig.show()
@@ -155,7 +156,7 @@ class CornerPlot(object):
         )
     
         if self.saveplot is not None:
-            pl.savefig(self.saveplot, dpi=150)
+            plot.savefig(self.saveplot, dpi=150)
             print("Corner plot saved to %s" % self.saveplot)
         else:
             pl.show()
@@ -246,7 +247,7 @@ class DerivedPlot(object):
         )
         
         if self.saveplot is not None:
-            pl.savefig(self.saveplot, dpi=150)
+            plot.savefig(self.saveplot, dpi=150)
             print("Derived plot saved to %s" % self.saveplot)
         else:
             pl.show()
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..cc715ae 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -515,7 +515,7 @@ class MultipanelPlot(object):
             )
             fig.tight_layout()
         if self.saveplot is not None:
-            pl.savefig(self.saveplot, dpi=150)
+            plot.savefig(self.saveplot, dpi=150)
             print("RV multi-panel plot saved to %s" % self.saveplot)
 
         return fig, self.ax_list
@@ -817,7 +817,7 @@ class GPMultipanelPlot(MultipanelPlot):
                     pltletter += 1
 
             if self.saveplot is not None:
-                pl.savefig(self.saveplot, dpi=150)
+                plot.savefig(self.saveplot, dpi=150)
                 print("RV multi-panel plot saved to %s" % self.saveplot)
 
             return fig, self.ax_list
-- 
2.43.0


From 76d84bb407271bd3bfa2391979cf653c23fe4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:49 +0000
Subject: [PATCH 27/33] fix: the trend plot failed after MCMC with a thinning
 that does not divide the number of steps

---
 radvel/mcmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 60101d1..c34f9c2 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -487,7 +487,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             columns=post.name_vary_params())
         preshaped_ln = np.hstack(statevars.lnprob)
         df['lnprobability'] = preshaped_ln.reshape(preshaped_chain.shape[1]*preshaped_chain.shape[2])
-        df = df.iloc[::thin]
+        # the same steps of every walker, so that the walkers can be told apart
+        nsteps = preshaped_chain.shape[2] // len(statevars.chains)
+        df = df[np.arange(len(df)) % nsteps % thin == 0]
 
         statevars.factor = [minAfactor] * len(statevars.autosamples)
 
-- 
2.43.0


From 23a67767d73d9363a6adf16fcb6e4014b4dcc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:17 +0000
Subject: [PATCH 28/33] fix: the table of input velocities shifted the
 velocities of every instrument but the first

---
 radvel/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 641d530..fdeebd5 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -258,7 +258,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 640026118e70e51bdba4882791aa65b034aa9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:12 +0000
Subject: [PATCH 29/33] fix: the parameter table listed the orbital parameters
 in place of the MCMC step parameters

---
 radvel/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/report.py b/radvel/report.py
index ac58d22..4606d44 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -199,7 +199,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
-- 
2.43.0


From 9f3e738228cc4a846e9b4eb35dd25594669e5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:52 +0000
Subject: [PATCH 30/33] fix: the derived table was empty when made in one
 command after the model comparison table

---
 radvel/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0d25a74..380841f 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -520,7 +520,7 @@ def tables(args):
 
             compstats = eval(status.get('ic_compare', 'ic'))
             report = radvel.report.RadvelReport(
-                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats
+                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats, derived=derived
             )
             tabletex = radvel.report.TexTable(report)
             tex = tabletex.tab_comparison()
-- 
2.43.0


From 5d47802835b8d7cb3faacb09d1695946b5c1e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 31/33] fix: the model comparison without GP left its
 hyperparameters free and set them to zero

---
 radvel/fitting.py    | 9 +++++++--
 radvel/likelihood.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/radvel/fitting.py b/radvel/fitting.py
index 579047c..4723d1e 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -198,14 +198,19 @@ def model_comp(post, params=[], mc_list=None, verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = False
             if not allfixed:
+                # the model without GP has no hyperparameters for a prior to constrain
+                ipost.priors = [prior for prior in ipost.priors
+                                if getattr(prior, 'param', None) not in gpparamlist]
+                ipost.list_vary_params()
+                ipost.likelihood.list_vary_params()
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
             post.likelihood.list_vary_params()
diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index fdeebd5..2b313fe 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -252,7 +252,7 @@ class CompositeLikelihood(Likelihood):
         self.extra_params = like0.extra_params
         self.suffixes = like0.suffix
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
-- 
2.43.0


From f2f6c8f916b52aa19d00bd6e6647d6232c632a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 32/33] fix: ic --fixjitter did not fix the jitters

---
 radvel/driver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radvel/driver.py b/radvel/driver.py
index 380841f..aa31797 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -439,6 +439,9 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+                    ipost.vector.vector[ipost.vector.indices[param]][1] = False
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
-- 
2.43.0


From 80182e2a530fa08e48265542ebb62cba465351d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 33/33] fix: ic without -t was refused instead of comparing
 models with and without trend

---
 radvel/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index 18b3c5b..ac83c1b 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -169,7 +169,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
-- 
2.43.0

