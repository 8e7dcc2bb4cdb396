From c35f5a08a75eae73cc7ba9060cd0c1a78345e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 1/5] fix: bootstrap raises when a worker process dies instead
 of waiting forever

multiprocessing.Pool replaces a dead worker but never finishes the task it
held, so standard_errors_bootstrap(n_processors > 1) hung when a worker was
killed (out of memory, os._exit, ...). A ProcessPoolExecutor with the same
spawn context raises BrokenProcessPool.
---
 estimation/utilities/bootstrap_errors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/estimation/utilities/bootstrap_errors.py b/estimation/utilities/bootstrap_errors.py
index dc6d511..3f560ca 100644
--- a/estimation/utilities/bootstrap_errors.py
+++ b/estimation/utilities/bootstrap_errors.py
@@ -1,3 +1,4 @@
+from concurrent.futures import ProcessPoolExecutor
 from multiprocessing import get_context
 
 from itertools import starmap, repeat
@@ -75,9 +76,11 @@ Returns:
 
     # Run the bootstrap data
     if n_processors > 1:
-        with get_context("spawn").Pool(processes=n_processors) as pool:
-            results = pool.starmap(_bootstrap_func, zip(repeat(dataset), repeat(irt_model),
-                                                        repeat(options), bootstrap_chunks, rngs))
+        # An executor raises if a worker process dies, a Pool would wait forever
+        with ProcessPoolExecutor(max_workers=n_processors,
+                                 mp_context=get_context("spawn")) as pool:
+            results = list(pool.map(_bootstrap_func, repeat(dataset), repeat(irt_model),
+                                    repeat(options), bootstrap_chunks, rngs))
     else:
         results = starmap(_bootstrap_func, zip(repeat(dataset), repeat(irt_model),
                                                repeat(options), bootstrap_chunks, rngs))
-- 
2.43.0


From 601cb798642af2bd5e2e9a6c573af9e9aee428a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 2/5] fix: parallel polychoric correlation of a single item

A single item has no pairs and the list of index pairs lost its second
dimension: polychoric_correlation raised IndexError where the serial version
returns the 1 x 1 identity.
---
 common/polychoric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..afce102 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -150,7 +150,7 @@ def polychoric_correlation(ordinal_data, start_val=1, stop_val=5, num_processors
         return polychoric_correlation_serial(ordinal_data, start_val, stop_val)
     
     indices = np.tril_indices(ordinal_data.shape[0], -1)
-    chunk_indices = np.array_split(list(zip(*indices)), num_processors)
+    chunk_indices = np.array_split(np.transpose(indices), num_processors)
 
     # Do the parallel calculation
     with SharedMemoryManager() as smm:
-- 
2.43.0


From 68f261117e1fa4ecf6ba58543bae7d50420fe888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 3/5] fix: scalar discrimination and guessing with integer
 difficulties in synthetic data

---
 synthetic/dichotomous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..adceb92 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,10 +32,10 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype=float)
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype=float)
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-- 
2.43.0


From b00d22e358df603b938bc1156422dc7b90b820ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 4/5] fix: partial credit and unfolding data of extreme persons
 overflow to the lowest level

---
 synthetic/polytomous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..3e34992 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -70,6 +70,7 @@ def _credit_func(difficulty, discrimination, thetas, output):
     output[1:, :] -= difficulty[:, None]
     output *= discrimination
     np.cumsum(output, axis=0, out=output)
+    output -= np.max(output, axis=0)  # prevent overflow
     np.exp(output, out=output)
 
     normalizing_term = 1.0 / np.sum(output, axis=0)
-- 
2.43.0


From 0c8293a6205d700f151510e01f5c2a70ace2e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 5/5] fix: synthetic dichotomous data from integer abilities
 and difficulties raise a casting error

---
 synthetic/dichotomous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index adceb92..29c0c29 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -39,11 +39,11 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-        kernel *= discrimination[:, None]
+        kernel = kernel * discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
         kernel = discrimination @ thetas
-        kernel += difficulty[:, None]
+        kernel = kernel + difficulty[:, None]
     
     else:
         raise AssertionError("Discrimination dimensions are not 1 or 2, "
-- 
2.43.0

