From 550b20cccea89a897a3e6f2d47bae0dc564c3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 001/130] fix: whiten only for k-means initialization, so
 invalid data is refused by train instead of raising

---
 esat/model/sa.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..df27a95 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -250,10 +250,6 @@ class SA:
         """
 
         self.metadata["init_method"] = init_method
-        obs = self.V
-        if init_norm:
-            obs = whiten(obs=self.V)
-
         prior_H = None
         if H is not None:
             if H.shape != (self.factors, self.n):
@@ -262,6 +258,7 @@ class SA:
 
         if "kmeans" in init_method.lower():
             self.metadata["init_norm"] = init_norm
+            obs = whiten(obs=self.V) if init_norm else self.V
             centroids, clusters = kmeans2(data=obs, k=self.factors, seed=self.seed)
             contributions = np.zeros(shape=(len(clusters), self.factors)) + (1.0 / self.factors)
             for i, c in enumerate(clusters):
-- 
2.43.0


From 71cc75696b90f1993401a2ccf206059da98d3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 002/130] fix: a partial H keeps its positive cells when the
 random rows sum to a negative value

---
 esat/model/sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index df27a95..7470e54 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -294,6 +294,7 @@ class SA:
         if prior_H is not None:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
+            H[H <= 0.0] = 1e-12
             H = H / H.sum(axis=0)
         H[H <= 0.0] = 1e-12
         self.H = H
-- 
2.43.0


From a8971b7d9ac3255f7d1d1369e18edfce7d968e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 003/130] fix: random initialization of data with negative row
 or column means no longer yields NaN

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 7470e54..ca47eba 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -272,7 +272,7 @@ class SA:
             VH_mean = np.mean(self.V, axis=0)
             VW_mean = np.mean(self.V, axis=1)
             if H is None:
-                V_avg = np.sqrt(VH_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VH_mean) / self.factors)
                 H = V_avg * self.rng.standard_normal(size=(self.factors, self.n)).astype(self.V.dtype, copy=False)
             if "update" in init_method.lower():
                 if self.method == "ls-nmf":
@@ -280,7 +280,7 @@ class SA:
                 else:
                     W, _ = self.update_step(V=self.V, We=self.We, W=None, H=H)
             if W is None:
-                V_avg = np.sqrt(VW_mean / self.factors)
+                V_avg = np.sqrt(np.abs(VW_mean) / self.factors)
                 V_avg = V_avg.reshape(len(V_avg), 1)
                 W = np.multiply(V_avg, self.rng.standard_normal(size=(self.m, self.factors)).astype(self.V.dtype,
                                                                                                     copy=False))
-- 
2.43.0


From 83898ff79838cd1f939c6e50dc42e1d8a3fee9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 004/130] fix: k-means initialization only fills the matrices
 the caller did not provide

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ca47eba..7b52d81 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -263,8 +263,8 @@ class SA:
             contributions = np.zeros(shape=(len(clusters), self.factors)) + (1.0 / self.factors)
             for i, c in enumerate(clusters):
                 contributions[i, c] = self.rng.normal(1.0, 0.1, None)
-            W = contributions
-            H = centroids
+            W = contributions if W is None else W
+            H = centroids if H is None else H
             if self.verbose:
                 logger.debug(f"Factor profile and contribution matrices initialized using k-means clustering. "
                              f"The observations were {'not' if not init_norm else ''} normalized.")
-- 
2.43.0


From bbf1202adcdcec3ad45fcd20e81b7b1fe8e6a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 005/130] fix: repeated training starts with fresh convergence
 bookkeeping

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 7b52d81..3a206a5 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -392,6 +392,8 @@ class SA:
 
         converged = False
         q_list = []
+        self.converged = False
+        self.converge_steps = 0
 
         if self.optimized:
             t0 = time.time()
-- 
2.43.0


From c05a7a3bbbc5974d0be801a594a2ee162f176737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 006/130] fix: ws-nmf training with the python update accepts
 hold_h instead of raising TypeError

---
 esat/model/ws_nmf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..ecc6cc2 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False,
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -65,6 +68,9 @@ class WSNMF:
             _W.append(_w)
         W = np.array(_W)
 
+        if hold_h:
+            return W, H
+
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
 
-- 
2.43.0


From 4283ba03e25f4922da534251686d6ff8c4f707b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 007/130] fix: a sequential batch uses each model's own
 starting matrices and the delay_h option, as the parallel one does

---
 esat/model/batch_sa.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..5752826 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -292,14 +292,19 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H, i_W = self.H, self.W
+                        if i_H is not None and np.ndim(i_H) == 3:
+                            i_H = np.array(i_H)[model_i - 1]
+                        if i_W is not None and np.ndim(i_W) == 3:
+                            i_W = np.array(i_W)[model_i - 1]
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
-                                        progress_callback=self.progress_callback)
+                                        delay_h=self.delay_h, progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-- 
2.43.0


From fe3edfb897a8efe1b2857c8535e33ea299022490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 008/130] fix: a bootstrap block size above half the samples is
 reduced to a whole number instead of failing

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..c17ad17 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,8 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {max(N // 2, 1)}")
+            self.block_size = max(N // 2, 1)
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
-- 
2.43.0


From 3cefe6619f19f00be9adf809310bdb64aaa61f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 009/130] fix: block bootstrap can draw the last block, so the
 last samples are no longer excluded from every resample

---
 esat/error/bootstrap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c17ad17..b20f561 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -163,12 +163,12 @@ class Bootstrap:
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
-                index_i = index_blocks[rng_i]
+                rng_i = int(rng.integers(low=0, high=int(M), size=1)[0])
+                index_i = list(index_blocks[rng_i])
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From a36cad34495e50896976ea9549a018ab0d0b2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 010/130] fix: bootstrap statistics and tables no longer
 overwrite small profile values of the models

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index b20f561..22b59d3 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -560,7 +560,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = np.array(j_v["model"].H[i])
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -625,7 +625,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = np.array(self.base_H[factor])
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From a66a741c695ac765d4e9d671892af83a16b6a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 011/130] fix: bootstrap tables list the runs in run order
 instead of worker completion order

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 22b59d3..7a47708 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -414,7 +414,7 @@ class Bootstrap:
                     for i in pool.imap_unordered(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
-            for r in results:
+            for r in sorted(results, key=lambda x: x[0]):
                 self.bs_results[r[0]] = r[1]
         else:
             for i in tqdm(range(1, self.bootstrap_n+1), desc="Bootstrap resampling, training and mapping"):
-- 
2.43.0


From caba3fbc12302549da894ca9f653dc0a713f2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 012/130] fix: DISP swaps are counted for the factor they
 belong to, whatever order the workers finish in

---
 esat/error/displacement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..c82e876 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -605,8 +605,10 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
-        factor_i = 0
-        for factor, factor_results in self.increase_results.items():
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        for factor_i in range(self.factors):
+            factor_results = self.increase_results.get(f"factor-{factor_i+1}", {})
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -614,9 +616,8 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
-        factor_i = 0
-        for factor, factor_results in self.decrease_results.items():
+        for factor_i in range(self.factors):
+            factor_results = self.decrease_results.get(f"factor-{factor_i+1}", {})
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -624,7 +625,6 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
 
     def save(self, disp_name: str,
              output_directory: str,
-- 
2.43.0


From dba06a972313598a10c3ed7f302896c08e3173df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 013/130] fix: the DISP swap table shows the percentages next
 to the dQ level they belong to

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index c82e876..efc41de 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -126,7 +126,7 @@ class Displacement:
         table_labels = ["dQ Max"]
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
-        table_data = np.round(100 * (self.swap_table/self.count_table), 2)
+        table_data = np.round(100 * (self.swap_table/self.count_table), 2)[::-1]
         dq_list = list(reversed(self.dQmax))
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
@@ -676,7 +676,7 @@ class Displacement:
                     table_labels = ["dQ Max"]
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
-                    table_data = np.round(100 * (self.swap_table / self.count_table), 2)
+                    table_data = np.round(100 * (self.swap_table / self.count_table), 2)[::-1]
                     dq_list = list(reversed(self.dQmax))
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
-- 
2.43.0


From 09df3b209a44fc110085dcec4b1a3403a250b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 014/130] fix: DISP honours the max_search option

---
 esat/error/displacement.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index efc41de..907c9f6 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -308,7 +308,7 @@ class Displacement:
                         search_i += 1
                         if dQ > max_dQ:
                             max_dQ = dQ
-                        if search_i >= max_high_search:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -399,7 +399,7 @@ class Displacement:
                 search_i += 1
                 if dQ > max_dQ:
                     max_dQ = dQ
-                if search_i >= max_high_search:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
@@ -442,7 +442,6 @@ class Displacement:
                     max_dQ = 0
                     search_i = 0
                     p_mod = 0.0
-                    max_search_i = 50
                     while not value_found:
                         new_H =  copy.copy(self.H)
                         new_value = self.H[factor_i, feature_j] * modifier
@@ -463,7 +462,7 @@ class Displacement:
                         if dQ > max_dQ:
                             max_dQ = dQ
                         p_mod = modifier
-                        if search_i >= max_search_i:
+                        if search_i >= self.max_search:
                             value_found = True
                     disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                    seed=self.sa.seed, verbose=False)
@@ -518,7 +517,6 @@ class Displacement:
             max_dQ = 0
             search_i = 0
             p_mod = 0.0
-            max_search_i = 50
             while not value_found:
                 new_H = copy.copy(self.H)
                 new_value = self.H[factor_i, feature_j] * modifier
@@ -539,7 +537,7 @@ class Displacement:
                 if dQ > max_dQ:
                     max_dQ = dQ
                 p_mod = modifier
-                if search_i >= max_search_i:
+                if search_i >= self.max_search:
                     value_found = True
             disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                            seed=self.sa.seed, verbose=False)
-- 
2.43.0


From 77910834b846f0b7b7991950c7e2a39101f35834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 015/130] fix: the decreasing DISP search looks for an increase
 of the loss, as the increasing one does

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 907c9f6..e978152 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -447,7 +447,7 @@ class Displacement:
                         new_value = self.H[factor_i, feature_j] * modifier
                         new_H[factor_i, feature_j] = new_value
                         disp_i_Q = q_loss(V=self.V, U=self.U, W=self.W, H=new_H)
-                        dQ = np.abs(self.base_Q - disp_i_Q)
+                        dQ = disp_i_Q - self.base_Q
                         if dQ > self.dQmax[i]:
                             low_mod = modifier
                             modifier = (modifier + high_mod) / 2
@@ -522,7 +522,7 @@ class Displacement:
                 new_value = self.H[factor_i, feature_j] * modifier
                 new_H[factor_i, feature_j] = new_value
                 disp_i_Q = q_loss(V=self.V, U=self.U, W=self.W, H=new_H)
-                dQ = np.abs(self.base_Q - disp_i_Q)
+                dQ = disp_i_Q - self.base_Q
                 if dQ > self.dQmax[i]:
                     low_mod = modifier
                     modifier = (modifier + high_mod) / 2
-- 
2.43.0


From 4cd541e2f8266661873d44a89b3d17d6b4566c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 016/130] fix: parallel BS-DISP passes its arguments and
 collects the runs in run order

---
 esat/error/bs_disp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..0b6a38d 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -177,7 +177,7 @@ class BSDISP:
                         pbar.update(1)
                         results.append(i)
 
-            for result in results:
+            for result in sorted(results, key=lambda r: bs_keys.index(r[0])):
                 i, i_disp = result
                 self.disp_results[i] = i_disp
         else:
@@ -201,7 +201,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From 087ec1a22ed68329718d96622769a8c18803e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 017/130] fix: BS-DISP compiles every bootstrap run exactly
 once

---
 esat/error/bs_disp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 0b6a38d..40ae8a8 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -217,7 +217,11 @@ class BSDISP:
         """
         Calculate the merging statistics and metrics for the bs-disp results.
         """
-        key0 = list(self.disp_results.keys())[0]
+        disp_keys = list(self.disp_results.keys())
+        key0 = disp_keys[0]
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.disp_swap = 0
         disp_result = self.disp_results[key0].compiled_results
         profiles = disp_result["profile"]
         profiles_max = disp_result["profile_max"]
@@ -226,13 +230,14 @@ class BSDISP:
         conc_max = disp_result["conc_max"]
         conc_min = disp_result["conc_min"]
         dQ_drop = disp_result["dQ_drop"]
+        self.n_drops = 1 if any(dQ_drop < 0.0) else 0
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        for result_i in disp_keys[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -247,7 +252,7 @@ class BSDISP:
             if any(dQ_drop_i < 0.0):
                 self.n_drops += 1
         self.compiled_results =  copy.copy(self.disp_results[key0].compiled_results)
-        self.compiled_results["profiles"] = np.mean(disp_profiles, axis=0)
+        self.compiled_results["profile"] = np.mean(disp_profiles, axis=0)
         self.compiled_results["profile_max"] = profiles_max
         self.compiled_results["profile_min"] = profiles_min
         self.compiled_results["conc"] = np.mean(disp_conc, axis=0)
-- 
2.43.0


From 38bbbde2605609a909bc76ee8ca3a888612e35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 018/130] fix: the BS-DISP swap table shows the percentages
 next to the dQ level they belong to

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 40ae8a8..753e87b 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -286,7 +286,7 @@ class BSDISP:
         table_labels = ["dQ Max"]
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
-        table_data = np.round(100 * (self.swap_table/self.count_table), 2)
+        table_data = np.round(100 * (self.swap_table/self.count_table), 2)[::-1]
         dq_list = list(reversed(self.dQmax))
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
-- 
2.43.0


From 0c90a17e83aca29ea80f70378656d37f215793c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 019/130] fix: a sample constraint must name an element of W,
 and is labelled factor:I|sample:J as documented

---
 esat/rotational/constrained.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..1801b16 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -222,13 +222,13 @@ class ConstrainedModel:
         elif target == 'sample':
             if index[0] >= self.base_model.m or index[0] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
-                             f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
+                             f"(0:{self.base_model.m-1}, 0:{self.base_model.factors-1})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
-                             f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
+                             f"(0:{self.base_model.m-1}, 0:{self.base_model.factors-1})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From f9842fd61590f45ccb80567cbc3bdb7e7248024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 020/130] fix: add_constraint refuses an unknown target or type
 and missing values

---
 esat/rotational/constrained.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1801b16..046973c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -229,6 +229,13 @@ class ConstrainedModel:
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors-1})")
                 return False
             constraint_label = f"factor:{index[1]}|sample:{index[0]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets: 'feature', 'sample'.")
+            return False
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types: {Constraint.type_list}.")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
@@ -239,6 +246,10 @@ class ConstrainedModel:
             target_values = (target_value, dQ)
         elif constraint_type == 'define limits':
             target_values = (min_value, max_value)
+        required = target_values if isinstance(target_values, tuple) else (target_values,)
+        if constraint_type not in ('set to zero', 'set to base value') and any(v is None for v in required):
+            logger.error(f"Error: Missing value for constraint type: {constraint_type}.")
+            return False
         new_constraint = Constraint(
             constraint_type=constraint_type,
             index=index,
-- 
2.43.0


From 63792147e199850df525dc07f9a215a48c6a9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 021/130] fix: a limits constraint moves a value to the
 violated limit and leaves a value inside its limits alone

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 046973c..f252092 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -359,9 +359,9 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
+                    new_value = constraint.target_values[1] - current_value
                 else:
-                    new_value = current_value
+                    new_value = 0.0
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From 638009e755a927062f8b9df1beb48491f16bf65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 022/130] fix: the pull down search scales the current value,
 so its dQ limit is kept

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index f252092..477ee06 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -606,10 +606,10 @@ class ConstrainedModel:
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = iH[index] * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = iW[index] * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From 37c3cfc111b9443fcb4dbb8b06cd6da27920f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 023/130] fix: pulling a value up to a target keeps its dQ
 limit

---
 esat/rotational/constrained.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 477ee06..007ffdd 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -701,12 +701,9 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # the search runs from the target value (low) back to the current value (high)
+        high_value = current_value
+        low_value = target_value
 
         mid_value = (high_value + low_value) / 2
 
-- 
2.43.0


From 572a8c7abdd5494eb3b4df3b6b5a69f5ccf8b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 024/130] fix: the Q(main) plot shows the sum of Q(true) and
 Q(aux)

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 007ffdd..baeb184 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -786,7 +786,7 @@ class ConstrainedModel:
         elif Qtype.lower() == "main":
             title = 'Q(Main)'
             x = list(range(len(self.Q_list[0])))
-            y = self.Q_list[0] + self.Q_list[2]
+            y = [q_true + q_aux for q_true, q_aux in zip(self.Q_list[0], self.Q_list[2])]
         else:
             logger.error(f"Error: Invalid option for Qtype. Provided value: {Qtype}. "
                          f"Available options: true, robust, aux, main.")
-- 
2.43.0


From 9c94759d5d810f32492a158035b3891d65a383b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 025/130] fix: evaluate_expressions reads sample elements from
 the element of W the expression names

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index baeb184..32ebf4e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -859,9 +859,9 @@ class ConstrainedModel:
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
-                    else self.constrained_model.W[ele_index]
+                    else self.constrained_model.W[ele_index[1], ele_index[0]]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-                    ele_index]
+                    ele_index[1], ele_index[0]]
                 exp_element[ele] = (ele_index, element_details['type'], np.round(base_value,4), np.round(ele_value,4))
                 exp_values.append(ele_value * ele_coef)
                 base_values.append(base_value * ele_coef)
-- 
2.43.0


From e10185afd73f32a23467c318f6ce8beb0b2e4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 026/130] fix: an expression over elements that are all zero no
 longer makes the training raise

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 32ebf4e..20ee88c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -402,7 +402,7 @@ class ConstrainedModel:
                 exp_B[i] = exp_b
 
             # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
-            exp_bounds = (1e-8, np.max(exp_B))
+            exp_bounds = (1e-8, max(np.max(exp_B), 1e-6))
             exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
-- 
2.43.0


From 91d85d5e34d555ac7da6b94795d8a266e402a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 027/130] fix: a pull up that passes its dQ limit on the last
 doubling is searched back instead of returned

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 20ee88c..fa23ad3 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -657,7 +657,7 @@ class ConstrainedModel:
             else:
                 high_found = True
             high_search_i += 1
-            if high_search_i >= max_search_i:
+            if high_search_i >= max_search_i and not high_found:
                 return new_value
         new_value = 0.0
         modifier = (high_modifier + low_modifier) / 2.0
-- 
2.43.0


From 198965867304acdc2c90314861f00865c6c4629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 028/130] fix: set_category refuses a feature that is not in
 the dataset

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..c003604 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -145,6 +145,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Unable to update the category of an unknown feature: {feature}")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From f98916c8ccda33af84575a9471d1dba72c262024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 029/130] fix: zero values in the processed data are replaced
 by a value that is not zero in float32

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index c003604..e3dc404 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,7 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+EPSILON = 1e-12       # must stay positive as float32
 
 
 class DataHandler:
-- 
2.43.0


From 2cf1f23c5b1dcf150945e86500deb16aee74dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 030/130] fix: a sample with a missing value in only the data
 or only the uncertainty is dropped from the processed data

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index e3dc404..08c7502 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -325,8 +325,8 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        _input_data = _input_data[~_input_nans & ~_uncertainty_nans]
+        _uncertainty_data = _uncertainty_data[~_input_nans & ~_uncertainty_nans]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From b0d41a85cba1d68733b903f8d6df67fab47ea191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 031/130] fix: a category set on an excluded column no longer
 makes get_data raise

---
 esat/data/datahandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 08c7502..b3e97bb 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -304,11 +304,15 @@ class DataHandler:
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
         for bf in bad_features:
+            if bf not in _input_data.columns:
+                continue
             _input_data = _input_data.drop(labels=bf, axis=1)
             _uncertainty_data = _uncertainty_data.drop(labels=bf, axis=1)
         # Multiply the uncertainty of weak category features by 3
         weak_features = list(self.metrics.loc[self.metrics["Category"] == "weak"].index)
         for wf in weak_features:
+            if wf not in _uncertainty_data.columns:
+                continue
             _uncertainty_data[wf] = _uncertainty_data[wf] * 3.0
 
         # Exclude loc_cols from features
-- 
2.43.0


From c9a692703cdbb990d2cde6eba274ab9b2d883501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 032/130] fix: the handlers of split_locations keep excluding
 the location and dropped columns

---
 esat/data/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index b3e97bb..a5a9978 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -199,6 +199,8 @@ class DataHandler:
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
             dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh.drop_col = self.drop_col
+            dh.loc_cols = self.loc_cols
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
-- 
2.43.0


From c36acdb74ed3584980738e9860a12ddb7b4e1d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 033/130] fix: merged data can be handed to a model, the source
 label is not a feature

---
 esat/data/datahandler.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index a5a9978..080e2e0 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -288,13 +288,11 @@ class DataHandler:
         """
         Sets the processed input and uncertainty datasets.
         """
-        # Drop columns if specified
-        if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-        else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
+        # Drop columns if specified, and the text column added by merge
+        drop_col = ([] if self.drop_col is None else list(self.drop_col)) + \
+                   [col for col in ("source_label",) if col in self.input_data.columns]
+        _input_data = copy.copy(self.input_data.drop(labels=drop_col, axis=1)).astype("float32")
+        _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=drop_col, axis=1)).astype("float32")
 
         # Drop location columns if specified
         if self.loc_cols is not None:
-- 
2.43.0


From 2db75ba72bc20d497535f9b22baefd1779306253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 034/130] fix: the aggregated input data is stored where the
 plots read it

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 080e2e0..14912de 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -469,7 +469,7 @@ class DataHandler:
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
+        self.input_data_plot = agg_input
         self.uncertainty_data_plot = agg_uncertainty
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
-- 
2.43.0


From a2799f4015bccab0c98588f6f161700460ffd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 035/130] fix: data loaded from dataframes can be plotted

---
 esat/data/datahandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 14912de..25cfd61 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -906,4 +906,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 9da84818af1685c1225d11a33357ba229a13ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 036/130] fix: a single column name is still accepted as
 drop_col

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 25cfd61..9240c7a 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -289,8 +289,8 @@ class DataHandler:
         Sets the processed input and uncertainty datasets.
         """
         # Drop columns if specified, and the text column added by merge
-        drop_col = ([] if self.drop_col is None else list(self.drop_col)) + \
-                   [col for col in ("source_label",) if col in self.input_data.columns]
+        drop_col = [] if self.drop_col is None else [self.drop_col] if isinstance(self.drop_col, str) else list(self.drop_col)
+        drop_col = drop_col + [col for col in ("source_label",) if col in self.input_data.columns]
         _input_data = copy.copy(self.input_data.drop(labels=drop_col, axis=1)).astype("float32")
         _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=drop_col, axis=1)).astype("float32")
 
-- 
2.43.0


From 01889deac5969c2c26383cdb9c984a8ab5946e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:41 +0000
Subject: [PATCH 037/130] fix: without index_col the first column is the index,
 as documented

---
 esat/data/datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 9240c7a..7650523 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -369,12 +369,12 @@ class DataHandler:
             if index_col:
                 data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
             else:
-                data = pd.read_csv(filepath, sep=None, engine="python")
+                data = pd.read_csv(filepath, index_col=0, sep=None, engine="python")
         elif ext in ["xls", "xlsx"]:
             if index_col:
                 data = pd.read_excel(filepath, index_col=index_col)
             else:
-                data = pd.read_excel(filepath)
+                data = pd.read_excel(filepath, index_col=0)
         else:
             logger.warning(f"Unknown file type provided. Ext: {ext}, file: {filepath}")
             #TODO: Add custom exception for unknown file types.
-- 
2.43.0


From f5c81f68817227dffbb3b7870bcecf6e81050498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 038/130] fix: loading a truncated, empty or unrelated file
 returns None instead of raising

---
 esat/error/bootstrap.py        | 6 ++++--
 esat/error/bs_disp.py          | 6 ++++--
 esat/error/displacement.py     | 6 ++++--
 esat/model/batch_sa.py         | 6 ++++--
 esat/model/sa.py               | 6 ++++--
 esat/rotational/constrained.py | 6 ++++--
 eval/simulator.py              | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 7a47708..7f6e41b 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -820,8 +820,10 @@ class Bootstrap:
             try:
                 with open(file_path, "rb") as pfile:
                     bs = pickle.load(pfile)
-                    return bs
-            except pickle.PickleError as p_error:
+                if not isinstance(bs, Bootstrap):
+                    raise pickle.UnpicklingError("the file does not contain a saved Bootstrap instance")
+                return bs
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load Bootstrap pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 753e87b..849f311 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -477,8 +477,10 @@ class BSDISP:
             try:
                 with open(file_path, "rb") as pfile:
                     bsdisp = pickle.load(pfile)
-                    return bsdisp
-            except pickle.PickleError as p_error:
+                if not isinstance(bsdisp, BSDISP):
+                    raise pickle.UnpicklingError("the file does not contain a saved BSDISP instance")
+                return bsdisp
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load BS-DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index e978152..c165d98 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -712,8 +712,10 @@ class Displacement:
             try:
                 with open(file_path, "rb") as pfile:
                     disp = pickle.load(pfile)
-                    return disp
-            except pickle.PickleError as p_error:
+                if not isinstance(disp, Displacement):
+                    raise pickle.UnpicklingError("the file does not contain a saved Displacement instance")
+                return disp
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 5752826..df78e59 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -468,8 +468,10 @@ class BatchSA:
             try:
                 with open(file_path, "rb") as pfile:
                     bsa = pickle.load(pfile)
-                    return bsa
-            except pickle.PickleError as p_error:
+                if not isinstance(bsa, BatchSA):
+                    raise pickle.UnpicklingError("the file does not contain a saved BatchSA instance")
+                return bsa
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load BatchSA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/sa.py b/esat/model/sa.py
index 3a206a5..5c78d26 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -577,8 +577,10 @@ class SA:
             try:
                 with open(file_path, "rb") as pfile:
                     sa = pickle.load(pfile)
-                    return sa
-            except pickle.PickleError as p_error:
+                if not isinstance(sa, SA):
+                    raise pickle.UnpicklingError("the file does not contain a saved SA instance")
+                return sa
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load SA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index fa23ad3..48c42be 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1215,8 +1215,10 @@ class ConstrainedModel:
             try:
                 with open(file_path, "rb") as pfile:
                     c_solution = pickle.load(pfile)
-                    return c_solution
-            except pickle.PickleError as p_error:
+                if not isinstance(c_solution, ConstrainedModel):
+                    raise pickle.UnpicklingError("the file does not contain a saved ConstrainedModel instance")
+                return c_solution
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load constrained solution pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..605e033 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -582,8 +582,10 @@ class Simulator:
             try:
                 with open(file_path, "rb") as pfile:
                     sim = pickle.load(pfile)
-                    return sim
-            except pickle.PickleError as p_error:
+                if not isinstance(sim, Simulator):
+                    raise pickle.UnpicklingError("the file does not contain a saved Simulator instance")
+                return sim
+            except Exception as p_error:    # a truncated or unrelated file can raise any exception
                 logger.error(f"Failed to load Simulator pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
-- 
2.43.0


From f6ed01d0dfaca9df2652b0f71efc1afb7a28e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 039/130] fix: a model can be saved to text files without a
 header

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 5c78d26..dd12e0b 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -510,7 +510,7 @@ class SA:
             factor_header = ",".join(factor_header)
             header = ",".join(header)
         else:
-            header = []
+            factor_header, header = "", ""
         output_directory = Path(output_directory)
         if not output_directory.is_absolute():
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
-- 
2.43.0


From 17f7de59b0b1de1c3535aea60e820afef178b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 040/130] fix: arrays and sets are written to json files
 instead of null

---
 esat/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..5777ddf 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -26,6 +26,10 @@ def np_encoder(object):
     """
     if isinstance(object, np.generic):
         return object.item()
+    if isinstance(object, np.ndarray):
+        return object.tolist()
+    if isinstance(object, (set, frozenset)):
+        return sorted(object)
 
 
 def min_timestep(data: pd.DataFrame):
-- 
2.43.0


From d54211e445823415dbe26c0f95b1f0f2ec10ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 041/130] fix: saving a pickled bootstrap returns the path of
 the file

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 7f6e41b..f323407 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From a60aaad5a2dd3132fd23d7d43d1b646f7b7c85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 042/130] fix: saving BS-DISP text files returns the directory,
 not a file that was not written

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 849f311..f838cd9 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -438,6 +438,7 @@ class BSDISP:
                     pickle.dump(self, save_file)
                     logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From c976a9ff469690d332441975314b12b80ecddd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 043/130] fix: saving a constrained model pickles the
 constrained model itself and returns the path

---
 esat/rotational/constrained.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 48c42be..89f2b82 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1175,11 +1175,16 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
-            self.constrained_model.save(
-                model_name=model_name,
-                output_directory=output_directory,
-                pickle_model=pickle_model,
-                header=self.dh.features)
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                with open(file_path, "wb") as save_file:
+                    pickle.dump(self, save_file)
+                    logger.info(f"Constrained model saved to pickle file: {file_path}")
+            else:
+                file_path = self.constrained_model.save(
+                    model_name=model_name,
+                    output_directory=output_directory,
+                    header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
             metadata = self.metadata
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
@@ -1189,8 +1194,10 @@ class ConstrainedModel:
             with open(meta_file, "w") as mfile:
                 json.dump(metadata, mfile, default=np_encoder)
                 logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return file_path
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From 277ee6d5c742ca39597dec2f26e5ce2a457dd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 044/130] fix: the estimator's test cells are the cells not
 used for training

---
 esat/estimator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..8ae8509 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -71,9 +71,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From 345403e61cc1ebacbff21bd88efdfac072397e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 045/130] fix: a factor count that was never sampled does not
 void the factor estimate

---
 esat/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 8ae8509..bb0068c 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -157,7 +157,7 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
+        c = 1.01 * np.nanmax(delta_mse_r)
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
@@ -165,7 +165,7 @@ class FactorEstimator:
             ratio_delta.append(rd)
         ratio_delta.append(np.nan)
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From 0280bd3360de76b25af2a43e1d0539a5f595e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 046/130] fix: the factor estimator accepts a single factor
 count

---
 esat/estimator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index bb0068c..e52b85a 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -157,13 +157,14 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.nanmax(delta_mse_r)
+        c = 1.01 * np.nanmax(delta_mse_r) if delta_mse_r else np.nan
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
             # rd = (delta_mse_r[factor_n]/min1) / np.abs(max1 - c * delta_mse_r[factor_n + 1])
             ratio_delta.append(rd)
-        ratio_delta.append(np.nan)
+        if len(self.test_mse) > 1:
+            ratio_delta.append(np.nan)
 
         mse_min = np.nanmin(self.test_mse)
         k_est = []
-- 
2.43.0


From 8a95fff8193a69da7e5b5923a804d8c33dce10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 047/130] fix: the factor estimator runs on a single-core
 machine

---
 esat/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index e52b85a..7e18ce7 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -132,7 +132,7 @@ class FactorEstimator:
             mask = self._get_mask(threshold=self.test_percent)
             pool_parameters.append((self.V, self.U, mask, seed_i, factor_i, max_iterations, converge_delta, converge_n))
 
-        pool = mp.Pool(os.cpu_count()-1)
+        pool = mp.Pool(max(1, os.cpu_count()-1))
         results = []
         for p_parameter in pool_parameters:
             r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
-- 
2.43.0


From 13323ca40d9a670b49ff56a856905cc549d2fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 048/130] fix: the factor mapping is one-to-one and numbers the
 factors of the compared model

---
 eval/factor_comparison.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..a412f66 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -579,29 +578,21 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
-            # Step 1, all optimal value indices are unique and no other values need to be checked.
-            if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
-                model_mapping = optimal_indices
-            else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
-            optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
-            for j, oi in enumerate(optimal_index_tuples):
-                ele_values = mapping_matrix[oi]
-                mapping_values[j] = np.round(ele_values, 4)
-
-            batch_mapping[i] = optimal_indices
+            # The one-to-one assignment of model factors (columns) to base factors (rows), undefined values are worst.
+            cost_matrix = np.nan_to_num(mapping_matrix, nan=0.0 if maximize else 1e12)
+            _, model_mapping = linear_sum_assignment(cost_matrix, maximize=maximize)
+            for j, k in enumerate(model_mapping):
+                mapping_values[j] = np.round(mapping_matrix[j, k], 4)
+
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From ef630ef30e7a5813d7d8cc19a8fe2d9a1de5109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 049/130] fix: the correlation figure shows the values of the
 mapped factors

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..779d4e9 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -375,7 +375,7 @@ class Perturbation:
         factor_corr_fig = make_subplots()
         factor_corr = np.zeros(shape=(self.models, len(factor_labels)))
         for i, v in self.perturb_mapping.items():
-            factor_corr[i] = np.array(self.perturb_correlations[i])[v]
+            factor_corr[i] = np.array(self.perturb_correlations[i])
         for i in range(len(factor_labels)):
             i_corr_means = factor_corr[:, i]
             factor_corr_fig.add_trace(go.Box(y=i_corr_means, name=factor_labels[i]))
-- 
2.43.0


From 34ba6594eaee21ffa8229b49921b81e1b180364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 050/130] fix: factor comparison of a batch with a model that
 has no result

---
 eval/factor_comparison.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index a412f66..f664fdd 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -259,7 +259,7 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -270,7 +270,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -312,7 +312,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From 7b2f1103b52417264bd7e7853676659492586bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 051/130] fix: the base Q of the comparison uses the
 uncertainty

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index f664fdd..257d971 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -393,7 +393,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From 32922530e7b1a3c5c65b48a79750a3b64f646d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 052/130] fix: the species column of PMF5 profiles is not a
 factor

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 257d971..be7c2eb 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -165,7 +165,7 @@ class FactorCompare:
         factor_types = {}
         for f in factor_columns:
             factor_types[f] = 'float'
-        pmf_profiles_df = pmf_profiles_df.astype(factor_types)
+        pmf_profiles_df = pmf_profiles_df.astype(factor_types).set_index(df_columns[0])
 
         column_row = 4
         data_start_row = 5
-- 
2.43.0


From 6dca0603bb884acc0cbda0dd869f58c8ac4aec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 053/130] fix: the factor comparison runs on a single-core
 machine

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index be7c2eb..bde4d2a 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -296,7 +296,7 @@ class FactorCompare:
         best_wh_r = None
         best_wh_r_avg = None
 
-        pool = mp.Pool(processes=os.cpu_count()-1)
+        pool = mp.Pool(processes=max(1, os.cpu_count()-1))
 
         if len(self.base_factors) >= len(self.sa_factors):
             prime_list = self.base_factors
-- 
2.43.0


From b31e67ba62c6c599471a6c2fa7a34baecc51f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 054/130] fix: factors that do not correlate at all are still
 matched

---
 eval/factor_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index bde4d2a..540a3a0 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -286,7 +286,7 @@ class FactorCompare:
                     wh_results[m][f"base-{i}_esat-{j}"] = r2_3
                     pbar.update()
         pbar.close()
-        best_r = 0.0
+        best_r = -1.0
         best_perm = None
         best_model = None
         best_factor_r = None
@@ -317,7 +317,7 @@ class FactorCompare:
             permutation_results = {}
             model_contribution_results = {}
             factor_contribution_results = {}
-            best_model_r = 0.0
+            best_model_r = -1.0
             factor_permutations = []
 
             for factor_i, factor in enumerate(list(permutations(prime_list, r=r))):
-- 
2.43.0


From 0d8b4d4c52d9159e492a73fc4ad03bad9f5e61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 055/130] fix: the catalog counts every model

---
 eval/factor_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..e88dff5 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -285,7 +285,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
+        if self.model_count < model_index + 1:
             self.model_count = model_index+1
         add_new = False
         if self.idx == 0:
-- 
2.43.0


From e1453b03108fe478263d9b552d542550854b1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 056/130] fix: a factor keeps the threshold it is given

---
 eval/factor_catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e88dff5..99dd005 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -34,6 +34,7 @@ class Factor:
         self.correlation = [ 0.0 if method == "raae" else 1.0]
         self.samples = len(contribution)
         self.method = method
+        self.threshold = threshold
         if threshold is None:
             if method == "raae":
                 self.threshold = 0.1
-- 
2.43.0


From b6188447faf57f499a882b244d84772659d941dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 057/130] fix: a factor that agrees with no cataloged factor
 founds a new one

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 99dd005..acc49ad 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -289,9 +289,9 @@ class FactorCatalog:
         if self.model_count < model_index + 1:
             self.model_count = model_index+1
         add_new = False
-        if self.idx == 0:
-            add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
+        if best_factor is None:
+            add_new = True
         if self.method == "raae":
             if best_corr > self.threshold:
                 add_new = True
-- 
2.43.0


From 8e8f928cec94f1575b9b7c7e9eac7335c99d2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 058/130] fix: profile correlations are not treated as errors

---
 eval/factor_catalog.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index acc49ad..2e92926 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -229,10 +229,11 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        error_metric = self.method == "raae" and not profile_only     # profiles are always compared by correlation
+        best_corr = 1.0 if error_metric else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
-            if self.method == "raae":
+            if error_metric:
                 if corr < best_corr:
                     best_corr = corr
                     best_factor = f_label
@@ -292,7 +293,7 @@ class FactorCatalog:
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
         if best_factor is None:
             add_new = True
-        if self.method == "raae":
+        if self.method == "raae" and not profile_only:
             if best_corr > self.threshold:
                 add_new = True
         else:
-- 
2.43.0


From 664db375a4ab56cd1fbcfbac392379fbb52d20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 059/130] fix: the best relative error of a compared factor is
 the lowest

---
 eval/factor_catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 2e92926..949fa28 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -398,7 +398,8 @@ class FactorCatalog:
                 corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            error_metric = f.method == "raae" and all(len(fi[1]) == f.samples for fi in factor.factor)
+            if best_factor is None or (mean_corr < best_corr if error_metric else mean_corr > best_corr):
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From b3248e6be829c9a3cfe596ff91ede12ca140600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 060/130] fix: the factor catalog works outside of notebooks

---
 eval/factor_catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 949fa28..d7c9233 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -1,7 +1,7 @@
 import logging
 import numpy as np
 import pandas as pd
-from tqdm.notebook import tqdm, tnrange
+from tqdm.auto import tqdm, trange
 from esat_eval.factor_comparison import FactorCompare
 
 logger = logging.getLogger(__name__)
@@ -337,7 +337,7 @@ class FactorCatalog:
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
-        for i in tnrange(len(batch_results.results), desc="Analyzing Models", leave=True):
+        for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
-- 
2.43.0


From b01196a00aa96c88ba997290ead5f235fc7cee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 061/130] fix: the robust loss of the synthetic model is a
 number

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 605e033..9ffb62e 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -290,7 +290,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From e4188455a8e38efff46f2e91c978ac5aabfcd5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 062/130] fix: a simulator with a single factor

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 9ffb62e..cf23d95 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -147,7 +147,7 @@ class Simulator:
             factor_list = list(range(self.factors_n))
             for i in range(self.features_n):
                 # the number of factors which contribute to current feature
-                factor_features_n = self.rng.integers(1, self.factors_n, 1)
+                factor_features_n = self.rng.integers(1, max(self.factors_n, 2), 1)
                 # the specific factors which contribute to current feature
                 factor_feature_selected = self.rng.choice(factor_list, size=factor_features_n, replace=False)
                 for j in factor_feature_selected:
-- 
2.43.0


From 27ab3ef3cba34e84930531f4c0270a2facf206e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 063/130] fix: custom profiles are copied, the caller's matrix
 is not modified

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index cf23d95..0314c0f 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From 57b5a0917ba511c7384a05cb647b1372b273b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 064/130] fix: a periodic contribution covers all samples

---
 eval/simulator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 0314c0f..a9c4301 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -216,9 +216,8 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
-            curve_x = curve_x[0:self.samples_n]
+            curve_a = np.linspace(-np.pi, np.pi, max(2, int(self.samples_n / n_periods)))
+            curve_x = np.resize(curve_a[0:len(curve_a) - 1], self.samples_n)
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-- 
2.43.0


From 9bea9cdceb63352a037795755a208d0de2bf3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 065/130] fix: a logistic contribution of a frequency above one

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index a9c4301..e9e0821 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
             n_periods = int(1.0/frequency) + 1
             for i in range(0, n_periods+1):
                 if i == n_periods:
-                    steps = self.samples_n - (2 * int(self.samples_n/n_periods))
+                    steps = max(0, self.samples_n - (2 * int(self.samples_n/n_periods)))
                 else:
                     steps = int(self.samples_n/n_periods)
                 if i % 2 == 0:
-- 
2.43.0


From 3531954ce69ddec29258308da78c3532fa1c4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 066/130] fix: a uniform contribution respects the minimum

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index e9e0821..0bbd3a5 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -221,7 +221,7 @@ class Simulator:
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-            curve_y = self.rng.random(size=(self.samples_n, 1)) * float(maximum)
+            curve_y = minimum + self.rng.random(size=(self.samples_n, 1)) * float(maximum - minimum)
         curve_y = curve_y[:self.samples_n]
         y_data = self.rng.normal(loc=curve_y, scale=scale, size=curve_y.shape).flatten()
         y_data[y_data <= 0.0] = 1e-12
-- 
2.43.0


From 579a764b6fde1ee6038d078dda4b2d3fc8582527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 067/130] fix: the synthetic data is recalculated when a
 contribution is updated

---
 eval/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index 0bbd3a5..994765d 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -230,6 +230,8 @@ class Simulator:
             logger.info(f"Synthetic factor {factor_i + 1} contribution updated as a random sampling from a normal "
                         f"distribution along a {curve_type} curve.")
             logger.info(f"Frequency: {frequency}, Shape: {curve_y.shape}")
+        if self.syn_data is not None:
+            self.get_data()
 
     def _generate_data(self):
         """
-- 
2.43.0


From 0a64de6b8897a91473cc2ce1e351606044010c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 068/130] fix: the first model can be selected for the
 simulator's comparison figures

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 994765d..82764c8 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -380,7 +380,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -458,7 +458,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From faa52a8226a567fca5991df6434c8022a6c8e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 069/130] fix: the profile comparison figure of a perfectly
 matched or single factor

---
 eval/simulator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 82764c8..bc96d1e 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -463,7 +463,6 @@ class Simulator:
 
         factor_compare = self.factor_compare.model_results[model_i]
 
-        color_map = px.colors.sample_colorscale("plasma", [n / (self.factors_n - 1) for n in range(self.factors_n)])
         r_color_map = px.colors.sample_colorscale("jet", [n / (100 - 1) for n in range(100)])
 
         syn_H = self.syn_profiles
@@ -498,7 +497,7 @@ class Simulator:
                 go.Bar(name=f"Modelled Factor {mod_i+1}", x=self.syn_columns, y=norm_H[mod_i],
                        marker_color="green"), row=1, col=1)
             i_r2 = factor_compare['best_factor_r'][i - 1]
-            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[int(100 * i_r2)],
+            h_fig.add_trace(go.Bar(name="R2", x=(i_r2,), orientation='h', marker_color=r_color_map[min(99, int(100 * i_r2))],
                                    text=np.round(i_r2, 4), textposition="inside", hoverinfo='text',
                                    hovertemplate="R2: %{x:4f}<extra></extra>", showlegend=False), row=2, col=1)
             h_fig.add_trace(
-- 
2.43.0


From 40126ed933d2ca0022474d0826c87bb91ced8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 070/130] fix: selecting a model before the comparison is
 reported, not raised

---
 eval/simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index bc96d1e..d1b6e41 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -349,6 +349,7 @@ class Simulator:
         else:
             if self.factor_compare is None:
                 logger.error("Factor compare must be completed prior to selecting a model.")
+                return
             logger.info(f"Mappings for the most selected model in the batch. Model: {selected_model}")
             self.factor_compare.print_results(model=selected_model)
 
-- 
2.43.0


From e145e677b7ec6c0c1ed899ba17dbd37567a326b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 071/130] fix: cells outside of the perturbed share keep their
 uncertainty

---
 eval/perturbation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 779d4e9..221fc9d 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -178,11 +178,10 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
             ij_u = i_u[:, i]
             ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From d82195c66e55e581f1e1cb4c097485881b2e88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 072/130] fix: integer uncertainties are not truncated when
 perturbed

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 221fc9d..1635f4a 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -162,7 +162,7 @@ class Perturbation:
 
         """
         rng = np.random.default_rng(seed=random_seed)
-        i_u = copy.copy(self.U)
+        i_u = np.array(self.U, dtype=float)
         sigma = self.sigma
         perturb_p = self.perturb_percent
         if isinstance(self.perturb_percent, float):
-- 
2.43.0


From 64f8790370f968dd47bfffd73bc2af398ab476f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 073/130] fix: a perturbation run on a single core

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 1635f4a..54a209d 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -118,7 +118,7 @@ class Perturbation:
             sa_model.initialize()
             sa_model.train(max_iter=self.max_iterations, converge_delta=self.converge_delta, converge_n=self.converge_n)
             self.base_model = sa_model
-        cores = int(mp.cpu_count() * 0.75)
+        cores = max(1, int(mp.cpu_count() * 0.75))
         pool = mp.Pool(processes=cores)
         parallel_args = [(i, self.rng.integers(0, 1e5)) for i in range(self.models)]
 
-- 
2.43.0


From 3a70a7668f42f2cee3e85826ed0915d6f9026f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 074/130] fix: the perturbed share and sigma can be whole
 numbers

---
 eval/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 54a209d..cb0bd4e 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -165,11 +165,11 @@ class Perturbation:
         i_u = np.array(self.U, dtype=float)
         sigma = self.sigma
         perturb_p = self.perturb_percent
-        if isinstance(self.perturb_percent, float):
+        if isinstance(self.perturb_percent, (int, float)):
             perturb_p = [self.perturb_percent for i in range(self.U.shape[1])]
         elif isinstance(self.perturb_percent, list) and len(self.perturb_percent) != self.U.shape[1]:
             perturb_p = [self.perturb_percent[0] for i in range(self.U.shape[1])]
-        if isinstance(self.sigma, float):
+        if isinstance(self.sigma, (int, float)):
             sigma = [self.sigma for i in range(self.U.shape[1])]
         elif isinstance(self.sigma, list) and len(self.sigma) != self.U.shape[1]:
             sigma = [self.sigma[0] for i in range(self.U.shape[1])]
-- 
2.43.0


From 9028a25a1b87043fa9915ab208164357242573c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 075/130] fix: comparing perturbed models of a single factor

---
 eval/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index cb0bd4e..016d20c 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -255,7 +255,7 @@ class Perturbation:
         min_perturb_H = np.min(self.perturb_H, axis=2)
         max_perturb_H = np.max(self.perturb_H, axis=2)
 
-        factor_i = 1
+        factor_i = min(1, base_H.shape[0] - 1)
         f1_dict = {
             "Base": base_H[factor_i],
             "Mean Perturb": mean_perturb_H[factor_i],
-- 
2.43.0


From eef922663448a318ae26ffc9e336827a0ce13561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 076/130] fix: a parallel bootstrap on a single core

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index f323407..2b6e713 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -92,7 +92,7 @@ class Bootstrap:
         self.base_seed = self.sa.seed
         self.bs_seed = seed if seed is not None else self.base_seed
         self.parallel = parallel if isinstance(parallel, bool) else str(parallel).lower() == "true"
-        self.cpus = cpus if cpus > 0 else mp.cpu_count() - 1
+        self.cpus = cpus if cpus > 0 else max(1, mp.cpu_count() - 1)
 
         self.bs_results = {}
         self.rng = np.random.default_rng(seed=self.bs_seed)
-- 
2.43.0


From 940281f79084e80e6ab25ba3e43a4b676f4dded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 077/130] fix: a parallel BS-DISP on a single core

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index f838cd9..355ea98 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -162,7 +162,7 @@ class BSDISP:
         sys.stdout.flush()
 
         if parallel:
-            cpus = int(mp.cpu_count() * 0.75)
+            cpus = max(1, int(mp.cpu_count() * 0.75))
             p_args = []
             for i, bs_key in enumerate(bs_keys):
                 i_model = self.bootstrap.bs_results[bs_key]["model"]
-- 
2.43.0


From 9ebac0749d8909d7bd5e520649707aacbf84eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 078/130] fix: the imputer can be created when scikit-learn is
 installed

---
 esat/data/impute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..8d59927 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
-- 
2.43.0


From 28c18e4f0fc25e3e4d51ecc6293628ff17a4cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 079/130] fix: imputed frames keep the columns and index of the
 dataset

---
 esat/data/impute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 8d59927..f6d4dc5 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -58,7 +58,7 @@ class DataImputer:
         U = self.data_handler.uncertainty_data
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
-            U = np.where(U == self.missing_value, np.nan, U)
+            U = pd.DataFrame(np.where(U == self.missing_value, np.nan, U), columns=U.columns, index=U.index)
 
         # Create a mask for referencing missing values
         self.imputation_mask = np.isnan(V) | np.isnan(U)
-- 
2.43.0


From 06bda03a9fe4838e86346535df1b3f36d1a6c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 080/130] fix: the minimum timestep is returned, for one hour
 and for the last interval as well

---
 esat/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 5777ddf..215f84d 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -46,17 +46,19 @@ def min_timestep(data: pd.DataFrame):
     int
         Minimum timestep.
     """
-    time_delta = data.index[1: -1] - data.index[0:-2]
+    time_delta = data.index[1:] - data.index[:-1]
+    time_delta = time_delta[time_delta >= pd.Timedelta(seconds=1)]
+    if len(time_delta) == 0:
+        return "D"
     if time_delta.min().days >= 1:
         resample = f"{int(time_delta.min().days)}D"
     elif time_delta.min().seconds < 60:
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
-        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
+    return resample
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From e3a027f5f713bef6d36503449a033c63d0cd2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 081/130] fix: the RMSE of a feature is the root of its mean
 squared error

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..43355b5 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2)), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From 484c61b64a73efacfa4e770f809d521bce8317e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 082/130] fix: residuals are scaled by the processed
 uncertainty

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 43355b5..87cc0f5 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From d24ddd26842c33672f440d27b16653752b927212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 083/130] fix: a model outside of a batch can be plotted

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 87cc0f5..7f9fbd8 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -40,7 +40,7 @@ class ModelAnalysis:
         """
         self.dh = datahandler
         self.model = model
-        self.selected_model = selected_model
+        self.selected_model = 0 if selected_model is None else selected_model
         self.statistics = None
         self.residual_metrics = None
         self.V_prime_k = None
-- 
2.43.0


From daf5eb8ea2bf11ec664d7d1fabb3442309262deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 084/130] fix: the 3d factor plot can show both types

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 7f9fbd8..ce76cbe 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -640,7 +640,7 @@ class ModelAnalysis:
         # Add 3D bar graphs for "Conc. of Features"
         if plot_type.lower() in ["conc", "both"]:
             fig.add_trace(_create_mesh3d(conc_z, "Conc. of Features"))
-        else:
+        if plot_type.lower() != "conc":
             # Add 3D bar graphs for "% of Features"
             fig.add_trace(_create_mesh3d(percent_z, "% of Features"))
         if plot_type.lower() == "both":
-- 
2.43.0


From 349cdbbfc433d842dd1a482c8897de4ed7d3cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 085/130] fix: a feature index of the timeseries refers to the
 columns

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 7650523..77ad06a 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -649,7 +649,7 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[0]
+            feature_selection = feature_selection % self.input_data_plot.shape[1]
             feature_selection = self.input_data_plot.columns[feature_selection]
             feature_label = [feature_selection]
         else:
-- 
2.43.0


From a8e896fb44d37ef5d6ad876586dbe73a3be01876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 086/130] fix: the data and uncertainty plot shows the
 requested feature

---
 esat/data/datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 77ad06a..85d854a 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -506,6 +506,7 @@ class DataHandler:
             features = [self.input_data_plot.columns[feature_idx]]
         else:
             features = self.input_data_plot.columns
+        shown = feature_idx if include_menu and feature_idx is not None else 0
         du_plot = go.Figure()
         buttons = []
 
@@ -520,7 +521,7 @@ class DataHandler:
                     y=feature_uncertainty,
                     mode='markers',
                     name=feature_label,
-                    visible=(feature_idx == 0) or not include_menu,
+                    visible=(feature_idx == shown) or not include_menu,
                 )
             )
 
@@ -547,7 +548,7 @@ class DataHandler:
                     )
                 ])
         du_plot.update_layout(
-            title=f"Concentration/Uncertainty Scatter Plot - {features[0]}",
+            title=f"Concentration/Uncertainty Scatter Plot - {features[shown]}",
             width=800,
             height=600,
             xaxis_title="Concentration",
-- 
2.43.0


From bdfe28431a3d7ebfc22e11c0aead2c0f81b9250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 087/130] fix: data with more samples than plotted are
 aggregated by sample, also with repeated values

---
 esat/data/datahandler.py | 46 +++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 85d854a..4a795af 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -329,6 +329,7 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
+        self._processed_rows = (~_input_nans & ~_uncertainty_nans).to_numpy()
         _input_data = _input_data[~_input_nans & ~_uncertainty_nans]
         _uncertainty_data = _uncertainty_data[~_input_nans & ~_uncertainty_nans]
 
@@ -447,7 +448,6 @@ class DataHandler:
         Stores aggregation bins/labels for reuse.
         """
         self._agg_bins = {}
-        self._agg_labels = {}
         if self.input_data is None or self.uncertainty_data is None:
             self.input_data_plot = None
             self.uncertainty_data_plot = None
@@ -458,41 +458,35 @@ class DataHandler:
             self.uncertainty_data_plot = self.uncertainty_data
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
-        agg_input = pd.DataFrame()
-        agg_uncertainty = pd.DataFrame()
+        agg_input = {}
+        agg_uncertainty = {}
         for col in self.input_data.columns:
             quantiles = self.input_data[col].quantile(bins)
-            labels = range(self.max_plotting_n)
-            binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
-            agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
-                drop=True)
-            self._agg_bins[col] = quantiles
-            self._agg_labels[col] = labels
-        self.input_data_plot = agg_input
-        self.uncertainty_data_plot = agg_uncertainty
+            # labels are positions, repeated quantiles result in fewer bins than max_plotting_n
+            binned = np.searchsorted(np.unique(quantiles)[1:-1], self.input_data[col].to_numpy())
+            binned = np.where(self.input_data[col].isna(), np.nan, binned)
+            agg_input[col] = self.input_data[col].groupby(binned).mean().reset_index(drop=True)
+            agg_uncertainty[col] = self.uncertainty_data[col].groupby(binned).mean().reset_index(drop=True)
+            self._agg_bins[col] = binned
+        self.input_data_plot = pd.DataFrame(agg_input)
+        self.uncertainty_data_plot = pd.DataFrame(agg_uncertainty)
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
     def aggregate_output(self, output_array: np.ndarray) -> pd.DataFrame:
         """
-        Aggregate an output numpy array using the same bins/labels as used in _aggregate_data.
+        Aggregate an output numpy array, of the samples of the processed dataset, using the same bins of samples as used
+        in _aggregate_data.
         Returns a pandas DataFrame.
         """
-        if not hasattr(self, "_agg_bins") or not hasattr(self, "_agg_labels"):
-            logger.error("No aggregation bins/labels found. Run _aggregate_data first.")
-            # Fallback: return as DataFrame with feature names
-            return pd.DataFrame(output_array, columns=self.features)
         # Convert array to DataFrame with correct columns
-        output_df = pd.DataFrame(output_array, columns=self.features)
-        agg_output = pd.DataFrame()
+        output_df = pd.DataFrame(output_array, columns=self.features, index=self.input_data_df.index)
+        if len(getattr(self, "_agg_bins", {})) == 0:
+            return output_df
+        agg_output = {}
         for col in output_df.columns:
-            if col in self._agg_bins:
-                binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
-                                duplicates='drop')
-                agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
-            else:
-                agg_output[col] = output_df[col]
-        return agg_output
+            binned = self._agg_bins[col][self._processed_rows]
+            agg_output[col] = output_df[col].groupby(binned).mean().reset_index(drop=True)
+        return pd.DataFrame(agg_output)
 
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
-- 
2.43.0


From 91be93213ec48452abf7c79d212a404dbe01f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 088/130] fix: figures compare the model to the samples and
 features it was trained on

---
 esat/data/analysis.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index ce76cbe..f789773 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -65,9 +65,7 @@ class ModelAnalysis:
             agg_df = self.dh.aggregate_output(V_prime_k)
             factor_agg[k] = agg_df
         # sum of aggregated factors, into v_prime (same dimensions as V)
-        factor_vprime = sum([agg_df.values for agg_df in factor_agg.values()])
-        factor_vprime = pd.DataFrame(factor_vprime, columns=self.dh.input_data_df.columns,
-                                     index=self.dh.input_data_df.index)
+        factor_vprime = sum(factor_agg.values())
         self.V_prime_plot = factor_vprime
         self.V_prime_k = factor_agg
         return factor_agg, factor_vprime
@@ -302,8 +300,8 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature]
-        predicted_data = self.V_prime_plot.iloc[:, feature_idx]
+        observed_data = self.dh.aggregate_output(self.dh.input_data_df.values)[feature].dropna()
+        predicted_data = self.V_prime_plot.iloc[:, feature_idx].dropna()
 
         # Perform regression
         A = np.vstack([observed_data.values, np.ones(len(observed_data))]).T
@@ -368,11 +366,11 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature].values
-        predicted_data = self.V_prime_plot.iloc[:, feature_idx]
+        observed_data = self.dh.aggregate_output(self.dh.input_data_df.values)[feature].dropna()
+        predicted_data = self.V_prime_plot.iloc[:, feature_idx].dropna()
 
-        data_df = pd.DataFrame(data={"observed": observed_data, "predicted": predicted_data},
-                               index=self.dh.input_data_plot.index)
+        data_df = pd.DataFrame(data={"observed": observed_data.values, "predicted": predicted_data.values},
+                               index=observed_data.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
         data_df = data_df.resample(min_timestep(data_df)).mean()
@@ -1010,7 +1008,9 @@ class BatchAnalysis:
             feature_label = features[feature_idx]
             col_idx = feature_idx
         else:
-            V = self.data_handler.input_data_plot.values
+            V = self.data_handler.aggregate_output(self.data_handler.input_data_df.values)
+            x = V.index
+            V = V.values
             if len(self.aggregated_output) == 0:
                 for i, r in enumerate(self.batch_sa.results):
                     if r is not None:
@@ -1019,7 +1019,6 @@ class BatchAnalysis:
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
             col_idx = feature_idx
-            x = self.data_handler.input_data_plot.index
 
         temporal_fig = go.Figure()
         # Add input trace
-- 
2.43.0


From dfa68937098d4a21d3e2e5cb52f359558137af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 089/130] fix: temporal residuals are labelled by model when a
 model of the batch failed

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index f789773..731dd31 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1002,7 +1002,7 @@ class BatchAnalysis:
 
         if self.data_handler is None:
             V = self.batch_sa.V
-            V_primes = [r.WH for r in self.batch_sa.results if r is not None]
+            V_primes = [None if r is None else r.WH for r in self.batch_sa.results]
             features = [f"Feature {i + 1}" for i in range(V.shape[1])]
             x = list(range(1, V.shape[0] + 1))
             feature_label = features[feature_idx]
-- 
2.43.0


From a19bdc9d3e79be507c45f20348343099e52b61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 090/130] fix: figures show the present state of a model that
 was trained further

---
 esat/data/analysis.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 731dd31..9055939 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -297,8 +297,7 @@ class ModelAnalysis:
         else:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.aggregate_output(self.dh.input_data_df.values)[feature].dropna()
         predicted_data = self.V_prime_plot.iloc[:, feature_idx].dropna()
@@ -363,8 +362,7 @@ class ModelAnalysis:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
 
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.aggregate_output(self.dh.input_data_df.values)[feature].dropna()
         predicted_data = self.V_prime_plot.iloc[:, feature_idx].dropna()
@@ -1011,10 +1009,10 @@ class BatchAnalysis:
             V = self.data_handler.aggregate_output(self.data_handler.input_data_df.values)
             x = V.index
             V = V.values
-            if len(self.aggregated_output) == 0:
-                for i, r in enumerate(self.batch_sa.results):
-                    if r is not None:
-                        self.aggregated_output[i] = self.data_handler.aggregate_output(r.WH)
+            self.aggregated_output = {}
+            for i, r in enumerate(self.batch_sa.results):
+                if r is not None:
+                    self.aggregated_output[i] = self.data_handler.aggregate_output(r.WH)
             # Ensure V_primes is a list, not a dict
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
-- 
2.43.0


From 7fcd0a03c4ce6f3e8c2ee986b45ebbf898f0c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 091/130] fix: BS-DISP figures use the documented default for
 an invalid dQ

---
 esat/error/bs_disp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 355ea98..8a7d48f 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -332,7 +332,7 @@ class BSDISP:
         factor : int
            The index of the BS-DISP factor results to display.
         dQ : float
-           The dQ value to show in the results, valid values are (0.5, 1, 2, 4). Default = 0.4, will use default if
+           The dQ value to show in the results, valid values are (0.5, 1, 2, 4). Default = 0.5, will use default if
            invalid value provided.
 
         """
@@ -341,7 +341,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
@@ -383,7 +383,7 @@ class BSDISP:
             return
         factor_label = factor
         factor = factor - 1
-        dQ = dQ if dQ in self.dQmax else 4
+        dQ = dQ if dQ in self.dQmax else 0.5
         selected_data = self.compiled_results.loc[self.compiled_results["factor"] == factor].loc[
             self.compiled_results["dQ"] == dQ]
 
-- 
2.43.0


From b612a2d4e16f3b220575da702da57be6ab068dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 092/130] fix: the constrained profile highlights the
 constrained elements

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 89f2b82..7a2cffa 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -946,7 +946,7 @@ class ConstrainedModel:
                     marker_line_colors[factor_feature_k] = 'rgb(255,44,44)'
         # Highlight the factor feature elements which were constrained
         for c_key, constraint in self.constraints.items():
-            if constraint.constraint_type == "feature" and constraint.index[0] == factor_idx:
+            if constraint.target == "feature" and constraint.index[0] == factor_idx:
                 marker_line_colors[constraint.index[1]] = 'rgb(122,44,255)'
 
         fig = make_subplots(specs=[[{"secondary_y": True}]], rows=1, cols=1)
@@ -958,7 +958,7 @@ class ConstrainedModel:
                              marker_line_color='rgb(186,186,186)', marker_line_width=1.5, opacity=0.6,
                              name='Base Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.add_trace(go.Bar(x=self.dh.features, y=i_factor_conc_sum, marker_color='rgb(134,236,168)',
-                             marker_line_color='rgb(125,220,157)', marker_line_width=1.5, opacity=0.6,
+                             marker_line_color=marker_line_colors, marker_line_width=1.5, opacity=0.6,
                              name='Constrained Conc. of Features'), secondary_y=False, row=1, col=1)
         fig.update_layout(width=1200, height=600, title=f"Constrained Factor Profile - Factor {factor_label}",
                           barmode='group', scattermode='group', hovermode="x unified")
-- 
2.43.0


From 5736112e94e7b681f88ea3184786c502007dd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 093/130] fix: the constrained figures of a factor that does
 not exist are refused

---
 esat/rotational/constrained.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 7a2cffa..747a97c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -914,6 +914,9 @@ class ConstrainedModel:
             The factor index to plot. Valid index values range from 1 to the total number of factors.
 
         """
+        if factor_idx > self.constrained_model.factors or factor_idx < 1:
+            logger.warning(f"Invalid factor_idx provided, must be between 1 and {self.constrained_model.factors}")
+            return
         factor_label = factor_idx
         factor_idx = factor_idx - 1
 
@@ -976,6 +979,9 @@ class ConstrainedModel:
             The factor index to plot. Valid index values range from 1 to the total number of factors.
 
         """
+        if factor_idx > self.constrained_model.factors or factor_idx < 1:
+            logger.warning(f"Invalid factor_idx provided, must be between 1 and {self.constrained_model.factors}")
+            return
         factor_label = f"Factor {factor_idx}"
         factor_idx = factor_idx - 1
 
-- 
2.43.0


From 938f542d684ab11c43d01d3331c9ded71684e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 094/130] fix: constrained contributions are those of the
 samples and features trained on

---
 esat/rotational/constrained.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 747a97c..b8f26ba 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -989,15 +989,13 @@ class ConstrainedModel:
         i_W = self.constrained_model.W[:, factor_idx]
 
         b_norm_contr = b_W / b_W.mean()
-        b_data_df =  copy.copy(self.dh.input_data)
-        b_data_df[factor_label] = b_norm_contr
+        b_data_df = pd.DataFrame(data={factor_label: b_norm_contr}, index=self.dh.input_data_df.index)
         b_data_df.index = pd.to_datetime(b_data_df.index)
         b_data_df = b_data_df.sort_index()
         b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
 
         i_norm_contr = i_W / i_W.mean()
-        i_data_df =  copy.copy(self.dh.input_data)
-        i_data_df[factor_label] = i_norm_contr
+        i_data_df = pd.DataFrame(data={factor_label: i_norm_contr}, index=self.dh.input_data_df.index)
         i_data_df.index = pd.to_datetime(i_data_df.index)
         i_data_df = i_data_df.sort_index()
         i_data_df = i_data_df.resample(min_timestep(i_data_df)).mean()
@@ -1009,7 +1007,7 @@ class ConstrainedModel:
         fig.add_trace(go.Scatter(x=i_data_df.index, y=i_data_df[factor_label], mode='lines+markers',
                                  marker_color='rgb(125,220,157)', name="Constrained Factor Contributions"))
         fig.update_layout(width=1200, height=800,
-                          title=f"Constrained Factor Contributions - Factor {factor_label}",
+                          title=f"Constrained Factor Contributions - {factor_label}",
                           hovermode="x unified")
         fig.update_yaxes(title_text="Factor Contributions")
         fig.show()
@@ -1119,7 +1117,7 @@ class ConstrainedModel:
             feature_idx = feature_idx - 1
         else:
             feature_idx = 0
-        x_label = self.dh.input_data.columns[feature_idx]
+        x_label = self.dh.features[feature_idx]
         factors_data = self.constrained_model.H
         normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
 
@@ -1144,7 +1142,7 @@ class ConstrainedModel:
         normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
-        contr_df.index = pd.to_datetime(self.dh.input_data.index)
+        contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
         contr_df = contr_df.sort_index()
         contr_df = contr_df.resample(min_timestep(contr_df)).mean()
 
-- 
2.43.0


From 424b8d4ada53d40851931dbe6b562a09a2c31621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 095/130] fix: the axes of the constrained G-space are those of
 their factors

---
 esat/rotational/constrained.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b8f26ba..4efed03 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1088,14 +1088,14 @@ class ConstrainedModel:
             fp_g_fig = go.Figure()
             fp_g_fig.add_trace(
                 go.Scatter(x=c_normalized_factors_contr[:, f1_idx], y=c_normalized_factors_contr[:, f2_idx],
-                           mode='markers', name="Fpeak"))
+                           mode='markers', name="Constrained"))
             if show_base:
                 fp_g_fig.add_trace(
                     go.Scatter(x=b_normalized_factors_contr[:, f1_idx], y=b_normalized_factors_contr[:, f2_idx],
                                mode='markers', name="Base"))
         fp_g_fig.update_layout(title=f"Constrained G-Space Plot", width=800, height=800)
-        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
-        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_yaxes(title_text=f"Factor {factor_idx2} Contributions (avg=1)")
+        fp_g_fig.update_xaxes(title_text=f"Factor {factor_idx1} Contributions (avg=1)")
         fp_g_fig.show()
 
     def plot_factor_contributions(self, feature_idx, threshold: float = 0.06):
-- 
2.43.0


From 0c55f8d0190d8ce9004909c04c1e42179cd18f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 096/130] fix: constrained fingerprints of more than ten
 factors

---
 esat/rotational/constrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 4efed03..8e7c38b 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1028,11 +1028,11 @@ class ConstrainedModel:
         colors = px.colors.sequential.Viridis_r
         for idx in range(self.base_model.factors - 1, -1, -1):
             fp_factors_fig.add_trace(go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=b_normalized[idx],
-                                            marker_color=colors[idx], hovertext="Base", legendgroup=f"group{idx}",
+                                            marker_color=colors[idx % len(colors)], hovertext="Base", legendgroup=f"group{idx}",
                                             showlegend=False), row=1, col=1)
             fp_factors_fig.add_trace(
                 go.Bar(name=f"Factor {idx + 1}", x=self.dh.features, y=c_normalized[idx],
-                       marker_color=colors[idx], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
+                       marker_color=colors[idx % len(colors)], hovertext="Constrained", legendgroup=f"group{idx}"), row=2, col=1)
         fp_factors_fig.update_layout(title=f"Constrained Factor Fingerprints", width=1200, height=800,
                                      barmode='stack', hovermode='x unified')
         fp_factors_fig.update_yaxes(title_text="% Feature Concentration", range=[0, 100])
-- 
2.43.0


From 2d0704f6dd523d20841c66497756db575a5425af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 097/130] fix: expressions are evaluated only when there are
 any

---
 esat/rotational/constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 8e7c38b..9d0c5a5 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -843,6 +843,9 @@ class ConstrainedModel:
         TODO: Perform factor mapping between the base solution and the constrained solution.
 
         """
+        if not self.expressions:
+            logger.info("No expressions to evaluate.")
+            return
         exp_element = {}
         max_terms = np.max([len(i[0]) for i in self.expression_labeled])
         exp_table = [[""] * (max_terms + 3) for i in range(len(self.expression_labeled))]
-- 
2.43.0


From 859a2d779b70e2845010f3795852dc4d0bf739db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 098/130] fix: the command line reads data with the default
 index column and prepares it for its analyses

---
 esat/cli/esat_cli.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..0507231 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -33,8 +33,13 @@ except importlib.metadata.PackageNotFoundError as ex:
     VERSION = "NA"
 
 
-def get_dh(input_path, uncertainty_path, index_col):
+def get_dh(input_path, uncertainty_path, index_col=None):
+    # configuration values are strings, the index column is either a position, a name or not specified
+    if isinstance(index_col, str):
+        index_col = index_col.strip()
+        index_col = int(index_col) if index_col.isdigit() else (index_col or None)
     dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
+    dh.get_data()
     return dh
 
 
@@ -75,7 +80,7 @@ def get_batchsa(project_directory):
 
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
@@ -376,7 +381,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_data_uncertainty(feature_idx=feature_idx)
 
 
@@ -396,7 +401,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_data(x_idx=feature_idx1, y_idx=feature_idx2)
 
 
@@ -414,7 +419,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_timeseries(feature_selection=list(feature_idx))
 
 
@@ -438,7 +443,7 @@ def estimate(project_directory):
         data_df, uncertainty_df = sim.get_data()
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     factor_estimator = FactorEstimator(V=V, U=U)
     estimator_results = factor_estimator.run(
@@ -470,7 +475,7 @@ def run(project_directory):
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     sa_models = BatchSA(V=V, U=U, **config["parameters"])
     sa_models.details()
@@ -744,7 +749,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     config = get_config(project_directory=project_directory)
     e_config = get_config(project_directory=project_directory, error=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -936,7 +941,7 @@ def run_constrained(project_directory):
     config = get_config(project_directory=project_directory)
     c_config = get_config(project_directory=project_directory, constrained=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From a4333b72ccbdb6223271b5171012cd2c70a490e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 099/130] fix: a project directory may be a relative path

---
 esat/cli/esat_cli.py | 74 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 0507231..5a1e6a6 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -145,7 +145,7 @@ def esat_cli():
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup(project_directory):
     """
     Create the configuration file for a batch source apportionment run in the provided directory.
@@ -179,7 +179,7 @@ def simulator():
 
 
 @simulator.command(name='setup')
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup_sim(project_directory):
     """
     Create the configuration file for a batch source apportionment simulated run in the provided directory.
@@ -213,7 +213,7 @@ def setup_sim(project_directory):
 
 
 @simulator.command(name="generate")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def generate_sim(project_directory):
     """
     Generate the synthetic data and uncertainty datasets as defined in the sim_config.toml. Only required for data
@@ -240,7 +240,7 @@ def generate_sim(project_directory):
 
 
 @simulator.command(name="compare")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def compare_sim(project_directory):
     """
     Compares the models generated from the synthetic data to show how similar the modelled profiles are to the known
@@ -268,7 +268,7 @@ def compare_sim(project_directory):
 
 
 @simulator.command(name="plot")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_sim(project_directory):
     """
     Plots the results of the simulator output comparison to the synthetic profiles.
@@ -301,7 +301,7 @@ def analysis_batch():
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_loss(project_directory):
     """
     Plots the loss value Q(true) over the training iterations for the batch solution.
@@ -322,7 +322,7 @@ def plot_loss(project_directory):
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_distribution(project_directory):
     """
     Plots the loss value distribution Q(true) and Q(robust) for the batch solution.
@@ -351,7 +351,7 @@ def analysis_input():
 
 
 @analysis_input.command(name="metrics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def metrics(project_directory):
     """
     Display the input metrics for the input/uncertainty data specified in the configuration file.
@@ -368,7 +368,7 @@ def metrics(project_directory):
 
 
 @analysis_input.command(name="plot-feature")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The index of the input/uncertainty data feature, "
                                                                "column in the dataset.", show_default=True)
 def plot_input_uncertainty(project_directory, feature_idx):
@@ -386,7 +386,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
 
 @analysis_input.command(name="plot-data")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--feature_idx1", type=int, default=0, help="The index of the first (x-axis) input data feature, "
                                                                 "column in the dataset.", show_default=True)
 @click.option('-y', "--feature_idx2", type=int, default=1, help="The index of the second (y-axis) input data feature, "
@@ -406,7 +406,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 
 @analysis_input.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
                                                                "columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
@@ -424,7 +424,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def estimate(project_directory):
     """
     Run a factor estimation using the provided configuration file.
@@ -455,7 +455,7 @@ def estimate(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run(project_directory):
     """
     Run a batch source apportionment run using the provided configuration file.
@@ -497,7 +497,7 @@ def analysis_solution():
 
 
 @analysis_solution.command(name="plot-residuals")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -517,7 +517,7 @@ def solution_residual_histogram(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="statistics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -537,7 +537,7 @@ def solution_statistics(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-estimated")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -557,7 +557,7 @@ def solution_estimated_observed(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -577,7 +577,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -597,7 +597,7 @@ def solution_factor_profile(project_directory, selected_model, factor_idx):
 
 
 @analysis_solution.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -616,7 +616,7 @@ def solution_factor_fingerprints(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -639,7 +639,7 @@ def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2
 
 
 @analysis_solution.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -659,7 +659,7 @@ def solution_factor_contributions(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-composition")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -678,7 +678,7 @@ def solution_factor_composition(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-surface")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -707,7 +707,7 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_error(project_directory):
     """
     Create an error estimation configuration file for the specified project.
@@ -726,7 +726,7 @@ def setup_error(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, default=False,
               help="Run the displacement (DISP) error estimation method.", show_default=True)
 @click.option("--bs", is_flag=True, prompt=False, default=False, show_default=True,
@@ -850,7 +850,7 @@ def analysis_error():
 
 
 @analysis_error.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -879,7 +879,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
 
 
 @analysis_error.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -909,7 +909,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_constrained(project_directory):
     """
     Create a configuration file for executing a constrained model run on a specified project.
@@ -928,7 +928,7 @@ def setup_constrained(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run_constrained(project_directory):
     """
     Run a constrained model with the specified configuration file.
@@ -998,7 +998,7 @@ def analysis_constrained():
 
 
 @analysis_constrained.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_results(project_directory):
     """
     Display the results of a constrained model run.
@@ -1014,7 +1014,7 @@ def constrained_results(project_directory):
 
 
 @analysis_constrained.command(name="plot-q")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-q', "--qtype", prompt_required=False, default='Aux', show_default=True,
               help="Plot the loss value for qtype: True, Robust, Aux")
 def constrained_plot_q(project_directory, qtype):
@@ -1033,7 +1033,7 @@ def constrained_plot_q(project_directory, qtype):
 
 
 @analysis_constrained.command(name="eval-constraints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_constraints(project_directory):
     """
     Display the evaluation table of the constrained model results, for each constraint.
@@ -1048,7 +1048,7 @@ def constrained_evaluate_constraints(project_directory):
 
 
 @analysis_constrained.command(name="eval-expressions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_expressions(project_directory):
     """
     Display the evaluation table of the constrained model results, for each expression.
@@ -1063,7 +1063,7 @@ def constrained_evaluate_expressions(project_directory):
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
@@ -1079,7 +1079,7 @@ def constrained_profile_contributions(project_directory, factor_idx):
 
 
 @analysis_constrained.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_factor_fingerprints(project_directory):
     """
     Display the constrained solution factor fingerprints.
@@ -1094,7 +1094,7 @@ def constrained_factor_fingerprints(project_directory):
 
 
 @analysis_constrained.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
@@ -1115,7 +1115,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
-- 
2.43.0


From 2453f3b7ae21d3aaf13a846e5630f6209d14b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 100/130] fix: run-error finds the constrained model that
 run-constrained saved

---
 esat/cli/esat_cli.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 5a1e6a6..7b10aeb 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -757,9 +757,7 @@ def run_error(project_directory, disp, bs, bsdisp):
         os.mkdir(error_dir)
 
     if e_config["project"]["constrained_config"] != "":
-        constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
-        c_solution = ConstrainedModel.load(file_path=constrained_pkl)
+        c_solution = get_constrained_model(project_directory=project_directory)
         logger.info("Using existing constrained model.")
         selected_i = -1
         selected_model = c_solution.constrained_model
-- 
2.43.0


From 109d96979f0ea2c3091da18327f291afdda721f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 101/130] fix: the error analysis commands accept one method,
 not all three at once

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7b10aeb..15d1895 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -864,7 +864,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if (disp, bs, bsdisp).count(True) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -894,7 +894,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if (disp, bs, bsdisp).count(True) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From fdedca47422bd4859da7118c26976d52a6e3dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 102/130] fix: BS-DISP runs on the features of its own section

---
 esat/cli/esat_cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 15d1895..d65c8de 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -805,10 +805,9 @@ def run_error(project_directory, disp, bs, bsdisp):
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
-        logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
         logger.info(f"Running BSDISP on model {selected_i}, features: {features_label}")
         _bs = None
         if e_config["bsdisp"]["bootstrap_output"] != "":
-- 
2.43.0


From 61408e6127ea20365749f1a834bfb5b615530e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 103/130] fix: BS-DISP without --bs runs its own bootstrap

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index d65c8de..0c03b4e 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -815,7 +815,7 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
+        elif bs:
             _bs = bs
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
-- 
2.43.0


From f528565b368e7c7aaea3e50e7447c4f6ee13c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 104/130] fix: analysis-input plot-timeseries plots the feature
 asked for

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 0c03b4e..feb8650 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -420,7 +420,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
-    dh.plot_feature_timeseries(feature_selection=list(feature_idx))
+    dh.plot_feature_timeseries(feature_selection=[feature_idx])
 
 
 @esat_cli.command()
-- 
2.43.0


From fb1ddbcc31766036c5ed33315780980a436506cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 105/130] fix: the default factors of the plotting commands
 exist, factors count from one

---
 esat/cli/esat_cli.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index feb8650..51058a2 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -581,7 +581,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile.", show_default=True)
 def solution_factor_profile(project_directory, selected_model, factor_idx):
     """
     Plot the factor profile for a specified factor index (factor_idx) and solution model (selected_model).
@@ -620,9 +620,9 @@ def solution_factor_fingerprints(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-x', "--factor_idx1", default=0, type=int, help="The index of the x-axis factor profile.",
+@click.option('-x', "--factor_idx1", default=1, type=int, help="The index of the x-axis factor profile.",
               show_default=True)
-@click.option('-y', "--factor_idx2", default=1, type=int, help="The index of the y-axis factor profile.",
+@click.option('-y', "--factor_idx2", default=2, type=int, help="The index of the y-axis factor profile.",
               show_default=True)
 def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2):
     """
@@ -682,7 +682,7 @@ def solution_factor_composition(project_directory, selected_model):
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
-@click.option('-i', "--factor_idx", default=0, type=int, help="The index of the factor profile.", show_default=True)
+@click.option('-i', "--factor_idx", default=1, type=int, help="The index of the factor profile.", show_default=True)
 @click.option('-f', "--feature_idx", type=int, multiple=True, help="The index/indices of the factor feature to "
                                                                    "include. Default: -1, includes all features which "
                                                                    "contribution to the factor_idx. Multiple indices"
@@ -883,7 +883,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
               help="Summarize the bootstrap (BS) error estimation results.")
 @click.option("--bsdisp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the bootstrap-displacement (BSDISP) error estimation results.")
-@click.option("--factor_idx", default=0, type=int, help="The factor index to display results.")
+@click.option("--factor_idx", default=1, type=int, help="The factor index to display results.")
 def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     """
     Show the results of an error estimation method. One method must be selected.
@@ -1061,7 +1061,7 @@ def constrained_evaluate_expressions(project_directory):
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
+@click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
     Display a specified factor profile and contributions plot for the constrained model solution.
@@ -1092,8 +1092,8 @@ def constrained_factor_fingerprints(project_directory):
 
 @analysis_constrained.command(name="plot-gspace")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
-@click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
+@click.option('-x', "--factor_idx1", default=1, type=int, show_default=True, help="The factor index for the x-axis.")
+@click.option('-y', "--factor_idx2", default=2, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
               help="Show the base solution values.")
 @click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
@@ -1113,7 +1113,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
+@click.option('-i', "--feature_idx", default=1, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
-- 
2.43.0


From e78102c1ece49c456a7865d7375225e98ee073ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 106/130] fix: the constrained profile command is not hidden by
 a second one of the same name

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 51058a2..bbf938e 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1059,7 +1059,7 @@ def constrained_evaluate_expressions(project_directory):
     c_model.evaluate_expressions()
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-profile")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=1, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
@@ -1114,7 +1114,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=1, type=int, show_default=True, help="The feature index to display.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From a3bd7348b9d64018ad5bb5920571e0d0de689a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 107/130] fix: plot-surface plots each of the features given

---
 esat/cli/esat_cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index bbf938e..bbf3e50 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -697,13 +697,14 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
     project_directory : The project directory containing .toml configuration files.
 
     """
-    feature_idx = feature_idx if len(feature_idx) > 0 else -1
     ma, selected_i = get_model_analysis(project_directory=project_directory, selected_model=selected_model)
     factor_idx = factor_idx if factor_idx != -1 else None
-    feature_idx = feature_idx if feature_idx != -1 else None
+    feature_idx = [f for f in feature_idx if f != -1]
     logger.info(f"ESAT Solution Factor Surface for model: {selected_i}, factor index: {factor_idx}, "
                 f"feature index: {feature_idx}")
-    ma.plot_factor_surface(feature_idx=feature_idx, factor_idx=factor_idx)
+    # without a factor each feature is plotted for all factors, otherwise all features of the factor are shown
+    for f_idx in (feature_idx if factor_idx is None and len(feature_idx) > 0 else [None]):
+        ma.plot_factor_surface(feature_idx=f_idx, factor_idx=factor_idx)
 
 
 @esat_cli.command()
-- 
2.43.0


From b2886eb3b42b40613e29bc3697bb1785b9cf3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 108/130] fix: show_base and show_delta show what they name

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index bbf3e50..0fbe39f 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1095,9 +1095,9 @@ def constrained_factor_fingerprints(project_directory):
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=1, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=2, type=int, show_default=True, help="The factor index for the y-axis.")
-@click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_base/--hide_base", default=True, show_default=True,
               help="Show the base solution values.")
-@click.option("--show_delta", is_flag=True, default=True, type=bool, show_default=True,
+@click.option("--show_delta/--hide_delta", default=True, show_default=True,
               help="Show the change between the constrained solution values and  the base solution values")
 def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base, show_delta):
     """
-- 
2.43.0


From 3010c13c5f1174a033e5ddc19aee26b7bbc014cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 109/130] fix: a simulated project runs on the synthetic data
 it generated and saved

---
 esat/cli/esat_cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 0fbe39f..0930e50 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -204,8 +204,8 @@ def setup_sim(project_directory):
     logger.info(f"New simulator configuration file created. File path: {new_sim_config_file}")
     new_config = run_config
     new_config['project']['directory'] = project_directory
-    new_config['data']['input_path'] = new_sim_config['data']['input_path']
-    new_config['data']['uncertainty_path'] = new_sim_config['data']['uncertainty_path']
+    new_config['data']['input_path'] = os.path.join(project_directory, new_sim_config['data']['input_path'])
+    new_config['data']['uncertainty_path'] = os.path.join(project_directory, new_sim_config['data']['uncertainty_path'])
     new_config_file = os.path.join(project_directory, "run_config.toml")
     with open(new_config_file, 'w') as configfile:
         new_config.write(configfile)
@@ -440,7 +440,7 @@ def estimate(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
         dh = get_dh(**config["data"])
@@ -471,7 +471,7 @@ def run(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-- 
2.43.0


From 3d69b337d370fc1884ecfb066633d797feab5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 110/130] fix: a configuration file can turn off the outliers
 of the simulator

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index d1b6e41..4d4afef 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -88,14 +88,14 @@ class Simulator:
                  ):
         self.seed = int(seed)
         self.rng = np.random.default_rng(self.seed)
-        self.verbose = verbose
+        self.verbose = verbose.lower() == "true" if isinstance(verbose, str) else verbose
         self.factors_n = int(factors_n)
         self.features_n = int(features_n)
         self.samples_n = int(samples_n)
         self.syn_columns = [f"Feature {i}" for i in range(1, self.features_n+1)]
         self.syn_factor_columns = [f"Factor {i}" for i in range(1, self.factors_n+1)]
 
-        self.outliers = outliers
+        self.outliers = outliers.lower() == "true" if isinstance(outliers, str) else outliers
         self.outlier_p = float(outlier_p)
         self.outlier_mag = float(outlier_mag)
         self.noise_mean_min = float(noise_mean_min)
-- 
2.43.0


From 202f0294b2c1bf44e52b826bd96c34cf428afb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 111/130] fix: a configuration file can turn off init_norm

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index df78e59..717b6ca 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -112,7 +112,7 @@ class BatchSA:
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
-        self.init_norm = bool(init_norm)
+        self.init_norm = init_norm.lower() == "true" if isinstance(init_norm, str) else bool(init_norm)
         self.hold_h = hold_h
         self.delay_h = delay_h
         self.use_gpu = use_gpu
-- 
2.43.0


From 00b4116a491908a8f91d70c49e74555e461a6248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 112/130] fix: constrained expressions are solved towards zero,
 as documented, instead of towards the sum of their elements

---
 esat/rotational/constrained.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 9d0c5a5..cfba015 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -374,41 +374,37 @@ class ConstrainedModel:
             return np.zeros(shape=iW.shape), np.zeros(shape=iH.shape)
 
         exp_A = np.zeros(shape=(len(self.expression_labeled), len(self.expression_mapped.keys())))
-        exp_B = np.zeros(shape=len(self.expression_labeled))
+        exp_values = np.zeros(shape=len(self.expression_mapped.keys()))
 
         # If there are expressions.
         if len(self.expression_labeled) > 0:
-            min_value = np.inf
             total_dQ = 0
 
             # Set the values of the expression matrix, from the coefficients in the expressions.
-            # Set the expression total vector to the sum of the expression values from the factor elements in the expression
+            # Set the expression value vector to the current values of the factor elements in the expressions.
             for i, exp in enumerate(self.expression_labeled):
                 total_dQ += exp[1]
-                exp_b = 0
                 for ele in exp[0]:
                     exp_details = self.expression_mapped[ele]
                     if exp_details['type'] == 'feature':
                         e_value = iH[exp_details['index']]
                     else:
                         e_value = iW[(exp_details['index'][1], exp_details['index'][0])]
-                    exp_b += e_value
-                    if e_value < min_value:
-                        min_value = e_value
                     exp_index = exp_details['exp_i'].index(i)
                     coef_index = exp_details['coef_index']
                     coef_value = float(exp_details['coef'][exp_index])
                     exp_A[i, coef_index] = coef_value
-                exp_B[i] = exp_b
+                    exp_values[coef_index] = e_value
 
-            # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
-            exp_bounds = (1e-8, max(np.max(exp_B), 1e-6))
-            exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
+            # Solve for the smallest change with which all expressions are equal to zero, using a least squares solver
+            # from scipy.optimize (with the changed values bounded to be positive).
+            exp_bounds = (1e-8 - exp_values, np.inf)
+            exp_X = optimize.lsq_linear(exp_A, -np.matmul(exp_A, exp_values), bounds=exp_bounds, method='bvls')
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
             for lbl, exp in self.expression_mapped.items():
                 coef_index = exp['coef_index']
-                ele_value = exp_X.x[coef_index]
+                ele_value = exp_values[coef_index] + exp_X.x[coef_index]
                 ele_index = exp['index']
                 if exp['type'] == 'feature':
                     D_h[ele_index] = ele_value
-- 
2.43.0


From 01b87d99fc5842a8cd07d90147a2f83fabb215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 113/130] fix: the estimate table of a compared model is the
 model's estimate, not its values reordered

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 540a3a0..907ea1c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -229,11 +229,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From 8478acd593c464a35a7ac06dbd4b3565e9e49c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 114/130] fix: the recommended block size is at least one
 sample

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4a795af..ce203d0 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -437,7 +437,7 @@ class DataHandler:
                 optimal_block = []
                 for opt in optimal_blocks:
                     optimal_block.append(opt.b_star_cb)
-                self.optimal_block = math.floor(np.mean(optimal_block))
+                self.optimal_block = max(1, math.floor(np.mean(optimal_block)))
         except ValueError as e:
             self.optimal_block = int(input_data.shape[1]/5)
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
-- 
2.43.0


From 86e1acfb3f42f5466713dd25abc2544cd92f5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 115/130] fix: the default block size is a share of the
 samples, not of the features

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ce203d0..8e84e59 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -439,7 +439,7 @@ class DataHandler:
                     optimal_block.append(opt.b_star_cb)
                 self.optimal_block = max(1, math.floor(np.mean(optimal_block)))
         except ValueError as e:
-            self.optimal_block = int(input_data.shape[1]/5)
+            self.optimal_block = max(1, int(input_data.shape[0]/5))
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
 
     def _aggregate_data(self):
-- 
2.43.0


From 9b763cb626e121ba23a71719a02b8a5e2fe1ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 116/130] fix: the largest significant lag of the block length
 selection counts lags from one

---
 esat/model/recombinator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/recombinator.py b/esat/model/recombinator.py
index 97516a0..19dc4ca 100644
--- a/esat/model/recombinator.py
+++ b/esat/model/recombinator.py
@@ -168,7 +168,7 @@ def optimal_block_length(data: np.ndarray) -> tp.Sequence[OptimalBlockLength]:
             # this means that NO collection of kn auto-correlations were all
             # insignificant, so pick largest significant lag
             m_hat = max(
-                np.flatnonzero(np.abs(temp) > (c * np.sqrt(np.log10(n) / n))))
+                np.flatnonzero(np.abs(temp) > (c * np.sqrt(np.log10(n) / n)))) + 1
         else:
             # if more than one collection is possible, choose the smallest m
             m_hat = temp3[0, 0]
-- 
2.43.0


From c2af394bd865256f1cbe16592e1532a03037e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 117/130] fix: the PMF5 comparison of factor profiles shows
 solutions with more than six factors

---
 esat/data/test_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 6c799d4..0b682fa 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -128,8 +128,7 @@ class CompareAnalyzer:
 
     def plot_factors(self):
 
-        profile_subplot = make_subplots(rows=6, cols=1, specs=[[{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}],
-                                                               [{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}]])
+        profile_subplot = make_subplots(rows=self.factor_n, cols=1, specs=[[{"type": "bar"}]] * self.factor_n)
 
         pmf_norm = self._standardize(data=self.pmf_profile_df, include_features=False)
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=False)
-- 
2.43.0


From 4b7eaebf8f4a160c7a4a8b6436ab346e2ea6007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 118/130] fix: the correlations in the titles of the
 fingerprints are optional

---
 esat/data/test_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 0b682fa..3e1f3bf 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -78,7 +78,7 @@ class CompareAnalyzer:
         profile_subplot.layout.height = 600
         profile_subplot.show()
 
-    def plot_fingerprints(self, ls_nmf_r2: -1, ws_nmf_r2: -1):
+    def plot_fingerprints(self, ls_nmf_r2: float = -1, ws_nmf_r2: float = -1):
         pmf_fp = []
         ws_fp = []
         ls_fp = []
-- 
2.43.0


From 5eadf54038060674b61886108b333a31ee2431d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 119/130] fix: the factor contributions of a feature are found
 when the features are given as a list

---
 esat/data/test_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 3e1f3bf..4164b59 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -60,9 +60,9 @@ class CompareAnalyzer:
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=True)
         ws_norm = self._standardize(data=self.ws_profile_df, include_features=True)
 
-        pmf_feature_profile = pmf_norm[self.features == feature]
-        ls_feature_profile = ls_norm[self.features == feature]
-        ws_feature_profile = ws_norm[self.features == feature]
+        pmf_feature_profile = pmf_norm[pmf_norm["features"] == feature]
+        ls_feature_profile = ls_norm[ls_norm["features"] == feature]
+        ws_feature_profile = ws_norm[ws_norm["features"] == feature]
 
         pmf_pie = go.Pie(labels=self.factor_columns, values=pmf_feature_profile[self.factor_columns].values[0], name="PMF")
         ls_pie = go.Pie(labels=self.factor_columns, values=ls_feature_profile[self.factor_columns].values[0], name="LS-NMF")
-- 
2.43.0


From 3f5377b3edd0151ba7600fb2ec13b0d04ea211ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 120/130] fix: the optimised training reads its matrices as
 they are, whatever their memory order

---
 esat/model/sa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index dd12e0b..1639228 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -399,11 +399,11 @@ class SA:
             t0 = time.time()
             try:
                 results_dict = self.optimized_update(
-                    self.V.astype(np.float32),
-                    self.U.astype(np.float32),
-                    self.We.astype(np.float32),
-                    self.W.astype(np.float32),
-                    self.H.astype(np.float32),
+                    self.V.astype(np.float32, order='F'),     # read column by column
+                    self.U.astype(np.float32, order='F'),
+                    self.We.astype(np.float32, order='F'),
+                    self.W.astype(np.float32, order='C'),     # read row by row
+                    self.H.astype(np.float32, order='C'),
                     max_iter,
                     converge_delta,
                     converge_n,
-- 
2.43.0


From 71d6157f61c2dd66ee3308c9573b4d8127040aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 121/130] fix: a replacement of the update step is used
 although the optimised training is available

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 1639228..97cd9d8 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -395,7 +395,7 @@ class SA:
         self.converged = False
         self.converge_steps = 0
 
-        if self.optimized:
+        if self.optimized and update_step is None:
             t0 = time.time()
             try:
                 results_dict = self.optimized_update(
-- 
2.43.0


From fbfa4267898bb1acdd6cd2563dc1c85a70493b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 122/130] fix: the optimised training accepts model numbers
 above 127

---
 rust/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9412944..3e661a9 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -203,7 +203,7 @@ fn ls_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -306,7 +306,7 @@ fn ls_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -417,7 +417,7 @@ fn ls_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -537,7 +537,7 @@ fn ws_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -638,7 +638,7 @@ fn ws_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -788,7 +788,7 @@ fn ws_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
-- 
2.43.0


From 25da516d7cc8be638236f01bce4ce7cabc8c62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 123/130] fix: ws-nmf solves for W when profiles are equal,
 whose normal matrix is singular only up to rounding

---
 esat/model/ws_nmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index ecc6cc2..5776048 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -58,8 +58,8 @@ class WSNMF:
             _w_d = np.matmul(H, uh)
             _w_dm = np.array(_w_d)
             # _w_dm = np.matrix(_w_d)
-            if npl.det(_w_dm) == 0:
-                _w_di = npl.pinv(_w_dm)
+            if npl.det(_w_dm) <= 1e-12 * np.prod(np.diag(_w_dm)):     # singular, up to rounding
+                _w_di = npl.pinv(_w_dm, rcond=1e-13)
             #     _w_di = np.array(npl.pinv(_w_dm))
             else:
                 _w_di = npl.inv(_w_dm)
-- 
2.43.0


From f4a8ba86506354a62dbffec83fc49b2084a5f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 124/130] Revert "fix: the factor contributions of a feature
 are found when the features are given as a list"

This reverts commit 5eadf54038060674b61886108b333a31ee2431d9.
---
 esat/data/test_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 4164b59..3e1f3bf 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -60,9 +60,9 @@ class CompareAnalyzer:
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=True)
         ws_norm = self._standardize(data=self.ws_profile_df, include_features=True)
 
-        pmf_feature_profile = pmf_norm[pmf_norm["features"] == feature]
-        ls_feature_profile = ls_norm[ls_norm["features"] == feature]
-        ws_feature_profile = ws_norm[ws_norm["features"] == feature]
+        pmf_feature_profile = pmf_norm[self.features == feature]
+        ls_feature_profile = ls_norm[self.features == feature]
+        ws_feature_profile = ws_norm[self.features == feature]
 
         pmf_pie = go.Pie(labels=self.factor_columns, values=pmf_feature_profile[self.factor_columns].values[0], name="PMF")
         ls_pie = go.Pie(labels=self.factor_columns, values=ls_feature_profile[self.factor_columns].values[0], name="LS-NMF")
-- 
2.43.0


From ea88cf45db3c0afc59873816da1306ad29ed6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 125/130] Revert "fix: the correlations in the titles of the
 fingerprints are optional"

This reverts commit 4b7eaebf8f4a160c7a4a8b6436ab346e2ea6007d.
---
 esat/data/test_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 3e1f3bf..0b682fa 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -78,7 +78,7 @@ class CompareAnalyzer:
         profile_subplot.layout.height = 600
         profile_subplot.show()
 
-    def plot_fingerprints(self, ls_nmf_r2: float = -1, ws_nmf_r2: float = -1):
+    def plot_fingerprints(self, ls_nmf_r2: -1, ws_nmf_r2: -1):
         pmf_fp = []
         ws_fp = []
         ls_fp = []
-- 
2.43.0


From 7ca97f3bd0131d8915d230f809aecfd5319b075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 126/130] Revert "fix: the PMF5 comparison of factor profiles
 shows solutions with more than six factors"

This reverts commit c2af394bd865256f1cbe16592e1532a03037e053.
---
 esat/data/test_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/test_tools.py b/esat/data/test_tools.py
index 0b682fa..6c799d4 100644
--- a/esat/data/test_tools.py
+++ b/esat/data/test_tools.py
@@ -128,7 +128,8 @@ class CompareAnalyzer:
 
     def plot_factors(self):
 
-        profile_subplot = make_subplots(rows=self.factor_n, cols=1, specs=[[{"type": "bar"}]] * self.factor_n)
+        profile_subplot = make_subplots(rows=6, cols=1, specs=[[{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}],
+                                                               [{"type": "bar"}], [{"type": "bar"}], [{"type": "bar"}]])
 
         pmf_norm = self._standardize(data=self.pmf_profile_df, include_features=False)
         ls_norm = self._standardize(data=self.ls_profile_df, include_features=False)
-- 
2.43.0


From 672f72ebf2b347df8017770f2ddae6a73191d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:04 +0000
Subject: [PATCH 127/130] fix: a parallel batch reports progress to any
 callable, its workers send their reports through the queue

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 717b6ca..878d1af 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -248,7 +248,7 @@ class BatchSA:
                         input_parameters.append((
                             _sa, i, progress_queue, log_queue,
                             self.max_iter, self.converge_delta, self.converge_n,
-                            self.update_step, self.hold_h, self.delay_h, self.progress_callback
+                            self.update_step, self.hold_h, self.delay_h, None     # reports go through the queue
                         ))
                     logger.info("Input parameters for multiprocessing prepared.")
 
-- 
2.43.0


From 0c43e2034712cb3ed22fb59dc1cfd8e7f98c99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 128/130] fix: a training of a day or more, or a fraction of a
 second over, exceeds the time limit of a batch

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 878d1af..6ddbe7c 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -308,7 +308,7 @@ class BatchSA:
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-                        if min_limit and t_delta.seconds / 60 > min_limit:
+                        if min_limit and t_delta.total_seconds() / 60 > min_limit:
                             logger.warning(f"SA model training time exceeded specified runtime limit.")
                             return False, f"Error: Model train time: {t_delta} exceeded runtime limit: {min_limit} min(s)"
                         if run == -1:
-- 
2.43.0


From c85ccacbf8f5e3636ed2781b0cbf39894fc59797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 129/130] fix: text columns that are excluded or name a
 location do not prevent loading a dataset

---
 esat/data/datahandler.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 8e84e59..4f1e4fa 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -291,8 +291,8 @@ class DataHandler:
         # Drop columns if specified, and the text column added by merge
         drop_col = [] if self.drop_col is None else [self.drop_col] if isinstance(self.drop_col, str) else list(self.drop_col)
         drop_col = drop_col + [col for col in ("source_label",) if col in self.input_data.columns]
-        _input_data = copy.copy(self.input_data.drop(labels=drop_col, axis=1)).astype("float32")
-        _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=drop_col, axis=1)).astype("float32")
+        _input_data = self.input_data.drop(labels=drop_col, axis=1)
+        _uncertainty_data = self.uncertainty_data.drop(labels=drop_col, axis=1)
 
         # Drop location columns if specified
         if self.loc_cols is not None:
@@ -300,6 +300,8 @@ class DataHandler:
                 self.loc_cols = [self.loc_cols]
             _input_data = _input_data.drop(labels=self.loc_cols, axis=1)
             _uncertainty_data = _uncertainty_data.drop(labels=self.loc_cols, axis=1)
+        _input_data = copy.copy(_input_data).astype("float32")
+        _uncertainty_data = copy.copy(_uncertainty_data).astype("float32")
 
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
@@ -399,11 +401,11 @@ class DataHandler:
         self.input_data = self.input_data[~nan_rows]
         self.uncertainty_data = self.uncertainty_data[~nan_rows]
 
-        self.min_values = self.input_data.min(axis=0)
-        self.max_values = self.input_data.max(axis=0)
+        c_df = self._numeric(self.input_data).copy()
+        u_df = self._numeric(self.uncertainty_data).copy()
 
-        c_df = self.input_data.copy()
-        u_df = self.uncertainty_data.copy()
+        self.min_values = c_df.min(axis=0)
+        self.max_values = c_df.max(axis=0)
 
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
@@ -422,6 +424,15 @@ class DataHandler:
             data={"Category": categories, "S/N": sn, "Min": min_con, "25th": p25, "50th": median_con, "75th": p75,
                   "Max": max_con})
 
+    @staticmethod
+    def _numeric(data: pd.DataFrame) -> pd.DataFrame:
+        """
+        The columns of a dataset without those that hold text: excluded columns or names of locations, which have no
+        statistics.
+        """
+        text = [col for col in data.columns if data[col].map(type).eq(str).any()]
+        return data.drop(labels=text, axis=1) if len(text) > 0 else data
+
     def _determine_optimal_block(self, input_data=None):
         """
         Runs the recombinator code to obtain the optimal block size for Bootstrap based upon the Politis and White 2004
@@ -430,7 +441,7 @@ class DataHandler:
         Sets the self.optimal_block parameter by taking the average value of b_star_cb of each feature.
         """
         if input_data is None:
-            input_data = self.input_data.to_numpy()
+            input_data = self._numeric(self.input_data).to_numpy()
         try:
             with np.errstate(divide='ignore', invalid='ignore'):
                 optimal_blocks = optimal_block_length(input_data)
@@ -454,13 +465,13 @@ class DataHandler:
             return
         n_samples = len(self.input_data)
         if n_samples <= self.max_plotting_n:
-            self.input_data_plot = self.input_data
-            self.uncertainty_data_plot = self.uncertainty_data
+            self.input_data_plot = self._numeric(self.input_data)
+            self.uncertainty_data_plot = self._numeric(self.uncertainty_data)
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
         agg_input = {}
         agg_uncertainty = {}
-        for col in self.input_data.columns:
+        for col in self._numeric(self.input_data).columns:
             quantiles = self.input_data[col].quantile(bins)
             # labels are positions, repeated quantiles result in fewer bins than max_plotting_n
             binned = np.searchsorted(np.unique(quantiles)[1:-1], self.input_data[col].to_numpy())
-- 
2.43.0


From fab1fc4ea4137e2ff6ab5a97ffcd03093f12057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 130/130] fix: a batch with a failed model can be added to the
 factor catalog

---
 eval/factor_catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index d7c9233..3a7cf9a 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -333,12 +333,15 @@ class FactorCatalog:
         if self.exclude_outliers:
             loss_list = []
             for model in batch_results.results:
-                loss_list.append(model.Qtrue)
-            loss_min = np.min(loss_list)
+                if model is not None:
+                    loss_list.append(model.Qtrue)
+            loss_min = np.min(loss_list, initial=np.inf)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
         for i in trange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
+            if model is None:
+                continue
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
                     continue
-- 
2.43.0

