From 417e340bc6076f98f6d2a1c5cd351b3d66718034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 01/55] fix: Louvain started from an explicit initial partition
 mixed up clusters and nodes

---
 src/flowstab/network_clustering.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..f9e6f5c 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -950,6 +950,10 @@ class BaseClustering:
                 print("       PID ", os.getpid(),
                       f" finished meta loop: {n_meta_loop}, number of total sub loops: {n_sub_loops}")
 
+            if n_meta_loop == 1:
+                # the first meta clustering acts on the original nodes
+                self._update_to_singletons()
+
             #update original node partition
             self._update_original_partition(meta_clustering)
 
@@ -1036,6 +1040,11 @@ class BaseClustering:
         self.source_part = self._get_updated_partition(self.source_part,
                                                      meta_clustering.source_part)
 
+    def _update_to_singletons(self):
+
+        self.target_part = Partition(num_nodes=self.num_nodes)
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _update_to_fullpart(self):
 
         self.target_part = Partition(num_nodes=self.num_nodes,
@@ -1441,6 +1450,10 @@ class Clustering(BaseClustering):
         self.source_part = self._get_updated_partition(self.source_part,
                                                      meta_clustering.source_part)
 
+    def _update_to_singletons(self):
+
+        self.source_part = Partition(num_nodes=self.num_nodes)
+
     def _update_to_fullpart(self):
 
         self.source_part = Partition(num_nodes=self.num_nodes,
-- 
2.43.0


From fa9c9d2e108f9713f8d6f9b19890724a59716c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 02/55] fix: integral_time_grid raised a TypeError with recent
 numpy

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index f9e6f5c..015efb2 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1916,7 +1916,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
-- 
2.43.0


From 6bb8b40775f101e2185c1497970515633db7a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 03/55] fix: jaccard_distance did not return the distance

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 015efb2..a819a72 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2195,6 +2195,12 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    if same + diff == 0:
+        # no pair is grouped together in either of the clusterings
+        return 0.0
+
+    return diff/(same + diff)
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From 5a9b0980d45d92e1f6eb8a93c07408f949b3c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 04/55] fix: stability gain of a node with an empty row read
 the next row or past the end

---
 src/flowstab/_cython_sparse_stoch.pyx | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..5ee008d 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -771,13 +771,15 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    # row k may be empty
+    if j < PTindptr[k+1]:
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
@@ -861,13 +863,15 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    # row k may be empty
+    if j < PTindptr[k+1]:
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
     
-- 
2.43.0


From 3a95bde0370591c3ddcc7f9a5c876c45b93bc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 05/55] fix: row normalization changed the index type and broke
 later operations on the matrix

---
 src/flowstab/sparse_stoch_mat.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..58c7418 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -223,10 +223,8 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +569,15 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        X_indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, X_indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, X_indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From 54a2c99a0a688863e5c516964aaeed7cd0c8917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:40 +0000
Subject: [PATCH 06/55] fix: SparseAutocovMat accepted invalid p1 and p2 and
 rejected numpy scalars

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 58c7418..053192e 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -695,11 +695,11 @@ class SparseAutocovMat:
             assert PT.shape[0] == PT.shape[1] == p1.size == p2.size,\
                 f"PT.shape[0]={PT.shape[0]}, PT.shape[1]={PT.shape[1]}, p1.size={p1.size}, p2.size={p2.size}"
             self.p_scalars = False
-        elif isinstance(p1, (float,int)) and isinstance(p2, (float,int)):
+        elif isinstance(p1, (float,int,np.number)) and isinstance(p2, (float,int,np.number)):
             self.p_scalars = True
             self.p1p2 = p1*p2
         else:
-            TypeError("p1 and p2 must be two 1D arrays or two scalar")
+            raise TypeError("p1 and p2 must be two 1D arrays or two scalar")
 
 
         self.PT = PT
-- 
2.43.0


From 8ee617dffd6e0e6aa6051a639669863d95ffc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:55 +0000
Subject: [PATCH 07/55] fix: windowed computations raised a TypeError with
 recent numpy

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 991c485c2047b4fcbb4db5d233e4a0f394386734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:55 +0000
Subject: [PATCH 08/55] fix: a contact ended while another event of the same
 pair was still going on

---
 src/flowstab/temporal_network.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..e2d9a7c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -23,6 +23,7 @@ import gzip
 import os
 import pickle
 import time
+from collections import Counter
 from functools import partial
 
 import numpy as np
@@ -1192,6 +1193,8 @@ class ContTempNetwork:
         Dm1 = I.copy()
         # self loop matrix
         S = I.copy()
+        # number of ongoing events for each pair of nodes
+        num_ongoing = Counter()
 
 
         self.laplacians = []
@@ -1232,6 +1235,8 @@ class ContTempNetwork:
             for event in self.events_table.loc[mask_ini][["source_nodes",
                                           "target_nodes"]].itertuples():
 
+                num_ongoing[frozenset((event.source_nodes, event.target_nodes))] += 1
+
                 if A[event.source_nodes, event.target_nodes] != 1:
                         A[event.source_nodes, event.target_nodes] = 1
                         A[event.target_nodes, event.source_nodes] = 1
@@ -1279,8 +1284,11 @@ class ContTempNetwork:
 
             #update instantaneous matrices
             for event, is_start in zip(events_k, is_starts):
+                pair = frozenset((event.source_nodes, event.target_nodes))
+                num_ongoing[pair] += 1 if is_start else -1
+
                 # unweighted, undirected
-                if is_start:
+                if num_ongoing[pair] > 0:
                     # if they are not already connected (can happen if the
                     # opposite event overlap)
                     if A[event.source_nodes, event.target_nodes] != 1:
-- 
2.43.0


From 289974addec9820df9480b869dc0678f51abd83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 09/55] fix: node relabelling was not applied to a given events
 table and failed for a csv file

---
 src/flowstab/temporal_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e2d9a7c..846af14 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -176,7 +176,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # a copy, the table is completed and relabelled below
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -186,10 +187,14 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+
+                for nodes in ["source_nodes", "target_nodes"]:
+                    self.events_table[nodes] = [self.label_to_node_dict[n] for \
+                                                n in self.events_table[nodes].tolist()]
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From b57fef0800fe58266e83f08e324ab0066096addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 10/55] fix: ContTempInstNetwork could not be created from an
 events table

---
 src/flowstab/temporal_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 846af14..e41c566 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1982,6 +1982,10 @@ class ContTempInstNetwork(ContTempNetwork):
                              merge_overlapping_events=False,
                              events_table=events_table)
 
+        else:
+            super().__init__(relabel_nodes=relabel_nodes,
+                             node_to_label_dict=node_to_label_dict,
+                             events_table=events_table)
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
         self.instantaneous_events = True
-- 
2.43.0


From 40e2cc51d5159e2c8d06477633b370d7712e9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 11/55] fix: merging overlapping events shortened contacts with
 nested events and left wrong durations

---
 src/flowstab/temporal_network.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e41c566..18f7f65 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1820,28 +1820,33 @@ class ContTempNetwork:
 
                 # event to compare
                 ev1 = evs_list[0]
+                ev1_end = ev1.ending_times
                 merged = 0
                 for k in range(1,len(evs_list)):
                     ev2 = evs_list[k]
                     # if ev2 overlaps with ev1, merge them, otherwise ev2 becomes
                     # ev1
-                    if ev2.starting_times < ev1.ending_times:
+                    if ev2.starting_times < ev1_end:
                         #merge
-                        events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        events_to_keep[self.events_table.index == ev2.Index] = False
+                        ev1_end = max(ev1_end, ev2.ending_times)
+                        self.events_table.loc[ev1.Index,"ending_times"] = ev1_end
                         merged += 1
                     else:
                         ev1 = ev2
+                        ev1_end = ev1.ending_times
                 logger.info(f"n1,n2 ({n1},{n2}): {merged} merged")
 
         num_merged = (events_to_keep == False).sum()
         logger.info(f"Merged {num_merged} events.")
 
-        self.events_table = self.events_table.loc[events_to_keep]
+        self.events_table = self.events_table.loc[events_to_keep].copy()
 
         self.events_table.reset_index(inplace=True, drop=True)
 
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
+
         self.num_nodes = self.node_array.shape[0]
 
         self.num_events = self.events_table.shape[0]
-- 
2.43.0


From c7183a8764a8adb2d6b162ce8acc6e6fa12c5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:22 +0000
Subject: [PATCH 12/55] fix: negative differences between consecutive
 transition matrices were dropped when saving deltas

---
 src/flowstab/temporal_network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 18f7f65..5f71037 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1882,7 +1882,7 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1910,7 +1910,7 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -2672,7 +2672,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                               use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From fd2dd6050150398c225e344ed496728cc0dc5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:22 +0000
Subject: [PATCH 13/55] fix: saving the transition matrices of all lamdas
 failed

---
 src/flowstab/temporal_network.py | 56 ++++++++++----------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5f71037..255cc71 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -495,34 +495,24 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
-                                "inter_T must not be SparseStochMat"
+                if lamda is None:
+                    lamdas = list(self.inter_T.keys())
+                else:
+                    lamdas = [lamda]
 
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
+                                      SparseStochMat),\
+                                    "inter_T must not be SparseStochMat"
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                    if lamda not in getattr(self, "delta_inter_T", {}):
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -617,19 +607,14 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    lamdas = list(self.inter_T_lin.keys())
+                else:
+                    lamdas = [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                for lamda in lamdas:
+                    if lamda not in getattr(self, "delta_inter_T_lin", {}):
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
 
@@ -639,11 +624,6 @@ class ContTempNetwork:
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -662,7 +642,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
-- 
2.43.0


From a7a86de911e057a5077de5f68f351d352eaf23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:22 +0000
Subject: [PATCH 14/55] fix: linear transition matrices of a window without
 events failed in the compressed format

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 255cc71..b59887f 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1545,7 +1545,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From bdd055c53f8503c53cb6ee9767a29068b92f9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 15/55] fix: matrices of a previous time window were reused
 after recomputing the laplacians

---
 src/flowstab/temporal_network.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index b59887f..6988ee9 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1125,6 +1125,19 @@ class ContTempNetwork:
         return t, k
 
 
+    def _clear_computed_matrices(self):
+        """Removes the matrices that were computed from previous laplacians"""
+        for mat in ["adjacencies",
+                    "inter_T",
+                    "inter_T_lin",
+                    "T",
+                    "T_lin",
+                    "_stationary_trans",
+                    "delta_inter_T",
+                    "delta_inter_T_lin"]:
+            if hasattr(self, mat):
+                delattr(self, mat)
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1161,6 +1174,8 @@ class ContTempNetwork:
         """
         logger.info("Computing Laplacians")
 
+        self._clear_computed_matrices()
+
         if not hasattr(self, "time_grid"):
             self._compute_time_grid()
 
@@ -1993,6 +2008,8 @@ class ContTempInstNetwork(ContTempNetwork):
         """
         logger.info("Computing Laplacians")
 
+        self._clear_computed_matrices()
+
         if not hasattr(self, "time_grid"):
             self._compute_time_grid()
 
-- 
2.43.0


From 3e328dcc7f6deed9ea35d962e411d046a7285c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:55 +0000
Subject: [PATCH 16/55] fix: transition matrices were reused for another time
 direction and thresholding changed inter_T

---
 src/flowstab/temporal_network.py | 43 +++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 6988ee9..e0ba43a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1590,6 +1590,10 @@ class ContTempNetwork:
 
         if not hasattr(self, "T"):
             self.T = dict()
+        if not hasattr(self, "_T_options"):
+            self._T_options = dict()
+
+        options = (save_intermediate, reverse_time, force_csr, tol)
 
         if reverse_time:
             k_init = len(self.inter_T[lamda])-1
@@ -1600,24 +1604,30 @@ class ContTempNetwork:
             k_range = range(1,len(self.inter_T[lamda]))
 
 
-        if lamda not in self.T.keys():
+        if lamda not in self.T.keys() or \
+                self._T_options.get(lamda, options) != options:
+            T0 = self.inter_T[lamda][k_init]
+            if tol is not None:
+                # thresholding is done in place
+                T0 = T0.copy()
+
             if save_intermediate:
                 if force_csr:
                     # forcing the first matrix to csr, will ensure that
                     # all products are done in csr format,
                     # since CSR @ SparseStochMat t is not implemented
-                    self.T[lamda] = [self.inter_T[lamda][k_init].tocsr()]
+                    self.T[lamda] = [T0.tocsr()]
                 else:
-                    self.T[lamda] = [self.inter_T[lamda][k_init]]
+                    self.T[lamda] = [T0]
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
                 if force_csr:
-                    self.T[lamda] = self.inter_T[lamda][k_init].tocsr()
+                    self.T[lamda] = T0.tocsr()
                 else:
-                    self.T[lamda] = self.inter_T[lamda][k_init]
+                    self.T[lamda] = T0
 
                 if tol is not None:
                     set_to_zeroes(self.T[lamda],tol)
@@ -1637,6 +1647,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
@@ -1660,6 +1671,7 @@ class ContTempNetwork:
             t_end = time.time()-t0
 
             self._compute_times[f"trans_matrix_{lamda}_rev{reverse_time}"] = t_end
+            self._T_options[lamda] = options
 
             logger.info(f"Finished in {t_end:.2f}s")
         logger.info(
@@ -1681,11 +1693,16 @@ class ContTempNetwork:
 
         if not hasattr(self, "T_lin"):
             self.T_lin = dict()
+        if not hasattr(self, "_T_lin_options"):
+            self._T_lin_options = dict()
 
         compute = True
 
+        options = (save_intermediate, reverse_time)
+
         if lamda in self.T_lin.keys():
-            if t_s in self.T_lin[lamda].keys():
+            if t_s in self.T_lin[lamda].keys() and \
+                    self._T_lin_options.get((lamda, t_s), options) == options:
                 compute = False
                 logger.info("Transition matrices already computed "
                             f"for lamda={lamda}, t_s={t_s}")
@@ -1704,16 +1721,12 @@ class ContTempNetwork:
             # initial conditions
             if lamda not in self.T_lin.keys():
                 self.T_lin[lamda] = dict()
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
 
-            if t_s not in self.T_lin[lamda].keys():
-                if save_intermediate:
-                    self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
-                else:
-                    self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
+            self._T_lin_options[(lamda, t_s)] = options
+            if save_intermediate:
+                self.T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k_init]]
+            else:
+                self.T_lin[lamda][t_s] = self.inter_T_lin[lamda][t_s][k_init]
 
             logger.info(
                 f"Computing transition matrix for lamda={lamda}, t_s={t_s}"
-- 
2.43.0


From 9822498985b701e217d70bdffecedf3d75b0e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 17/55] fix: a temporal network given at initialization or by
 assignment could not be analysed

---
 src/flowstab/flow_stability.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..88f95ac 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -227,6 +227,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if isinstance(temporal_network, ContTempNetwork):
             self._temporal_network = temporal_network
+            self.state.current = max(self.state.current, States.TEMP_NW)
             logger.info(
                 "Set the temporal network: "
                 f"{self.temporal_network}"
-- 
2.43.0


From a1ed3a3819c82af10d814875f17b9e0d1bba6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 18/55] fix: time scales given as an iterator were consumed
 when set

---
 src/flowstab/flow_stability.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 88f95ac..8046df0 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -46,9 +46,6 @@ ProcessException
 from __future__ import annotations
 from typing import Any, Iterable, Iterator
 
-from copy import copy
-
-
 import numpy as np
 
 from .logger import get_logger
@@ -314,8 +311,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # an iterator can only be consumed once, so we keep the values
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From 2fff60adda878c94785f15cd06c3802465c9162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 19/55] fix: time_scale and lamda arguments made
 compute_inter_transition_matrices fail

---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 8046df0..0da3c9c 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -519,9 +519,9 @@ class FlowStability(metaclass=StateMeta, states=States):
 
         _time_scale = None
         if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
+            _time_scale = kwargs.pop('time_scale')
         elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+            _time_scale = 1 / kwargs['lamda']
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From daa97d9766ed98decdfcdc9d94f178ee4c1f8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 20/55] fix: flow clustering used the times of the whole
 network for a time window

---
 src/flowstab/flow_stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 0da3c9c..3d9c158 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -646,7 +646,9 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self.temporal_network.times[
+                    self.temporal_network._k_start_laplacians:
+                    self.temporal_network._k_stop_laplacians+1],
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From 1ccc18df4d6ef637a34d90a0c40bbf6442522848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 21/55] fix: the Louvain clustering could not be run for a
 single time direction

---
 src/flowstab/flow_stability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 3d9c158..4b393fc 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -664,6 +664,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                self.flow_clustering_backward = (_ts, None)
             if self.time_direction >= 0:
                 logger.info(
                     f"\t- Creating the time forward clustering."
@@ -678,6 +680,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                self.flow_clustering_forward = (_ts, None)
             logger.info("-> done.")
         return self
 
-- 
2.43.0


From 70c3b3e106cd0b5c7aea2f37e4368d9a70ccb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 22/55] fix: flow clustering failed for the linear
 approximation and for the default time scale

---
 src/flowstab/flow_stability.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 4b393fc..de4a996 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -517,6 +517,9 @@ class FlowStability(metaclass=StateMeta, states=States):
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
 
+        self._linear_approx = linear_approx
+        self._t_s = kwargs.get('t_s', 10)
+
         _time_scale = None
         if 'time_scale' in kwargs:
             _time_scale = kwargs.pop('time_scale')
@@ -639,13 +642,18 @@ class FlowStability(metaclass=StateMeta, states=States):
                 f"Creating a flow integral clustering for time_scale={_ts}."
             )
             if _ts is None:
-                _lambda = None
+                # the default of compute_inter_transition_matrices
+                _lambda = 1 / np.median(np.diff(self.temporal_network.times))
             else:
                 _lambda = 1 / _ts
 
+            if self._linear_approx:
+                _inter_T = self.temporal_network.inter_T_lin[_lambda][self._t_s]
+            else:
+                _inter_T = self.temporal_network.inter_T[_lambda]
+
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in _inter_T],
                 time_list=self.temporal_network.times[
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians+1],
-- 
2.43.0


From 5455464bff48135bc578bf3de9ca6cc169817385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 23/55] fix: an invalid temporal network was recorded as set

---
 src/flowstab/state_tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 87b7c51..a876ba4 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -343,7 +343,8 @@ class StateMeta(type):
                     def wrapped_setter(self, value):
                         # Run pre-run checks (if needed)
                         original_setter(self, value)
-                        if value is None and ignore_none:
+                        if ignore_none and \
+                                (value is None or func.fget(self) is None):
                             self._state.properties_set[func_name] = False
                         else:
                             self._state.properties_set[func_name] = True
-- 
2.43.0


From f62fa421f60e1449c32b25c9da983fdbf6a02168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 24/55] fix: interevent transition matrices were reused for
 other options

---
 src/flowstab/temporal_network.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e0ba43a..b7579de 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1399,8 +1399,18 @@ class ContTempNetwork:
                         "interevent time")
             lamda = 1/np.median(np.diff(self.times))
 
+        if not hasattr(self, "_inter_T_options"):
+            self._inter_T_options = dict()
+
+        options = (fix_tau_k, use_sparse_stoch, dense_expm)
+
         # new value of lamda, we need to recompute
-        if lamda not in self.inter_T.keys():
+        if lamda not in self.inter_T.keys() or \
+                self._inter_T_options.get(lamda, options) != options:
+            # matrices computed from previous ones
+            getattr(self, "T", {}).pop(lamda, None)
+            getattr(self, "delta_inter_T", {}).pop(lamda, None)
+            self._inter_T_options[lamda] = options
 
             logger.debug(
                 f"Computing interevent transition matrices for lamda={lamda}"
@@ -1495,10 +1505,15 @@ class ContTempNetwork:
             )
             lamda = 1/np.median(np.diff(self.times))
 
+        if not hasattr(self, "_inter_T_lin_options"):
+            self._inter_T_lin_options = dict()
+
         compute = True
+        options = (fix_tau_k, use_sparse_stoch)
 
         if lamda in self.inter_T_lin.keys():
-            if t_s in self.inter_T_lin[lamda].keys():
+            if t_s in self.inter_T_lin[lamda].keys() and \
+                    self._inter_T_lin_options.get((lamda, t_s), options) == options:
                 compute = False
                 logger.debug(
                     "Interevent transition matrices already computed "
@@ -1506,6 +1521,11 @@ class ContTempNetwork:
                 )
 
         if compute:
+            # matrices computed from previous ones
+            getattr(self, "T_lin", {}).get(lamda, {}).pop(t_s, None)
+            getattr(self, "delta_inter_T_lin", {}).pop(lamda, None)
+            self._inter_T_lin_options[(lamda, t_s)] = options
+
             if lamda not in self.inter_T_lin.keys():
                 self.inter_T_lin[lamda] = dict()
                 self.inter_T_lin[lamda][t_s] = []
-- 
2.43.0


From 3176aa6c8271b28e2083b1ad3077a87564e9de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:09 +0000
Subject: [PATCH 25/55] fix: normalized mutual information of two
 single-cluster partitions divided by zero

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index a819a72..0b138aa 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2249,6 +2249,10 @@ def norm_mutual_information(clusters1, clusters2):
     n1 = len(clusters1)
     n2 = len(clusters2)
 
+    # trivial case, both clusterings have a single cluster
+    if max(len(c) for c in clusters1) == max(len(c) for c in clusters2) == N:
+        return 1.0
+
     if USE_CYTHON:
         return cython_nmi(clusters1, clusters2, N, n1, n2)
     else:
-- 
2.43.0


From e3b4fd1d67309f4963b38aeee8dbf0209c893472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:09 +0000
Subject: [PATCH 26/55] fix: normalized variation of information failed for
 clusterings with unused labels

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 0b138aa..e6a0938 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2322,6 +2322,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # empty clusters (e.g. unused labels) do not count
+    clusters1 = [c for c in clusters1 if len(c) > 0]
+    clusters2 = [c for c in clusters2 if len(c) > 0]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


From 8a1e8dc32b98525179be0dd40439f4fc217d66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:23 +0000
Subject: [PATCH 27/55] fix: the stationary distribution of directed static
 networks was taken from an arbitrary eigenvector

---
 src/flowstab/network_clustering.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e6a0938..8e44b9e 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2477,9 +2477,9 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            assert np.allclose(w[0], 1)
 
             pi = v.squeeze().real
             pi = pi/pi.sum()
@@ -2487,9 +2487,11 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            # the stationary solution belongs to the eigenvalue 1
+            i_max = np.argmax(w.real)
+            assert np.allclose(w[i_max], 1)
 
-            pi = v[:,0].real
+            pi = v[:,i_max].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From c45990ee37b3050412a5a6986516d3f3d24d4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:25 +0000
Subject: [PATCH 28/55] fix: linear transition matrices were in the compressed
 format after computing compressed ones

---
 src/flowstab/temporal_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index b7579de..2cf1bc1 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1490,7 +1490,10 @@ class ContTempNetwork:
         I = eye(self.num_nodes,
                 dtype=np.float64, format="csr")
 
-        if not hasattr(self, "_stationary_trans"):
+        # the plain format cannot use matrices in the compressed format
+        if not hasattr(self, "_stationary_trans") or \
+                (not use_sparse_stoch and any(isinstance(Pi, SparseStochMat)
+                                              for Pi in self._stationary_trans)):
             self._compute_stationary_transition(
                 t_start=t_start, t_stop=t_stop,
                 use_sparse_stoch=use_sparse_stoch
-- 
2.43.0


From 4ceaa6b0fba968d8d4845cd8792215657936c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 29/55] fix: merging overlapping events that start together
 removed the contact

---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 2cf1bc1..b7fc11d 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1836,6 +1836,9 @@ class ContTempNetwork:
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
 
+                # each pair of nodes only once
+                if n2 < n1:
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
-- 
2.43.0


From 27136f08e61af04aab467c6a264d48b7a7c67b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:34 +0000
Subject: [PATCH 30/55] fix: clustering an integral of a grid that does not
 start at the first time raised IndexError

---
 src/flowstab/network_clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 8e44b9e..cf67800 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2136,8 +2136,10 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
+                # steps until which the integrals in I_list were computed
+                k_integrals = sorted({kk for kk in self._k_integral_grid if kk > 0})
                 self.clustering[k] = Clustering(p1=self.p1, p2=None,
-                                  T=self.T_list[self._k_integral_grid[k+1]-1],
+                                  T=self.T_list[k_integrals[k]-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
-- 
2.43.0


From 932c239e50818c18910927b225f663691a3c2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 31/55] fix: transition matrices saved in different formats for
 different rates could not be loaded

---
 src/flowstab/temporal_network.py | 35 ++++++++------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index b7fc11d..bf661bc 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -989,38 +989,21 @@ class ContTempNetwork:
         if "T" in load_dict.keys():
             return_dict["T"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
-
-            else:
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = load_dict["T"][lamda]
+            # SparseStochMat are saved as dictionaries
+            for lamda, mat in load_dict["T"].items():
+                return_dict["T"][lamda] = SparseStochMat(**mat) \
+                                if isinstance(mat, dict) else mat
 
 
         if "T_lin" in load_dict.keys():
             return_dict["T_lin"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
-
-                        return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
-
-            else:
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
+            for lamda in load_dict["T_lin"].keys():
+                return_dict["T_lin"][lamda] = dict()
 
-                        return_dict["T_lin"][lamda][t_s] = \
-                                            load_dict["T_lin"][lamda][t_s]
+                for t_s, mat in load_dict["T_lin"][lamda].items():
+                    return_dict["T_lin"][lamda][t_s] = SparseStochMat(**mat) \
+                                    if isinstance(mat, dict) else mat
 
 
 
-- 
2.43.0


From fdd1664e319af95c8b07f36cead5d9bbcf307e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 32/55] fix: saving inter-event transition matrices rounded
 those of the network

---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index bf661bc..4fd84ab 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -541,6 +541,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -656,6 +657,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
-- 
2.43.0


From 214720cf1f5abc9e3fc15adb02cae5074127c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 33/55] fix: networks saved under names with dots overwrote
 each other

---
 src/flowstab/temporal_network.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 4fd84ab..0ed2b9c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -316,7 +316,11 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        # only an extension is replaced, the name may contain dots
+        if os.path.splitext(filename)[-1] == ".pickle":
+            filename = os.path.splitext(filename)[0]
+
+        with open(str(filename) + ".pickle", "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -393,7 +397,11 @@ class ContTempNetwork:
 
         # all in a pickle file
 
-        graph_dict = pd.read_pickle(os.path.splitext(filename)[0] +".pickle")
+        # only an extension is replaced, the name may contain dots
+        if os.path.splitext(filename)[-1] == ".pickle":
+            filename = os.path.splitext(filename)[0]
+
+        graph_dict = pd.read_pickle(str(filename) + ".pickle")
 
         events_table = graph_dict.pop("events_table")
 
-- 
2.43.0


From 02bd0e4cf9a8ed90d4c94d4f939c528b6f7f3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 34/55] fix: full outer product of a vector with a single entry
 failed

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 053192e..f1e0959 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1126,11 +1126,11 @@ def sparse_outer(p, use_mkl=True, triu=True, verbose=False, log_message=""):
         if triu:
             Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size))[np.triu_indices(p.data.size)]
         else:
-            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2,1).squeeze()
+            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(-1)
     elif triu:
         Odata = np.outer(p.data,p.data)[np.triu_indices(p.data.size)]
     else:
-        Odata = np.outer(p.data,p.data).reshape(p.data.size**2,1).squeeze()
+        Odata = np.outer(p.data,p.data).reshape(-1)
 
     if triu:
         indices_list = [p.indices[p.indices >= r] for r in p.indices]
-- 
2.43.0


From c52b3fa2969154245ed2c4578b828cd84cc28c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 35/55] fix: compressing a matrix with empty inactive rows
 wrote past the allocated arrays

---
 src/flowstab/_cython_sparse_stoch.pyx      | 10 ++++++++--
 src/flowstab/_cython_sparse_stoch_subst.py | 10 +++++++---
 src/flowstab/_cython_subst.py              | 10 +++++++---
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 5ee008d..0e58c9a 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -604,9 +604,12 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+        cdef Py_ssize_t Ts_nnz = 0
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
 
+        # number of stored values in the rows to keep
+        for k in range(Ts_size):
+            Ts_nnz += Tf_indptr[nz_rowcols[k]+1] - Tf_indptr[nz_rowcols[k]]
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
         cdef int[:] Ts_indices = -1*np.ones(Ts_nnz, dtype=np.int32)
@@ -623,13 +626,16 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
             tbrow = nz_rowcols[tsrow]
             nzr = 0
             for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):
+                if not BtoS.count(Tf_indices[k]):
+                    # stored zero in a column that is not kept
+                    continue
                 Ts_data[its] = Tf_data[k]
                 Ts_indices[its] = BtoS[Tf_indices[k]]
                 its += 1
                 nzr += 1
             Ts_indptr[tsrow+1] = Ts_indptr[tsrow] + nzr
             
-        return (Tf_indptr.shape[0] - 1, Ts_data, Ts_indices, Ts_indptr,
+        return (Tf_indptr.shape[0] - 1, Ts_data[:its], Ts_indices[:its], Ts_indptr,
                    nz_rowcols, diag_val)
     
 @cython.boundscheck(False)  # Deactivate bounds checking
diff --git a/src/flowstab/_cython_sparse_stoch_subst.py b/src/flowstab/_cython_sparse_stoch_subst.py
index 624f887..9df81fa 100644
--- a/src/flowstab/_cython_sparse_stoch_subst.py
+++ b/src/flowstab/_cython_sparse_stoch_subst.py
@@ -3,7 +3,8 @@ import numpy as np
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # number of stored values in the rows to keep
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
@@ -17,14 +18,17 @@ def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_
     for tsrow, tbrow in enumerate(nz_rowcols):
         nzr = 0
         for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):
+            if Tf_indices[k] not in BtoS:
+                # stored zero in a column that is not kept
+                continue
             T_s_data[its] = Tf_data[k]
             T_s_indices[its] = BtoS[Tf_indices[k]]
             its += 1
             nzr += 1
         T_s_indptr[tsrow+1] = T_s_indptr[tsrow] + nzr
     return (Tf_indptr.shape[0] - 1,
-            T_s_data,
-            T_s_indices,
+            T_s_data[:its],
+            T_s_indices[:its],
             T_s_indptr,
             nz_rowcols,
             diag_val)
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..369b00c 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -9,7 +9,8 @@ from scipy.sparse import (
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # number of stored values in the rows to keep
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
@@ -23,14 +24,17 @@ def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_
     for tsrow, tbrow in enumerate(nz_rowcols):
         nzr = 0
         for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):
+            if Tf_indices[k] not in BtoS:
+                # stored zero in a column that is not kept
+                continue
             T_s_data[its] = Tf_data[k]
             T_s_indices[its] = BtoS[Tf_indices[k]]
             its += 1
             nzr += 1
         T_s_indptr[tsrow+1] = T_s_indptr[tsrow] + nzr
     return (Tf_indptr.shape[0] - 1,
-            T_s_data,
-            T_s_indices,
+            T_s_data[:its],
+            T_s_indices[:its],
             T_s_indptr,
             nz_rowcols,
             diag_val)
-- 
2.43.0


From ba2e4137361d7ecfa054e6dd3f3f36d0a66c8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 36/55] fix: fallback stability gain of a node with an empty
 row read the next row or past the end

---
 src/flowstab/_cython_subst.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 369b00c..8d845af 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -423,13 +423,15 @@ def compute_delta_PT_moveto(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    # row k may be empty
+    if j < PTindptr[k+1]:
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
@@ -504,13 +506,15 @@ def compute_delta_PT_moveout(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
+    # row k may be empty
+    if j < PTindptr[k+1]:
         l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+        # check if PT[k,k] is nonzero
+        while l < k and j + 1 < PTindptr[k+1]:
+            j += 1
+            l = PTindices[j]
+        if l == k:
+            s += PTdata[j]
         
     return s
 
-- 
2.43.0


From b91456e77b8374a8553dabf50cb67431b1a45ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 37/55] fix: fallback for compute_delta_S_moveout was defined
 under another name

---
 src/flowstab/_cython_subst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 8d845af..ff6ea82 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -518,7 +518,7 @@ def compute_delta_PT_moveout(
         
     return s
 
-def cython_compute_delta_S_moveout(
+def compute_delta_S_moveout(
     PTdata,
     PTindices,
     PTindptr,
-- 
2.43.0


From 0e10a83e54eee0558bc5629c968b23a91696ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 38/55] fix: fallback row normalisation with a row sum of 0,
 and in _cython_sparse_stoch_subst

---
 src/flowstab/_cython_sparse_stoch_subst.py | 5 ++++-
 src/flowstab/_cython_subst.py              | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch_subst.py b/src/flowstab/_cython_sparse_stoch_subst.py
index 9df81fa..87cf069 100644
--- a/src/flowstab/_cython_sparse_stoch_subst.py
+++ b/src/flowstab/_cython_sparse_stoch_subst.py
@@ -41,4 +41,7 @@ def inplace_csr_row_normalize(X_data,
     for i in range(n_row):
         row_sum_tmp = X_data[X_indptr[i]:X_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            X_data[X_indptr[i]:X_indptr[i+1]] = (row_sum_tmp/row_sum)
+            if row_sum == 0:
+                X_data[X_indptr[i]:X_indptr[i+1]] -= row_sum_tmp/(X_indptr[i+1]-X_indptr[i])
+            else:
+                X_data[X_indptr[i]:X_indptr[i+1]] /= (row_sum_tmp/row_sum)
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index ff6ea82..b3d6150 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -46,7 +46,10 @@ def inplace_csr_row_normalize(Tf_data, Tf_indptr, n_row:int, row_sum:float):
     for i in range(n_row):
         row_sum_tmp = Tf_data[Tf_indptr[i]:Tf_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
+            if row_sum == 0:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] -= row_sum_tmp/(Tf_indptr[i+1]-Tf_indptr[i])
+            else:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
 
 class SPA:
     """sparse accumulator
-- 
2.43.0


From 3cc1ca16324a7633b4d3d76d401ea07d72d50b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:54 +0000
Subject: [PATCH 39/55] fix: fallback kernels failed on the index buffers
 passed by SparseClustering

---
 src/flowstab/_cython_subst.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index b3d6150..d0b4a58 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -352,8 +352,8 @@ def get_submat_sum(
     """
     s = 0.0
     col_set = []
-    num_row = row_idx.shape[0]
-    num_col = col_idx.shape[0]
+    num_row = len(row_idx)
+    num_col = len(col_idx)
     
     for i in range(num_col):
         col_set.append(col_idx[i])
@@ -410,7 +410,7 @@ def compute_delta_PT_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     idx_set = list()
     
     for i in range(num_idx):
@@ -456,7 +456,7 @@ def compute_delta_S_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     s = compute_delta_PT_moveto(PTdata,
                                 PTindices,
@@ -492,7 +492,7 @@ def compute_delta_PT_moveout(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     idx_set = list()
     
@@ -540,7 +540,7 @@ def compute_delta_S_moveout(
     """
     
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     s = compute_delta_PT_moveout(PTdata, PTindices, PTindptr,
                                  PTcscdata, PTcscindices, PTcscindptr,
                                  k, idx)
-- 
2.43.0


From 8b4fb21baef99028f2ec5048db1cdcbc52ae5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 40/55] fix: static_clustering with sparse matrices: power 0,
 two directed nodes, numpy integers

---
 src/flowstab/network_clustering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index cf67800..cc07acb 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2447,7 +2447,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         is_csr = True
         D = lambda d : diags(d, format="csr")
         I = lambda size : eye(size, format="csr")
-        power = lambda M, n : M.__pow__(n)
+        power = lambda M, n : csr_matrix(M.__pow__(n))
     elif isinstance(A, np.ndarray) and not isinstance(A, np.matrix):
         is_csr = False
         D = lambda d : np.diag(d)
@@ -2477,7 +2477,8 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         raise ValueError("sum of degrees equal 0.")
     elif directed:
 
-        if is_csr:
+        # ARPACK needs at least 3 nodes to compute one eigenvector
+        if is_csr and Tstat.shape[0] > 2:
 
             w, v = eigs(Tstat.T, k=1, which="LR")
 
@@ -2487,7 +2488,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
             pi = pi/pi.sum()
 
         else:
-            w, v = np.linalg.eig(Tstat.T)
+            w, v = np.linalg.eig(Tstat.T.toarray() if is_csr else Tstat.T)
 
             # the stationary solution belongs to the eigenvalue 1
             i_max = np.argmax(w.real)
@@ -2499,7 +2500,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         pi = degs/degs.sum()
 
     # transition matrix at time t
-    if discrete_time_rw and isinstance(t,int):
+    if discrete_time_rw and isinstance(t,(int,np.integer)):
 
         T = power(Tstat,t)
 
-- 
2.43.0


From 629473904255ad78cd48ed98e5233d5341174db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 41/55] fix: parallel sparse clustering must use the symmetry
 of the given matrix

---
 src/flowstab/parallel_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..84c6984 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -90,7 +90,8 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
-- 
2.43.0


From 7b728ff82c18be36d2a93437e3f99fbbd5056e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 42/55] fix: parallel subspace expm interpreted csr matrices as
 their transpose

---
 src/flowstab/parallel_expm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/parallel_expm.py b/src/flowstab/parallel_expm.py
index 29ed454..757b981 100755
--- a/src/flowstab/parallel_expm.py
+++ b/src/flowstab/parallel_expm.py
@@ -176,6 +176,9 @@ def compute_subspace_expm_parallel(A, n_comp=None, comp_labels=None, verbose=Fal
         matrix exponential of A
             
     """
+    if not isspmatrix_csc(A):
+        A = csc_matrix(A)
+
     num_nodes = A.shape[0]
 
     # otherwise 0 values may count as an edge
-- 
2.43.0


From 4a0d84cc5f88a0434b3f08907fa9b2a2f94492fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:36 +0000
Subject: [PATCH 43/55] fix: synthetic networks mixed up individuals given in
 another order than their IDs

---
 src/flowstab/synth_temp_network.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..95e6646 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,13 +268,13 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
-        self.individuals = individuals
+        # list of individuals, individuals[i] is the individual with ID i
+        self.individuals = sorted(individuals, key=lambda ind: ind.ID)
 
         # list of individual IDs
-        self.indiv_ids_list = [ind.ID for ind in individuals]
+        self.indiv_ids_list = [ind.ID for ind in self.individuals]
 
-        if not all([i < self.N for i in self.indiv_ids_list]):
+        if not all([0 <= i < self.N for i in self.indiv_ids_list]):
             raise ValueError("individual IDs must be from 0 to N-1")
 
         # array of individual IDs
@@ -287,7 +287,7 @@ class SynthTempNetwork:
             raise e
 
         # individuals group list
-        self.indiv_groups_list = [ind.group for ind in individuals]
+        self.indiv_groups_list = [ind.group for ind in self.individuals]
 
         # individuals group array
         self.indiv_groups_array = np.array(self.indiv_groups_list, dtype=np.int32)
@@ -295,7 +295,7 @@ class SynthTempNetwork:
         # number of groups
         self.Ngroups = len(set(self.indiv_groups_list))
 
-        if not all([gid < self.Ngroups for gid in self.indiv_groups_list]):
+        if not all([0 <= gid < self.Ngroups for gid in self.indiv_groups_list]):
             raise ValueError("group IDs must be from 0 to Ngroups-1")
 
         # group id to indiv ids dict
@@ -333,9 +333,10 @@ class SynthTempNetwork:
 
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
-            # i.e. sum_j p[i,j] = 1 for all i
+            # i.e. sum_j p[i,j] = 1 for all i (or 0 if group i has no interactions)
+            row_sums = self.inter_group_probs.sum(axis=1)
             self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+                (self.inter_group_probs.T/np.where(row_sums == 0, 1, row_sums)).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From 85643869a0b05af5b112c896df33d718d79d8b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 44/55] fix: run_laplacians_transmats passed verbose= to
 methods that no longer take it

---
 src/flowstab/scripts/run_laplacians_transmats.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2b17b09..8e605cc 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -204,8 +204,7 @@ if not compute_lin_transmat and not compute_expm_transmat:
 reverse_time_list = [False, True]
 
 # arguments for compute_transition_matrices
-args = {"verbose":verbose,
-        "save_intermediate": compute_intermediate,
+args = {"save_intermediate": compute_intermediate,
         "reverse_time" : None}
 
 #%%
@@ -352,7 +351,7 @@ def worker(net_start_stop):
 
             print(f"PID {os.getpid()}:",
                   f" computing Laplacians t_start={t_start}, t_stop={t_stop}")
-            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop, verbose=verbose)
+            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)
 
             print(f"PID {os.getpid()}:",
                   f" k_start={net._k_start_laplacians}, k_stop={net._k_stop_laplacians}")
@@ -362,8 +361,7 @@ def worker(net_start_stop):
 
             if compute_lin_transmat:
                 print(f"PID {os.getpid()}:", " computing stationary dists")
-                net._compute_stationary_transition(verbose=verbose,
-                                                   use_sparse_stoch=use_sparse_stoch)
+                net._compute_stationary_transition(use_sparse_stoch=use_sparse_stoch)
 
                 t2 = time.time()
                 print(f"PID {os.getpid()}:",f"finished in {t2 - t1:.2f}")
@@ -390,7 +388,7 @@ def worker(net_start_stop):
                 # first compute inter trans matrices (does not depend on time direction)
                 if compute_expm_transmat:
                     print(f"PID {os.getpid()}:", " computing inter transition matrices")
-                    net.compute_inter_transition_matrices(lamda=lamda,verbose=verbose,
+                    net.compute_inter_transition_matrices(lamda=lamda,
                                                           use_sparse_stoch=use_sparse_stoch,
                                                           dense_expm=use_dense_expm)
 
@@ -416,7 +414,6 @@ def worker(net_start_stop):
                 if compute_lin_transmat:
                     print(f"PID {os.getpid()}:", " computing linear inter transition matrices")
                     net.compute_lin_inter_transition_matrices(lamda=lamda,
-                                                              verbose=verbose,
                                                               t_s=t_s,
                                                               use_sparse_stoch=use_sparse_stoch)
 
-- 
2.43.0


From 541f5790e36fec7d300c4675e1e33c0230046d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 45/55] fix: run_laplacians_transmats read the flow integral
 from a removed attribute

---
 src/flowstab/scripts/run_laplacians_transmats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 8e605cc..c98908e 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -468,7 +468,7 @@ def worker(net_start_stop):
                                          d = -1
                                     I = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
-                                                              net._k_stop_laplacians+1].values[::d]).I
+                                                              net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I,net_file + "_flow_int.pickle")
 
@@ -507,7 +507,7 @@ def worker(net_start_stop):
                                         d = -1
                                     I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
-                                                                  net._k_stop_laplacians+1].values[::d]).I
+                                                                  net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
 
-- 
2.43.0


From 9f79f30ce2629d339d7d611bf9489b0a065a0855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 46/55] fix: run_laplacians_transmats could make one slice too
 many with --num_slices

---
 src/flowstab/scripts/run_laplacians_transmats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index c98908e..b0e200f 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -248,14 +248,14 @@ else:
         tend = net.times[-1]
 
     if slice_length is None:
-
-        slice_length = (tend-t0)/num_slices
-
-    time_slices = [t0]
-    t = t0
-    while t < tend:
-        t += slice_length
-        time_slices.append(t)
+        # exactly num_slices slices, the last one stops at tend
+        time_slices = list(np.linspace(t0, tend, num_slices+1))
+    else:
+        time_slices = [t0]
+        t = t0
+        while t < tend:
+            t += slice_length
+            time_slices.append(t)
 
 t_starts = time_slices[:-1]
 t_stops = time_slices[1:]
-- 
2.43.0


From 001e593a2630c64076571ad4ada46301d84fd62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 47/55] fix: run_cov_integrals misread networks named with a
 part starting with w

---
 src/flowstab/scripts/run_cov_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 8ebb196..24d95c6 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -229,7 +229,7 @@ for file in all_files:
     for extract in os.path.splitext(file)[0].split("_"):
         if re.search("int[0-9]{6}",extract):
             intervals.add(int(extract[3:]))
-        elif extract.startswith("w"):
+        elif re.fullmatch(r"w[0-9.]+e[+-][0-9]+", extract):
             tau_ws.add(float(extract[1:]))
 
 intervals = sorted(list(intervals))
-- 
2.43.0


From 1fe08d041d44e0c0cce614936c6c98a5186fbd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:23 +0000
Subject: [PATCH 48/55] fix: run_cov_integrals could not find the rate of a
 tau_w with more than 4 digits

---
 src/flowstab/scripts/run_cov_integrals.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 24d95c6..54925e9 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -253,6 +253,13 @@ else:
 
 #%%
 
+def find_lamda(mats, tau_w):
+    """returns the rate of `mats` corresponding to tau_w, which is rounded
+    when it is read from the name of a file.
+    """
+    return min(mats, key=lambda lamda: abs(lamda - 1/tau_w))
+
+
 def load_trans_mat(k_range, tau_w, lin, reverse_time):
     """loads, computes and returns the transition matrix computed from k_range[0]
     to k_range[-1] and the corresponding time duration.
@@ -288,9 +295,9 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
         TM = ContTempNetwork.load_T(T_file.format(k=k))
 
         if lin:
-            Tk = TM["T_lin"][1/tau_w][t_s]
+            Tk = TM["T_lin"][find_lamda(TM["T_lin"], tau_w)][t_s]
         else:
-            Tk = TM["T"][1/tau_w]
+            Tk = TM["T"][find_lamda(TM["T"], tau_w)]
 
         set_to_zeroes(Tk, tol=tol)
         inplace_csr_row_normalize(Tk)
@@ -518,9 +525,10 @@ def worker(ind_start_tau_w):
                                        "_inter_trans_mat")
 
                             tl = time.time()
-                            num_l = len(inter_Ts["inter_T"][1/tau_w])
+                            lamda = find_lamda(inter_Ts["inter_T"], tau_w)
+                            num_l = len(inter_Ts["inter_T"][lamda])
                             # integrate T
-                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][1/tau_w][::d],
+                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][lamda][::d],
                                                d * np.diff(inter_Ts["times_k_start_to_k_stop+1"][::d]))):
 
 
@@ -598,7 +606,9 @@ def worker(ind_start_tau_w):
 
                         tk = time.time()
 
-                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][1/tau_w][t_s][::d],
+                        lamda = find_lamda(inter_Ts_lin["inter_T_lin"], tau_w)
+
+                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][lamda][t_s][::d],
                                            d * np.diff(inter_Ts_lin["times_k_start_to_k_stop+1"][::d])):
 
 
-- 
2.43.0


From 2833283202b3b5a2b6c1e77cf43c49e974645bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 49/55] fix: run_clusterings failed with --integral_rtol on the
 saved integrals

---
 src/flowstab/scripts/run_clusterings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1c4716a..4773140 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -253,7 +253,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
             raise ValueError("File extension not recognised.")
 
         int_time = autocov["integration_time"]
-        ITPT = autocov["ITPT"]
+        ITPT = autocov["ITPT"].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
@@ -328,7 +328,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
         else:
             raise ValueError("direction must be forward or backward")
 
-        ITPT = autocov[ITPT_key]
+        ITPT = autocov[ITPT_key].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
-- 
2.43.0


From 81c4010bb0b5c0b59f3017130616066c0d719839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 50/55] fix: run_clusterings never saved the component labels

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 4773140..dc7cb0e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -670,7 +670,7 @@ def worker(file_args):
 
 
             S, T, p1, p2, largest_comp_nodes, S_list, comp_nodes_list, \
-                singletons, normalization, ncomp, label, max_S_row_diff, \
+                singletons, normalization, ncomp, comp_label, max_S_row_diff, \
                     ITPT_sum, max_S_row_diff_norm, \
                         ITPT_sum_norm = load_autocov_int(file,
                                                          init_p1,
-- 
2.43.0


From 569f5c2b9f6750c0748b431ef37bf2007ca72bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 51/55] fix: run_clusterings --separate_comps reported a
 stability other than that of the merged partition

---
 src/flowstab/scripts/run_clusterings.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index dc7cb0e..1efc5e0 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -586,7 +586,8 @@ def _compute_sym_list_clustering_fct(params):
             for clust in clustering.partition.cluster_list[1:]:
                 cluster_list.append({node_map[n] for n in clust})
 
-            stability += clustering.compute_stability()
+            # without the meta node, which is not part of the merged partition
+            stability += clustering.compute_stability() - S.get_element(0, 0)
 
     # add singletons
     cluster_list += [{n} for n in var_dict[file]["singletons"]]
@@ -802,6 +803,12 @@ def worker(file_args):
                                     zip(*pool.map(_compute_clustering_fct, params_list,
                                                   chunksize=1))
 
+                    if separate_comps:
+                        # contribution of the singletons to the stability
+                        stab_singletons = sum(S.get_element(n, n) for n in singletons)
+                        sym_stabilites = tuple(stab + stab_singletons
+                                               for stab in sym_stabilites)
+
                     if file in var_dict:
                         # free global memory
                         del var_dict[file]
-- 
2.43.0


From e68d5201f1edf790cd60951ed2282b37556da7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:36 +0000
Subject: [PATCH 52/55] fix: run_clusterings could not restart from the results
 saved before the NVI

---
 src/flowstab/scripts/run_clusterings.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1efc5e0..eab1d38 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -711,11 +711,14 @@ def worker(file_args):
 
                 # check if temp results have already been computed:
                 tmpsavefile = os.path.join(savedir,"tmpclusters_" + file)
-                if os.path.exists(tmpsavefile):
+                clustering_loaded = False
+                if compute_clustering and os.path.exists(tmpsavefile):
                     print("PID ", os.getpid(), " loading temp res from ", tmpsavefile)
                     with open(tmpsavefile, "rb") as fopen:
                         tmpres = pickle.load(fopen)
 
+                    sym_clusters = tmpres["sym_clusters"]
+                    sym_seeds = tmpres["sym_seeds"]
                     clust_counter_sym =  tmpres["clust_counter_sym"]
                     sym_stabilites = tmpres["sym_stabilites"]
                     avg_stab_sym = tmpres["avg_stab_sym"]
@@ -730,15 +733,9 @@ def worker(file_args):
                     max_S_row_diff_norm = tmpres["max_S_row_diff_norm"]
                     ITPT_sum_norm = tmpres["ITPT_sum_norm"]
 
-                    save_clustering_before_nvarinf = False
-                    compute_clustering = False
-                    compute_nvarinf = True
+                    clustering_loaded = True
 
-
-
-
-
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
                     params_list = [(file, seed) for seed in n_random_seeds(num_repeat)]
 
                     if nproc_clustering == 1:
@@ -837,7 +834,7 @@ def worker(file_args):
                 print("PID ", os.getpid(), f" symm clust, took {t1-t0:.2f}s, file ", file)
                 print("PID ", os.getpid(), " computing sym nvi ", ", file ", file)
 
-                if compute_clustering:
+                if compute_clustering and not clustering_loaded:
 
 
                     clust_counter_sym = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
@@ -853,6 +850,8 @@ def worker(file_args):
 
                     if save_clustering_before_nvarinf:
                         tmpres = {}
+                        tmpres["sym_clusters"] = sym_clusters
+                        tmpres["sym_seeds"] = sym_seeds
                         tmpres["clust_counter_sym"] = clust_counter_sym
                         tmpres["sym_stabilites"] = sym_stabilites
                         tmpres["avg_stab_sym"] = avg_stab_sym
-- 
2.43.0


From 64f2ce6611bcb5d2cd98cfa9ce2af0a3ba39b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:30 +0000
Subject: [PATCH 53/55] fix: run_laplacians_transmats did not restore a lost
 inter-event file when the slice matrices were there

---
 src/flowstab/scripts/run_laplacians_transmats.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index b0e200f..952f0d2 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -339,8 +339,14 @@ def worker(net_start_stop):
         if (not glob.glob(net_file_inter_expm + "*")):
             all_inter_expm_exists = False
 
-    if (all_inter_expm_exists and all_inter_lin_exists and not save_slice_trans) or \
-        (all_expm_exists and all_lin_exists):
+    # only consider the files that would be written
+    all_inter_exists = (all_inter_expm_exists or not compute_expm_transmat) and \
+                       (all_inter_lin_exists or not compute_lin_transmat)
+    all_trans_exists = (all_expm_exists or not compute_expm_transmat) and \
+                       (all_lin_exists or not compute_lin_transmat)
+
+    if (all_inter_exists or not save_inter_T) and \
+        (all_trans_exists or not save_slice_trans):
         print(f"PID {os.getpid()}:", "interval = ", int_index,
                           " all files already exists" )
     else:
-- 
2.43.0


From e2ddb80c9110ce12800dacf3ecf1adaa2977b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:09 +0000
Subject: [PATCH 54/55] fix: numpy arrays on the left of a SparseStochMat were
 refused; numpy scalars are scalars

---
 src/flowstab/sparse_stoch_mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index f1e0959..e352e2b 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -84,6 +84,8 @@ class SparseStochMat:
     smaller CSR scipy sparse matrix containing the these rows/colums.
         
     """
+    # let numpy arrays defer to __radd__, __rsub__ and __rmatmul__
+    __array_ufunc__ = None
 
     def __init__(self, size:int, data:NDArray, indices:NDArray, indptr:NDArray,
                  nz_rowcols:NDArray, diag_val:float=1.0):
@@ -514,7 +516,7 @@ class SparseStochMat:
     def __mul__(self, o):
         """Scalar multiplication with self on the right and o on the left.
         """
-        if isinstance(o, (float,int)):
+        if isinstance(o, (float,int,np.number)):
 
             return SparseStochMat(self.size,
                                     self.T_small.data*o,
-- 
2.43.0


From 601bb7c0f08eae82fcb63eaedf951d08622c6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:09 +0000
Subject: [PATCH 55/55] fix: run_clusterings normalised the static variation of
 information with the size of the reduced network

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index eab1d38..8733b8e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -910,7 +910,7 @@ def worker(file_args):
 
                     nvarinf_samples = [s for i,s in enumerate(combinations(sym_clusters_static,2)) if i in nvarinf_samples_idx]
 
-                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=T.shape[0],
+                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=A.shape[0],
                                                                 use_clust_list=True) for c1,c2 in nvarinf_samples])
 
                     clust_counter_sym_static = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
-- 
2.43.0

