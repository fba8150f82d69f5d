From 1d3f5fe45e9c72e9d3266c681853c47fe4025ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 001/110] fix: np.bool no longer exists, so pruning and
 minimum-word splits always failed

---
 sidetopics/model/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..43c5ab9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -339,7 +339,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -479,8 +479,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 258d8545e9224a50c087f118caa1fd87b03f74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 002/110] fix: reorder and split data-sets whose categories are
 absent or a list

---
 sidetopics/model/common.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 43c5ab9..f396b61 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -166,7 +166,7 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = _take(self._word_dict, retain_word_ids)
 
         return DataSet(
             pruned_words,
@@ -301,7 +301,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _take(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -420,7 +420,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_take(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -429,7 +429,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_take(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -582,6 +582,17 @@ class DataSet:
                trainDocs
 
 
+def _take(values, indices):
+    """
+    Returns the given elements, in the given order, of a list or a numpy array. Returns
+    None if there are no values.
+    """
+    if values is None:
+        return None
+    return values[list(indices)] if isinstance(values, np.ndarray) \
+        else [values[i] for i in indices]
+
+
 def dropcols_fancy(M, idx_to_drop):
     idx_to_drop = np.unique(idx_to_drop)
     keep = ~np.in1d(np.arange(M.shape[1]), idx_to_drop, assume_unique=True)
-- 
2.43.0


From 02a24c8c4ada0924ead5624a40e6d7bd4bbd851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 003/110] fix: deep copies of a DataSet passed an argument
 scipy and numpy do not accept

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f396b61..83088bf 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -144,12 +144,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From 859d146f8681dfaab5963c92d848b83e70fe4a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 004/110] fix: link prediction splits used a float index, and
 doubled self-links

---
 sidetopics/model/common.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 83088bf..0dfd45f 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -625,7 +625,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -641,20 +641,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col  # the diagonal must not be counted twice
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
@@ -676,7 +667,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 3d5333922f5b851a1ced6dbb22003251ad81562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 005/110] fix: document completion could create negative
 counts, and lost the row metadata

---
 sidetopics/model/common.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 0dfd45f..b61a11f 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -469,7 +469,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
@@ -478,6 +478,7 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
             t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
             q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
@@ -488,15 +489,17 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
-                
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
+                doc_categories = _take(doc_categories, tq_good)
+                order = order[tq_good]
+
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From a84c1719318c0b778ef6f5de6d4ff45e7572fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 006/110] fix: a DataSet limit never limited the documents, and
 a load order was not recorded

---
 sidetopics/model/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index b61a11f..7565e50 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -60,6 +60,7 @@ class DataSet:
                 if order is None \
                 else order[:limit]
             num_docs = limit
+            self._reorder(np.arange(limit))
 
         if order is not None:
             self._order = order
@@ -128,6 +129,7 @@ class DataSet:
                          order=None, limit=limit)
         if order is not None:
             result._reorder(order)
+            result._order = np.asarray(order)
 
         return result
 
-- 
2.43.0


From 694782bec0a5ab3eadc797fa7bfc901c3c57c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 007/110] fix: a feature whose mean is one was taken for an
 intercept

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 7565e50..acb715b 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -286,8 +286,8 @@ class DataSet:
         if self._feats is None:
             return;
 
-        means = self._feats.mean(axis=0)
-        if means.max() < (1-1E-30):
+        not_one_counts = np.asarray((self._feats != 1).sum(axis=0))
+        if not_one_counts.min() > 0:
             self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
             return True
 
-- 
2.43.0


From bcefd4f871f92613fb1ae683b73109f11c7f612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:02 +0000
Subject: [PATCH 008/110] fix: split_on_feature failed without links, with
 categories or with non-float64 features

---
 sidetopics/model/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index acb715b..653c932 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -7,6 +7,8 @@ import pickle as pkl
 from math import ceil
 import logging
 
+from sidetopics.util.misc import to_dense_array
+
 from gensim.corpora.dictionary import Dictionary
 
 class DataSet:
@@ -562,7 +564,7 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
@@ -570,19 +572,19 @@ class DataSet:
 
         mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(to_dense_array(self._feats[:,[features[0]]]).ravel() > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_take(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_take(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
-- 
2.43.0


From 82882a52933b721b8274cacafbd62b1167c5aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 009/110] fix: row-range sparse kernels read the wrong rows,
 and a caller's out was ignored

---
 sidetopics/util/se_fast.pyx           | 24 ++++++++++++++++--------
 sidetopics/util/sparse_elementwise.py |  5 ++---
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..4f8ca41 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -274,7 +274,8 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int o = 0  # position in out_data, which holds the rows from start to end only
 
     with nogil:
         while A_row < end:
@@ -283,8 +284,9 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    out_data[o] = A_data[i] / dotProduct_f8(B_row,col,B,C)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
             A_row += 1
@@ -321,7 +323,8 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int o = 0  # position in out_data, which holds the rows from start to end only
 
     with nogil:
         while A_row < end:
@@ -330,8 +333,9 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    out_data[o] = A_data[i] / dotProduct_f4(B_row,col,B,C)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
             A_row += 1
@@ -509,7 +513,8 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int o = 0  # position in out_data, which holds the rows from start to end only
         double dotProd = 0.0
         double logOfMin = log (DBL_MIN)
     
@@ -521,8 +526,9 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[o] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
             A_row += 1
@@ -584,7 +590,8 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
         int col = 0
         int elemCount =0
         int e = 0
-        int i = 0
+        int i = A_ptr[start]
+        int o = 0  # position in out_data, which holds the rows from start to end only
         float dotProd = 0.0
         float logOfMin = log (FLT_MIN)
 
@@ -596,8 +603,9 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[o] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
             A_row += 1
diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..3a87ab6 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -137,7 +137,7 @@ def sparseScalarQuotientOfDot (A, B, C, out=None, start=None, end=None):
     B         - a dense matrix
     C         - a dense matrix
     out       - if specified, must be a sparse CSR matrix with identical
-                non-zero pattern to A (i.e. same indices and indptr)
+                non-zero pattern to A[start:end,:] (i.e. same indices and indptr)
     start     - where to start indexing A
     end       - where to stop indexing A
     
@@ -259,7 +259,7 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
     B         - a dense matrix
     C         - a dense matrix
     out       - if specified, must be a sparse CSR matrix with identical
-                non-zero pattern to A (i.e. same indices and indptr)
+                non-zero pattern to A[start:end,:] (i.e. same indices and indptr)
     start     - where to start indexing A
     end       - where to stop indexing A
     
@@ -281,7 +281,6 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         # out = A.copy()
         # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
         #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
         newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
              A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
 
-- 
2.43.0


From c356876b1b8e18dfc0f16693bb3dc71b9b378efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 010/110] fix: the entropy of a distribution with zeros was
 NaN, and the fallback read the wrong cells

---
 sidetopics/util/se_fast.pyx           | 6 ++++--
 sidetopics/util/sparse_elementwise.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 4f8ca41..c624b55 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -184,7 +184,8 @@ def entropyOfDot_f8 (double[:,:] topics, double[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # as z log z tends to zero when z does
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
@@ -236,7 +237,8 @@ def entropyOfDot_f4 (float[:,:] topics, float[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # as z log z tends to zero when z does
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 3a87ab6..7c75a5a 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,9 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                z = (topics[d,k] / denom) * vocab[k,t]
+                if z > 0:
+                    result -= z * log (z)
     
     return result
 
-- 
2.43.0


From 4b1248a216e86347605c1a33bae91a3508c1ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 011/110] fix: csr_indices gave a list index numpy rejects, and
 selfSoftDot a missing kernel

---
 sidetopics/util/sparse_elementwise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 7c75a5a..9e9e082 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -8,6 +8,7 @@ import os
 import numpy as np
 import scipy.sparse as ssp
 import sidetopics.util.se_fast as compiled
+import sidetopics.util.sig_fast as compiled_sig
 from math import log
 import sys
 from sidetopics.util.overflow_safe import safe_log
@@ -61,9 +62,9 @@ def selfSoftDot(matrix):
     '''
     assert not np.isfortran(matrix), "Matrix is not stored in row-major form"
     if matrix.dtype == np.float64:
-        return compiled.selfSoftDot_f8(matrix)
+        return compiled_sig.selfSoftDot_f8(matrix)
     elif matrix.dtype == np.float32:
-        return compiled.selfSoftDot_f4(matrix)
+        return compiled_sig.selfSoftDot_f4(matrix)
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (selfSoftDot)")
@@ -391,4 +392,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return rows, ind.tolist()
-- 
2.43.0


From 0ca200384cca069af89b461edcc6dd97d2e067cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 012/110] fix: scaledSelfSoftDot ignored the scale

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..afd7bec 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(np.asarray(scale)[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From 4514c40994c51bf7680a553d3b9881b15743cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 013/110] fix: vec_transpose failed for integer matrices

---
 sidetopics/util/vectrans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..1604e10 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -118,18 +118,18 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
+    elif np.isfortran(A):
         raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From 405e36c952718ffc9488b5ef8e9f93f0c6805719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 014/110] fix: safe_log_one_plus used its small-argument series
 for large negative arguments

---
 sidetopics/util/overflow_safe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index dde5ad5..6367ac5 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -140,7 +140,8 @@ def safe_log_one_plus(x):
     '''
     
     out = np.ndarray(x.shape)
-    out[x > 0.375] = np.log(1. + x[x > 0.375])
+    large = np.abs(x) > 0.375
+    out[large] = np.log(1. + x[large])
 
     # For smaller arguments we use a rational approximation
     # to the function log(1+x) to avoid the loss of precision
@@ -154,13 +155,13 @@ def safe_log_one_plus(x):
     q2 =   0.747811014037616e+00;
     q3 =  -0.845104217945565e-01;
 
-    buf = x[x <= 0.375]
+    buf = x[~large]
     
     t = buf /(buf + 2.0);
     t2 = t*t;
     w = (((p3*t2 + p2)*t2 + p1)*t2 + 1.0)/(((q3*t2 + q2)*t2 + q1)*t2 + 1.0);
     
-    out[x <= 0.375] = 2.0*t*w
+    out[~large] = 2.0*t*w
     
     return out
 
-- 
2.43.0


From 57b058aab523736edfc6d24a186ee0e528ffbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:41 +0000
Subject: [PATCH 015/110] fix: precision at m looked at m+1 links, and needed a
 group for every document

---
 sidetopics/model/evals.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..ad4ef1d 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -106,12 +106,10 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     docCounts
     '''
     def find_group (outLinkCount, rangeTuples):
-        i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
-            or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
-            i += 1
-        return rangeTuples[i]
+        for group in rangeTuples:
+            if group != AllGroups and group[0] <= outLinkCount <= group[1]:
+                return group
+        return None # the document is counted in AllGroups only
 
     if at is None:
         at = [100]
@@ -123,7 +121,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = groups + [AllGroups]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
@@ -149,7 +147,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
@@ -157,13 +155,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g is not None:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g is not None:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From 45cdad06b9e7c80c9edb8059726794f530089700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 016/110] fix: the log-likelihood of a mixture added a
 likelihood to a log-likelihood

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..6bb1bb3 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -557,7 +557,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From 45e8f49fd12dea62f05009663898735c58bb0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 017/110] fix: the log-likelihood of an admixture was per word,
 not per document

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 6bb1bb3..b466e7b 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -537,7 +537,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 words = words.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
-            return sparseScalarProductOfSafeLnDot(words, weightings, components)
+            per_word_log_likes = sparseScalarProductOfSafeLnDot(words, weightings, components)
+            return np.squeeze(np.asarray(per_word_log_likes.sum(axis=1)), axis=1)
         elif model_type.is_mixture():
             lnWeights = safe_log(weightings)
             lnComps = safe_log(components)
-- 
2.43.0


From b5a0104ee77a13edaaa2d9d32841fd0b4e17a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:31 +0000
Subject: [PATCH 018/110] fix: TopicModel.copy could not create its copy

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index b466e7b..4b8fcfe 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,9 +230,10 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            module = TopicModelType[self.kind].value
+            result._model_state = module.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
         return result
     
-- 
2.43.0


From 92d8be49adcdebea0eaea2a5978dbe33efa86798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:17 +0000
Subject: [PATCH 019/110] fix: deep copies of models took variances for means,
 or shared their priors

---
 sidetopics/model/lda_cvb.py   | 6 +++---
 sidetopics/model/mom_em.py    | 4 ++--
 sidetopics/model/mom_gibbs.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..d048dee 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..ab0d3a1 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -52,8 +52,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        np.copy(model.topicPrior), \
+        np.copy(model.vocabPrior), \
         None if model.wordDistParam is None else model.wordDistParam.copy(),
         None if model.corpusTopicDistParam is None else model.corpusTopicDistParam.copy(),
         model.processed, \
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..b855679 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -45,7 +45,7 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
+        np.copy(model.topicPrior), \
         model.vocabPrior, \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
-- 
2.43.0


From c9ad0a752e8c3a1c57ad69d65230e8d2e8138ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 020/110] fix: LDA/CVB's variance counts grew without bound in
 32 bits, and overwrote the counts on further training

---
 sidetopics/model/lda_cvb.py       | 2 +-
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index d048dee..399ac02 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -319,7 +319,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From 9e7754dbd709bb6c7401bb2457f42c1934319a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 021/110] fix: LDA/CVB and CVB0 could not train with the scalar
 topic prior they document

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 399ac02..2a0fe15 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -227,7 +227,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         modelState.K, modelState.topicPrior, modelState.vocabPrior, \
         modelState.n_dk, modelState.n_kt, modelState.n_k, \
         modelState.v_dk, modelState.v_kt, modelState.v_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..135d4bb 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -216,7 +216,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         queryState.W_list, queryState.docLens, queryState.n_dk, queryState.n_kt, queryState.n_k, queryState.z_dnk
     K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k = \
         modelState.K, modelState.topicPrior, modelState.vocabPrior, modelState.n_dk, modelState.n_kt, modelState.n_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
-- 
2.43.0


From 2a2f999b4e708cabebabbbd8e9b63fbfcc0d5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 022/110] fix: the bound of LDA/CVB and CVB0 subtracted the
 entropy

---
 sidetopics/model/lda_cvb.py  | 4 ++--
 sidetopics/model/lda_cvb0.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 2a0fe15..ecfcc74 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -462,9 +462,9 @@ def var_bound(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 135d4bb..02be96b 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -431,9 +431,9 @@ def log_likelihood_expected(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
-- 
2.43.0


From 21e24c394eb8d154c9b41e060d24ac5f095b3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 023/110] fix: the seed given for LDA/Gibbs was ignored

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..43c4360 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -176,8 +176,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed)
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From f9e1777f38d7776b3429ca7e4157aa61b5b75057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 024/110] fix: the Gibbs samplers assigned topic -1, out of
 bounds, for draws which were not positive

---
 sidetopics/model/dmr_fast.pyx       | 7 ++++---
 sidetopics/model/lda_gibbs_fast.pyx | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..1f4b535 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -254,10 +254,11 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
+                    k = 0 # even if the draw is zero, we must stay within 0..K-1
                     draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    draw -= dist[k]
+                    while draw > 0 and k < K - 1:
+                        k += 1
                         draw -= dist[k]
 
                     z_list[n] = k
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..1de3e21 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -243,10 +243,11 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
+                    k = 0 # even if the draw is zero, we must stay within 0..K-1
                     draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    draw -= dist[k]
+                    while draw > 0 and k < K - 1:
+                        k += 1
                         draw -= dist[k]
                         
                     z_list[n] = k
-- 
2.43.0


From 94fb7ffc1ea8b55f7fc6b6c3968df43a63818f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 025/110] fix: the Gibbs samplers took no sample, and so
 returned NaNs, with few iterations

---
 sidetopics/model/dmr.py       | 1 +
 sidetopics/model/lda_gibbs.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..56618de 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -159,6 +159,7 @@ def newTrainPlan (iterations, burnIn = -1, thin = -1, weightUpdateInterval = -1,
         thin = 5 if iterations <= 500 \
             else 10 if iterations <= 1000 \
             else 50
+    thin = max(1, min(thin, iterations)) # take one sample at least
 
     if burnIn < 0:
         burnIn = iterations // 4
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 43c4360..990d15f 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -171,6 +171,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+    thin = max(1, min(thin, iterations)) # take one sample at least
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From a73065299073fc2da1f434e33eaa6254663cf0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:06 +0000
Subject: [PATCH 026/110] fix: queries of the Gibbs samplers returned the model
 with the query's number of samples

---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 56618de..ae69db6 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -351,7 +351,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 990d15f..804b905 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -254,7 +254,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From f93301f643819109f6a24c8cf124034287378e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:25 +0000
Subject: [PATCH 027/110] fix: DMR sampled with linear, possibly negative,
 topic priors while its objective has exponentials

---
 sidetopics/model/dmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index ae69db6..e615a90 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -197,7 +197,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T)) # as in the objective
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -207,7 +207,7 @@ def train (data, model, query, plan):
     if debug: print ("Training")
     sample_count = 0
     for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
+        alphas[:,:] = np.exp(X.dot(weights.T))
         sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
                 alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
                 vocabPrior, False, debug)
@@ -340,7 +340,7 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T)) # as in the objective
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
-- 
2.43.0


From 4b9032886c016f6b9c9aedb7ccffde7f4f3cf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:25 +0000
Subject: [PATCH 028/110] fix: DMR wrote past the end of its samples, and each
 block of samples overwrote the last

---
 sidetopics/model/dmr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index e615a90..09511e7 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -206,10 +206,10 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
+    for done in range(0, iterations - burnIn, weightUpdateInterval):
         alphas[:,:] = np.exp(X.dot(weights.T))
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+        sample_count += compiled.sample (min(weightUpdateInterval, iterations - burnIn - done), thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
         if debug: # Print out the perplexity so far
@@ -346,7 +346,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
-- 
2.43.0


From 95194158e39cc1305fcd5781c64af80b00995ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:25 +0000
Subject: [PATCH 029/110] fix: the mixture's Gibbs sampler failed with fewer
 than ten iterations, or when logging

---
 sidetopics/model/mom_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index b855679..fb89c2f 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -140,7 +140,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
@@ -282,7 +282,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From b5710c0ff358484c2addb8efff714174c68363bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:25 +0000
Subject: [PATCH 030/110] fix: models with fewer than ten iterations queried
 for no iterations at all

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 4b8fcfe..6e9b167 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -197,7 +197,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self.bound_ = math.nan
 
         self.iterations = iterations
-        self.query_iterations = query_iterations or self.iterations // 10
+        self.query_iterations = query_iterations or max(1, self.iterations // 10)
         self.perp_tolerance = perp_tolerance or 0.1
         self.use_approximations = use_approximations
         self.log_frequency = log_frequency
-- 
2.43.0


From b9faafbecb3e6b5912d0f0bc0b3c7aab2be16514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:54 +0000
Subject: [PATCH 031/110] fix: scoring given topics failed for LDA/Gibbs,
 amending a query state nothing uses

---
 sidetopics/model/sklearn/lda_cvb.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 6e9b167..7979055 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -461,16 +461,6 @@ class TopicModel(BaseEstimator, TransformerMixin):
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
                                  "Pass in the full query-state to get a Bayesian estimate")
-            query_state = self.make_or_resume_query_state(X, should_resume=False)
-            query_state_fields = dir(query_state)
-            if "topicDists" in query_state_fields:
-                query_state = query_state._replace(topicDists=(y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype))
-            elif "n_dk" in query_state_fields:
-                n_dk = (y * X.doc_lens[:, np.newaxis]).astype(self._model_state.dtype)
-                n_k = n_dk.sum(axis=0)
-                query_state = query_state._replace(n_dk=n_dk, n_k=n_k)
-            else:
-                raise ValueError("Can't amend query-state")
         elif y_query_state is not None:
             query_state = y_query_state
             y = module.topicDists(y_query_state)
-- 
2.43.0


From afd2ead5ca46c591e4006660d9a52a727ef6d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:54 +0000
Subject: [PATCH 032/110] fix: the perplexity of LDA/Gibbs could not be scored

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 7979055..5f2b27e 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -27,6 +27,7 @@ import sidetopics.model.lda_svb as _lda_svb
 import sidetopics.model.lda_vb_python as _lda_vb_python
 import sidetopics.model.mom_em as _mom_em
 import sidetopics.model.mom_gibbs as _mom_gibbs
+from sidetopics.model.evals import perplexity_from_like
 from gensim.sklearn_api import HdpTransformer
 from gensim.corpora.dictionary import Dictionary
 from gensim import matutils
@@ -474,7 +475,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
         if method.is_perplexity():
             logging.info("Converting log likelihood to perplexity")
-            return module.perplexity_from_like(
+            return perplexity_from_like(
                 log_prob,
                 X.word_count
             )
-- 
2.43.0


From 6b5729385c8c70a218c2e911488a5bd7a7b67ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:31 +0000
Subject: [PATCH 033/110] fix: scoring by the bound failed unless a query state
 was given

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 5f2b27e..c831125 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -453,7 +453,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                query_state = self.find_query_state_via_transform(X, kwargs, persist_query_state=False)
+                y = module.topicDists(query_state)
             else:
                 test_infer, test_eval = X.doc_completion_split()
                 y = self.transform(test_infer)
-- 
2.43.0


From 3324aeb1669c16e0dbccc209442467fa6f406e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:11 +0000
Subject: [PATCH 034/110] fix: scalar priors which are not Python floats were
 rejected

---
 sidetopics/model/dmr.py           | 4 +++-
 sidetopics/model/lda_gibbs.py     | 4 ++--
 sidetopics/model/lda_vb_python.py | 2 +-
 sidetopics/model/mom_em.py        | 2 +-
 sidetopics/model/mom_gibbs.py     | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 09511e7..bf8e635 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -94,10 +94,12 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
     
     if topicPrior is None:
         topicPrior = constantArray((K,), 50.0 / K, dtype=dtype) # From Griffiths and Steyvers 2004
-    if type(topicPrior) == float or type(topicPrior) == int:
+    if np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
+    elif np.isscalar(vocabPrior):
+        vocabPrior = constantArray((T,), vocabPrior, dtype=dtype)
         
     n_dk_samples = None # These start out at none until we actually
     topicSum     = None
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 804b905..da6ca0b 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -90,11 +90,11 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 50.0 / K, dtype=dtype) # From Griffiths and Steyvers 2004
-    if type(topicPrior) == float or type(topicPrior) == int:
+    if np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
-    elif type(vocabPrior) is float:
+    elif np.isscalar(vocabPrior):
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype) # Also from G&S
 
     topicSum  = None # These start out at none until we actually
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..87fc3ab 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -89,7 +89,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype) # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype) # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index ab0d3a1..3b0c400 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -86,7 +86,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)
     if vocabPrior is None:
         vocabPrior = VOCAB_PRIOR
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index fb89c2f..cad3016 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -78,7 +78,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)  # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
-- 
2.43.0


From a79f292fff6b35cebbd0fe13c211b635bbedf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:11 +0000
Subject: [PATCH 035/110] fix: querying the mixture's Gibbs sampler for a
 single iteration returned NaNs

---
 sidetopics/model/mom_gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index cad3016..1a4c3e0 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -330,6 +330,9 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0: # too few iterations for burn-in and thinning
+        sample_accum += topicDists
+        sample_count = 1
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From 880036c9c5dd21923c32e94a6e17b8f320d0d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:11 +0000
Subject: [PATCH 036/110] fix: the bound of the mixture of multinomials failed,
 so it could not log its progress

---
 sidetopics/model/mom_em.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 3b0c400..6f2f193 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -392,35 +392,29 @@ def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
     '''
-    bound = 0
-
     # Unpack the the structs, for ease of access and efficiency
-    docLens, topicMeans = \
-        query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
-
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
+    topicParam, wordParam = corpusTopicDistDirichletParam(model), wordDistsDirichletParam(model)
 
-    # Initialize z matrix if necessary
-    W = data.words
-    D, T = W.shape
-
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
+    lnTopic = fns.digamma(topicParam) - fns.digamma(topicParam.sum())
+    lnWord  = fns.digamma(wordParam)  - fns.digamma(wordParam.sum(axis=1))[:, np.newaxis]
 
+    def lnNorm(param):  # log of the Dirichlet's normalizing constant
+        return fns.gammaln(param.sum(axis=-1)) - fns.gammaln(param).sum(axis=-1)
 
-    # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
+    # Expected joint of words and topics, and the entropy of the topics
+    bound = (tops * ((data.words @ lnWord.T) + lnTopic[np.newaxis, :])).sum()
+    bound -= (tops * safe_log(tops)).sum()
 
-    # Entropy
-    ent = (-topicMeans * safe_log(topicMeans)).sum()
+    # Expected log priors, and the entropies, of the two sets of parameters
+    bound += lnNorm(model.topicPrior) - lnNorm(topicParam) \
+           + ((model.topicPrior - topicParam) * lnTopic).sum()
+    bound += model.K * lnNorm(model.vocabPrior) - lnNorm(wordParam).sum() \
+           + ((model.vocabPrior[np.newaxis, :] - wordParam) * lnWord).sum()
 
-    return like.sum() + ent
+    return bound
 
 
 
-- 
2.43.0


From eb1c090cc78aa0c55fd9bbe3991724f0f4d5cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:30 +0000
Subject: [PATCH 037/110] fix: querying LDA/VB (Python) retrained the model's
 word distributions on the queried documents

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 87fc3ab..912d152 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab: # a query, which leaves the model as it is
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From d11133104da0137c114e01a69ce53aa1eb316559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:30 +0000
Subject: [PATCH 038/110] fix: fit_transform of a plain array failed, resuming
 with another dataset

---
 sidetopics/model/sklearn/lda_cvb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index c831125..21c3d55 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -241,6 +241,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
     
 
     def fit_transform(self,  X: Union[np.ndarray, DataSet], y: np.ndarray = None, **kwargs) -> np.ndarray:
+        if type(X) is not DataSet: # so fit and transform see the same dataset
+            X = DataSet(words=X)
         return self.fit(
             X, y,
             persist_query_state=True,
-- 
2.43.0


From a094297da20187ac5548a5e44fe4b09a63d050a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:55 +0000
Subject: [PATCH 039/110] fix: words and links were converted to sparse CSR
 matrices in debug mode only

---
 sidetopics/model/common.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 653c932..eb377e5 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -41,13 +41,13 @@ class DataSet:
             assert links is None or (type(links) is ssp.csr_matrix or auto_convert_to_sparse), "Links are not stored as a sparse CSR matrix"
             if words.shape[1] < 100:
                 logging.warning("Fewer than 100 words in the document-words matrix, which seems unlikely")
-        else:
-            if type(words) is not ssp.csr_matrix:
-                logging.warning("Converting words to sparse CSR matrix")
-                words = ssp.csr_matrix(words)
-            if (links is not None) and (type(links) is not ssp.csr_matrix):
-                logging.warning("Converting links to sparse CSR matrix")
-                links = ssp.csr_matrix(links)
+
+        if type(words) is not ssp.csr_matrix:
+            logging.warning("Converting words to sparse CSR matrix")
+            words = ssp.csr_matrix(words)
+        if (links is not None) and (type(links) is not ssp.csr_matrix):
+            logging.warning("Converting links to sparse CSR matrix")
+            links = ssp.csr_matrix(links)
 
         # Now that the checks are done with, assign the values and apply the ordering.
         self._words = words
-- 
2.43.0


From 62317df7e8688fdc6447868bd44a709c2f04a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:15 +0000
Subject: [PATCH 040/110] fix: LDA/CVB and CVB0 did not coerce integer word
 counts to 32 bits, as documented

---
 sidetopics/model/lda_cvb.py  | 2 ++
 sidetopics/model/lda_cvb0.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index ecfcc74..c961fc6 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -185,6 +185,8 @@ def toWordList (w_csr):
         return compiled.toWordList_f32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
     elif w_csr.dtype == np.float64:
         return compiled.toWordList_f64 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
+    elif np.issubdtype(w_csr.dtype, np.integer):
+        return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data.astype(np.int32), docLens), docLens
     else:
         raise ValueError("No implementation defined for dtype = " + str(w_csr.dtype))
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 02be96b..e241fcf 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -170,6 +170,8 @@ def toWordList (w_csr):
         return compiled.toWordList_f32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
     elif w_csr.dtype == np.float64:
         return compiled.toWordList_f64 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
+    elif np.issubdtype(w_csr.dtype, np.integer):
+        return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data.astype(np.int32), docLens), docLens
     else:
         raise ValueError("No implementation defined for dtype = " + str(w_csr.dtype))
 
-- 
2.43.0


From 9776bd20b36da63c9d73b8fd53e2272f6a2f5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 041/110] fix: the mixture's Gibbs sampler subtracted one from
 the topic prior, so empty topics got negative weights

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 1a4c3e0..2f22a88 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -183,7 +183,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0


From bbf8ddb13b456fc8e0d10c0e1a8d13e7f3f91597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 042/110] fix: scoring given topics failed for 32-bit models if
 the topics were 64-bit

---
 sidetopics/model/sklearn/lda_cvb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 21c3d55..667cae1 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -530,6 +530,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
             words = X.words
             if words.dtype != components.dtype:
                 words = words.astype(components.dtype)
+            if weightings.dtype != components.dtype:
+                weightings = weightings.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
             per_word_log_likes = sparseScalarProductOfSafeLnDot(words, weightings, components)
-- 
2.43.0


From d42cb21bb262bd8e1a0171d8b9f92f44f89a360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 043/110] fix: LDA/VB (Python)'s log-likelihood failed for
 words which are not 64-bit floats

---
 sidetopics/model/lda_vb_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 912d152..75805bc 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -203,7 +203,8 @@ def log_likelihood (data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    W = data.words if data.words.dtype == model.dtype else data.words.astype(model.dtype)
+    wordLikely = sparseScalarProductOfSafeLnDot(W, tops, wordDists(model)).sum()
 
     return wordLikely
 
-- 
2.43.0


From 46709b348266628cf46eb0e0a1ce8303504b83b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:30 +0000
Subject: [PATCH 044/110] fix: the mixture's expected log-likelihood failed
 whenever it was given topics

---
 sidetopics/model/mom_em.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 6f2f193..96b239b 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -324,17 +324,15 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
         alpha[:, :] = corpusTopicDistDirichletParam(model)[np.newaxis, :]
         alpha_sum = np.ndarray(shape=(len(data),), dtype=model.dtype)
         alpha_sum[:] = corpusTopicDistDirichletParam(model).sum()
+
+        lls += fns.loggamma(alpha_sum)[:, np.newaxis]
+        lls -= fns.loggamma(alpha_sum + 1)[:, np.newaxis]
+        # FIXME this memory explosion needs to be contained
+        lls += np.sum(fns.loggamma(np.eye(model.K)[np.newaxis, :, :] + alpha[:, :, np.newaxis]), axis=1)
+        lls -= np.sum(fns.loggamma(alpha), axis=1)[:, np.newaxis]
     else:  # Use a different distribution, e.g. the posterior from a doc-completion split
         logging.info("Returning likelihood based on given (e.g. posterior) assignments")
-        alpha = corpusTopicDistDirichletParam(model)  # DxK
-        alpha_sum = alpha.sum(axis=1)                 # Dx1
-
-    lls = np.zeros(shape=(len(data), model.K), dtype=model.dtype)
-    lls += fns.loggamma(alpha_sum)[:, np.newaxis]
-    lls -= fns.loggamma(alpha_sum + 1)[:, np.newaxis]
-    # FIXME this memory explosion needs to be contained
-    lls += np.sum(fns.loggamma(np.eye(model.K)[np.newaxis, :, :] + alpha[:, :, np.newaxis]), axis=1)
-    lls -= np.sum(fns.loggamma(alpha), axis=1)[:, np.newaxis]
+        lls += safe_log(topicDists(query))  # DxK
 
     # # Try at this point using the point estimate of the prior and see what happens to isolate.
     # if query is not None:
-- 
2.43.0


From d6954e2e2bfbb5d939fdb0a096e19d6dc828306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:08 +0000
Subject: [PATCH 045/110] fix: a data-set of a single document could not be
 queried, as its document lengths had no dimension

---
 sidetopics/model/common.py                     | 16 ++++++++--------
 sidetopics/model/ctm.py                        |  2 +-
 sidetopics/model/ctm_bohning.py                |  2 +-
 sidetopics/model/ctm_bohning_fast.py           |  2 +-
 sidetopics/model/ctm_grad_arb.py               |  2 +-
 sidetopics/model/dmr_fast.pyx                  |  2 +-
 sidetopics/model/lda_cvb.py                    |  2 +-
 sidetopics/model/lda_cvb0.py                   |  2 +-
 sidetopics/model/lda_gibbs_fast.pyx            |  2 +-
 sidetopics/model/lda_vb_python.py              |  2 +-
 sidetopics/model/mom_em.py                     |  4 ++--
 sidetopics/model/mom_gibbs.py                  |  2 +-
 sidetopics/model/mtm.py                        |  4 ++--
 sidetopics/model/mtm2.py                       |  4 ++--
 sidetopics/model/mtm3.py                       | 12 ++++++------
 sidetopics/model/rtm.py                        |  2 +-
 sidetopics/model/self_lda_vb_python.py         |  2 +-
 sidetopics/model/sim_based_rec.py              |  6 +++---
 sidetopics/model/stm_uv_vec_y_bohning.py       |  2 +-
 sidetopics/model/stm_uv_vecy_bohning.py        |  2 +-
 sidetopics/model/stm_yv_bohning.py             |  2 +-
 sidetopics/model/stm_yv_bohning_fake_online.py |  2 +-
 sidetopics/run/__main__.py                     |  2 +-
 23 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index eb377e5..f303266 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -166,7 +166,7 @@ class DataSet:
             )
 
     def words_with_min_freq(self, min_doc_count_incl: int = 10) -> "DataSet":
-        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)))
+        docs_per_word_count = np.array(self.words.astype(bool).sum(axis=0)).ravel()
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
@@ -217,7 +217,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.array(self.words.sum(axis=1)).ravel()
 
     @property
     def order(self):
@@ -345,7 +345,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.asarray(tmp.sum(axis=1)).ravel()
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             self._order = good_rows
@@ -365,13 +365,13 @@ class DataSet:
 
         trimmed = False
         original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+        link_counts = np.array(self._links.sum(axis=1)).ravel()
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs)
             self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+            link_counts = np.array(self._links.sum(axis=1)).ravel()
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
         if trimmed:
@@ -484,8 +484,8 @@ class DataSet:
 
         doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.asarray(words_train.astype(bool).sum(axis=1)).ravel()
+            q_lens = np.asarray(words_query.astype(bool).sum(axis=1)).ravel()
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
@@ -570,7 +570,7 @@ class DataSet:
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.array(np.abs(self._feats[:,features].sum(axis=1))).ravel()
         trainDocs = np.where(mask < Epsilon)[0]
         queryDocs = np.where(to_dense_array(self._feats[:,[features[0]]]).ravel() > Epsilon)[0]
 
diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..6950d27 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.asarray(W.sum(axis=1)).ravel()
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..6702411 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index dc1645e..d56fb16 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..6702411 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 1f4b535..356c907 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -367,7 +367,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).ravel()
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index c961fc6..582c3a4 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).ravel().astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index e241fcf..e9bbe9d 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).ravel().astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 1de3e21..a741ec4 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -308,7 +308,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).ravel()
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 75805bc..9ca4d47 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 96b239b..511f24e 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
@@ -341,7 +341,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.array(data.words.sum(axis=1)).ravel()
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 2f22a88..dfdabaf 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mtm.py b/sidetopics/model/mtm.py
index 7c094e8..efb5a7c 100644
--- a/sidetopics/model/mtm.py
+++ b/sidetopics/model/mtm.py
@@ -105,7 +105,7 @@ def newQueryState(data, model):
     :return: a new QueryState object
     '''
     D, Q, K = data.doc_count, model.Q, model.K
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Use one large matrix, partitioned into submatrices, to try to make this
     # a little more cache friendly.
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     exp_tsums_bytop    = topics.sum(axis=0)
     np.log(topics, out=topics)
 
-    out_counts = docLens + np.squeeze(np.asarray(data.links.sum(axis=0)))
+    out_counts = docLens + np.asarray(data.links.sum(axis=0)).ravel()
     in_counts = np.empty((K,), dtype=model.dtype) # Just invent a nonsense value
     in_counts.fill(data.links.sum() / K)
 
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index e21b653..d9a50b8 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -154,7 +154,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
     
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     varcs = np.ones((D,K), dtype=dtype)
@@ -191,7 +191,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).ravel()
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..e0f76e3 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -186,7 +186,7 @@ def _newQueryStateFromCtm(data, model):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     outMeans = ctm_query.means
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -216,7 +216,7 @@ def _newQueryStateFromLda(data, model, ldaQueryState):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     outMeans = np.log(lda_topics(ldaQueryState))
     m = outMeans.mean()
@@ -258,7 +258,7 @@ def newQueryState(data, modelState, withLdaTopics=None):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
     
     outMeans = normalizerows_ip(rd.random((D,K)).astype(dtype))
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -300,7 +300,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).ravel()
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
@@ -508,7 +508,7 @@ def query(data, modelState, queryState, queryPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).ravel()
 
     # Book-keeping for logs
     boundIters, boundValues, likelyValues = [], [], []
@@ -653,7 +653,7 @@ def var_bound(data, modelState, queryState):
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-    linkLens = np.squeeze(np.array(L.sum(axis=1)))
+    linkLens = np.array(L.sum(axis=1)).ravel()
     bound += np.sum(outMeans * top_sums)
     bound -= np.sum((docLens + linkLens) * np.log(np.sum(expMeansOut, axis=1)))
 
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 07dd63f..e9f34d2 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -118,7 +118,7 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/self_lda_vb_python.py b/sidetopics/model/self_lda_vb_python.py
index 8ac80ae..336d0ba 100644
--- a/sidetopics/model/self_lda_vb_python.py
+++ b/sidetopics/model/self_lda_vb_python.py
@@ -105,7 +105,7 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 5c73813..6441d48 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,13 +175,13 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.squeeze(np.array(data.words.sum(axis=1)))
+        docLens = np.array(data.words.sum(axis=1)).ravel()
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
         occ  = data.words.astype(np.bool).astype(dtype)
-        docCount = np.squeeze(np.array(occ.sum(axis=0)))
+        docCount = np.array(occ.sum(axis=0)).ravel()
         docCount += 1
         idf = np.log(D / docCount)
 
@@ -397,7 +397,7 @@ def csr_row_norms(X):
 
     X2 = ssp.csr_matrix((norm_dat, X.indices, X.indptr), shape=X.shape)
 
-    norms = np.squeeze(np.array(X2.sum(axis=1)))
+    norms = np.array(X2.sum(axis=1)).ravel()
     norms **= 0.5
 
     return norms
diff --git a/sidetopics/model/stm_uv_vec_y_bohning.py b/sidetopics/model/stm_uv_vec_y_bohning.py
index c8404b4..9564094 100644
--- a/sidetopics/model/stm_uv_vec_y_bohning.py
+++ b/sidetopics/model/stm_uv_vec_y_bohning.py
@@ -178,7 +178,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index f9024d6..0359ad9 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..e85ba0b 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning_fake_online.py b/sidetopics/model/stm_yv_bohning_fake_online.py
index 44abd57..1116f50 100644
--- a/sidetopics/model/stm_yv_bohning_fake_online.py
+++ b/sidetopics/model/stm_yv_bohning_fake_online.py
@@ -138,7 +138,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..7c8fb3b 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -341,7 +341,7 @@ def popular_indices(data, word_indices, count=50):
     :param count: how many hashtag indices should we return
     :return: the indices of the most popular hashtags
     '''
-    word_counts  = np.squeeze(np.array(data.words[:,word_indices].sum(axis=0)))
+    word_counts  = np.array(data.words[:,word_indices].sum(axis=0)).ravel()
 
     popular_word_count_indices = word_counts.argsort()[-count:][::-1]
     popular_word_indices = [word_indices[i] for i in popular_word_count_indices]
-- 
2.43.0


From fd9018c5cd9c5db9f70db233a01931fbf8f8a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:08 +0000
Subject: [PATCH 046/110] fix: the mixture's Gibbs sampler could not log its
 progress for words which are not 64-bit floats

---
 sidetopics/model/mom_gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index dfdabaf..fbdadce 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -175,7 +175,8 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    W = data.words if data.words.dtype == model.dtype else data.words.astype(model.dtype)
+    wordLikely = sparseScalarProductOfSafeLnDot(W, tops, wordDists(model)).sum()
     return wordLikely
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
-- 
2.43.0


From fb48eeb18a6902a28d3092ee953d8809b5afab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:05 +0000
Subject: [PATCH 047/110] fix: LDA/CVB and CVB0 returned NaN or negative word
 probabilities for topics without words

---
 sidetopics/model/lda_cvb.py  | 5 +++--
 sidetopics/model/lda_cvb0.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 582c3a4..462332b 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -173,7 +173,8 @@ def topicDists(query):
     return query.n_dk / query.n_dk.sum(axis=1)[:,np.newaxis]
 
 def wordDists(model):
-    return model.n_kt / model.n_kt.sum(axis=1)[:,np.newaxis]
+    n_kt = model.n_kt + model.vocabPrior # never zero, not even for topics without words
+    return n_kt / n_kt.sum(axis=1)[:,np.newaxis]
 
 
 def toWordList (w_csr):
@@ -480,7 +481,7 @@ def vocab(modelState):
     Return the vocabulary inferred by this model as a KxT matrix of T
     terms for each of the K topics
     '''
-    return modelState.n_kt / (modelState.n_kt.sum(axis=1))[:,np.newaxis]
+    return wordDists(modelState)
 
 
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index e9bbe9d..6f3d082 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -188,7 +188,8 @@ def topicDists(query):
     return query.n_dk / query.n_dk.sum(axis=1)[:,np.newaxis]
 
 def wordDists(model):
-    return model.n_kt / model.n_kt.sum(axis=1)[:,np.newaxis]
+    n_kt = model.n_kt + model.vocabPrior # never zero, not even for topics without words
+    return n_kt / n_kt.sum(axis=1)[:,np.newaxis]
 
 
 def train (data, modelState, queryState, trainPlan, query=False):
@@ -449,7 +450,7 @@ def vocab(modelState):
     Return the vocabulary inferred by this model as a KxT matrix of T
     terms for each of the K topics
     '''
-    return modelState.n_kt / (modelState.n_kt.sum(axis=1))[:,np.newaxis]
+    return wordDists(modelState)
 
 
 
-- 
2.43.0


From a91e6f688a8eca5c9cb225aefec3633a7697d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:50 +0000
Subject: [PATCH 048/110] fix: LDA/VB (Python)'s first learning rates exceeded
 one, leaving negative word probabilities

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 9ca4d47..464adfa 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -415,7 +415,7 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                stepSize[:] = max(1., b + plan.rate_delay)**(-plan.forgetting_rate) # never more than one
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From 1a34709ec8fc648bca13318c222e703c08137b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:18 +0000
Subject: [PATCH 049/110] fix: DMR took no samples, or fewer than planned, if
 weights were updated between samples

---
 sidetopics/model/dmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index bf8e635..3340b0c 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -161,7 +161,7 @@ def newTrainPlan (iterations, burnIn = -1, thin = -1, weightUpdateInterval = -1,
         thin = 5 if iterations <= 500 \
             else 10 if iterations <= 1000 \
             else 50
-    thin = max(1, min(thin, iterations)) # take one sample at least
+    thin = max(1, min(thin, iterations - max(burnIn, 0))) # take one sample at least
 
     if burnIn < 0:
         burnIn = iterations // 4
@@ -169,6 +169,7 @@ def newTrainPlan (iterations, burnIn = -1, thin = -1, weightUpdateInterval = -1,
 
     if weightUpdateInterval < 0:
         weightUpdateInterval = thin * 10 # TODO Revert to 5
+    weightUpdateInterval = max(thin, weightUpdateInterval - weightUpdateInterval % thin) # whole samples only
 
     return TrainPlan(iterations, burnIn, thin, weightUpdateInterval, logFrequency, debug)
 
-- 
2.43.0


From aa4273952db3eda8bc986c9ee21ffe5fd76be09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 050/110] fix: sparse products of matrices of mismatched shapes
 read and wrote out of bounds

---
 sidetopics/util/sparse_elementwise.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 9e9e082..c78da18 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -130,6 +130,18 @@ def entropyOfDot_py (topics, vocab):
 
 
 
+def _check_shapes(A, B, C, out, rows):
+    '''
+    The native implementations do no bounds checking, so this ensures that the
+    inner product of B and C has as many rows as are processed, and a column for
+    every column of A, and that the output has space for the result.
+    '''
+    if B.shape[0] != rows or C.shape[1] != A.shape[1] or B.shape[1] != C.shape[0]:
+        raise ValueError("Mismatched shapes: B %s and C %s for %d rows of %d columns" % (B.shape, C.shape, rows, A.shape[1]))
+    if out.shape != (rows, A.shape[1]):
+        raise ValueError("Mismatched shapes: the output is %s for %d rows of %d columns" % (out.shape, rows, A.shape[1]))
+
+
 def sparseScalarQuotientOfDot (A, B, C, out=None, start=None, end=None):
     '''
     Returns A / np.dot(B, C), however it does so keeping in  mind 
@@ -157,6 +169,7 @@ def sparseScalarQuotientOfDot (A, B, C, out=None, start=None, end=None):
         end = A.shape[0]
     if out is None:
         out = A[start:end,:].copy()
+    _check_shapes(A, B, C, out, end - start)
         
     if A.dtype == np.float64:
         compiled.sparseScalarQuotientOfDot_f8(A.data, A.indices, A.indptr, B, C, out.data, start, end)
@@ -189,6 +202,9 @@ def sparseScalarQuotientOfNormedDot (A, B, C, d, out=None):
 
     if out is None:
         out = A.copy()
+    _check_shapes(A, B, C, out, A.shape[0])
+    if len(d) != C.shape[0]:
+        raise ValueError("Mismatched shapes: %d normalisers for %d rows of C" % (len(d), C.shape[0]))
 
     if A.dtype == np.float64:
         compiled.sparseScalarQuotientOfNormedDot_f8(A.data, A.indices, A.indptr, B, C, d, out.data)
@@ -219,6 +235,7 @@ def sparseScalarProductOfDot (A, B, C, out=None):
 
     if out is None:
         out = A.copy()
+    _check_shapes(A, B, C, out, A.shape[0])
     if A.dtype == np.float64:
         compiled.sparseScalarProductOfDot_f8(A.data, A.indices, A.indptr, B, C, out.data)
     elif A.dtype == np.float32:
@@ -279,6 +296,7 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         end = A.shape[0]
     if out is None:
         out = A[start:end,:].copy()
+    _check_shapes(A, B, C, out, end - start)
 
     if (start, end) == (0, A.shape[0]) and A.dtype == np.float64:
         # out = A.copy()
-- 
2.43.0


From c70dd9fb641e49ba218722924bc930bfec10286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 051/110] fix: LDA/Gibbs, LDA/VB and DMR accepted documents of
 another vocabulary, corrupting memory

---
 sidetopics/model/dmr.py           | 2 ++
 sidetopics/model/lda_gibbs.py     | 2 ++
 sidetopics/model/lda_vb_python.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 3340b0c..9113c11 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -143,6 +143,8 @@ def newQueryState(data, modelState, debug=False):
     K =  modelState.K
     
     D,T = data.words.shape
+    if modelState.T != T:
+        raise ValueError("The model has %d words but the data has %d" % (modelState.T, T))
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
     w_list, docLens = compiled.flatten(data.words)
     docLens = np.asarray(docLens, dtype=np.int32)
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index da6ca0b..559b988 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -136,6 +136,8 @@ def newQueryState(data, modelState, debug=False):
     K =  modelState.K
 
     D,T = data.words.shape
+    if modelState.T != T:
+        raise ValueError("The model has %d words but the data has %d" % (modelState.T, T))
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
     w_list, docLens = compiled.flatten(data.words.astype(np.int32))
     docLens = docLens.astype(np.int32)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 464adfa..d5a6875 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,6 +122,9 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
+    T = modelState.wordDists.shape[1]
+    if T != data.words.shape[1]:
+        raise ValueError("The model has %d words but the data has %d" % (T, data.words.shape[1]))
     docLens = np.asarray(data.words.sum(axis=1)).ravel()
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
-- 
2.43.0


From 5867a9db3ebc2ad22643df5e35558f473f82b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 052/110] fix: LDA/Gibbs and DMR accepted priors of the wrong
 length, reading out of bounds

---
 sidetopics/model/dmr.py       | 2 ++
 sidetopics/model/lda_gibbs.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 9113c11..c5c6cfb 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -100,6 +100,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
     elif np.isscalar(vocabPrior):
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype)
+    if len(topicPrior) != K or len(vocabPrior) != T:
+        raise ValueError("The priors have %d topics and %d words, there should be %d and %d" % (len(topicPrior), len(vocabPrior), K, T))
         
     n_dk_samples = None # These start out at none until we actually
     topicSum     = None
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 559b988..a4ac84a 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -96,6 +96,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
     elif np.isscalar(vocabPrior):
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype) # Also from G&S
+    if len(topicPrior) != K or len(vocabPrior) != T:
+        raise ValueError("The priors have %d topics and %d words, there should be %d and %d" % (len(topicPrior), len(vocabPrior), K, T))
 
     topicSum  = None # These start out at none until we actually
     vocabSum  = None # go ahead and train this model.
-- 
2.43.0


From 236bff9326d4954473533c4d28c1a42230d8bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 053/110] fix: word counts which are fractional, negative or
 not numbers led to invented words or out-of-bounds writes

---
 sidetopics/model/dmr.py       | 2 ++
 sidetopics/model/lda_cvb.py   | 3 +++
 sidetopics/model/lda_cvb0.py  | 3 +++
 sidetopics/model/lda_gibbs.py | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index c5c6cfb..73695a8 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -147,6 +147,8 @@ def newQueryState(data, modelState, debug=False):
     D,T = data.words.shape
     if modelState.T != T:
         raise ValueError("The model has %d words but the data has %d" % (modelState.T, T))
+    if not np.all(np.isfinite(data.words.data)) or np.any(data.words.data < 0) or np.any(data.words.data != np.floor(data.words.data)):
+        raise ValueError("Word counts must be whole numbers, and none may be negative")
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
     w_list, docLens = compiled.flatten(data.words)
     docLens = np.asarray(docLens, dtype=np.int32)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 462332b..a8ca79b 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -178,6 +178,9 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
+    if not np.all(np.isfinite(w_csr.data)) or np.any(w_csr.data < 0) or np.any(w_csr.data != np.floor(w_csr.data)):
+        raise ValueError("Word counts must be whole numbers, and none may be negative")
+
     docLens = np.asarray(w_csr.sum(axis=1)).ravel().astype(np.int32)
 
     if w_csr.dtype == np.int32:
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 6f3d082..c394d09 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,6 +162,9 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
+    if not np.all(np.isfinite(w_csr.data)) or np.any(w_csr.data < 0) or np.any(w_csr.data != np.floor(w_csr.data)):
+        raise ValueError("Word counts must be whole numbers, and none may be negative")
+
     docLens = np.asarray(w_csr.sum(axis=1)).ravel().astype(np.int32)
 
     if w_csr.dtype == np.int32:
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index a4ac84a..abfcbae 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -140,6 +140,8 @@ def newQueryState(data, modelState, debug=False):
     D,T = data.words.shape
     if modelState.T != T:
         raise ValueError("The model has %d words but the data has %d" % (modelState.T, T))
+    if not np.all(np.isfinite(data.words.data)) or np.any(data.words.data < 0) or np.any(data.words.data != np.floor(data.words.data)):
+        raise ValueError("Word counts must be whole numbers, and none may be negative")
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
     w_list, docLens = compiled.flatten(data.words.astype(np.int32))
     docLens = docLens.astype(np.int32)
-- 
2.43.0


From 530471960d28e1e885e8ee389c6c74411819e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:09 +0000
Subject: [PATCH 054/110] fix: data sets with negative or non-finite word
 counts were accepted, and models hung, crashed or returned NaNs

---
 sidetopics/model/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f303266..868dbe5 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -49,6 +49,9 @@ class DataSet:
             logging.warning("Converting links to sparse CSR matrix")
             links = ssp.csr_matrix(links)
 
+        if not np.all(np.isfinite(words.data)) or np.any(words.data < 0):
+            raise ValueError("Word counts must be finite, and none may be negative")
+
         # Now that the checks are done with, assign the values and apply the ordering.
         self._words = words
         self._feats = feats
-- 
2.43.0


From b28705eed718921b3fd5b3ffc3f6d5843a30f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:09 +0000
Subject: [PATCH 055/110] fix: training on documents without a single word
 never ended

---
 sidetopics/model/lda_vb_python.py | 2 ++
 sidetopics/model/mom_em.py        | 2 ++
 sidetopics/model/mom_gibbs.py     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index d5a6875..c4327f6 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -95,6 +95,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
         vocabPrior = VocabPrior
 
     wordDists = np.ones((K,T), dtype=dtype)
+    if not data.words.sum() > 0:
+        raise ValueError("There are no words in the document-words matrix")
     for k in range(K):
         docLenSum = 0
         while docLenSum < 1000:
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 511f24e..43c51e3 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -96,6 +96,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
         vocabPrior[:] = fill_value
 
     wordDistParam = np.ones((K, T), dtype=dtype)
+    if not data.words.sum() > 0:
+        raise ValueError("There are no words in the document-words matrix")
     for k in range(K):
         docLenSum = 0
         while docLenSum < 1000:
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index fbdadce..5ed9d45 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -84,6 +84,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
         vocabPrior = VocabPrior
 
     wordDists = np.ones((K, T), dtype=dtype)
+    if not data.words.sum() > 0:
+        raise ValueError("There are no words in the document-words matrix")
     for k in range(K):
         docLenSum = 0
         while docLenSum < 1000:
-- 
2.43.0


From 5dd80e59601205c23e56c65479d801adc0bcb34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:14 +0000
Subject: [PATCH 056/110] fix: LDA/CVB and CVB0 ran more iterations than
 planned if they were fewer than the logging interval

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 sidetopics/model/lda_svb.py  | 2 +-
 sidetopics/model/lda_vb.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a8ca79b..7549f42 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -245,7 +245,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index c394d09..1959240 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -234,7 +234,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 9fb64b3..0211ecd 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -192,7 +192,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index b87e766..731fd09 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -185,7 +185,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
-- 
2.43.0


From 5b7ae8468a91e2023f7f4da95f223d73f02dd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:14 +0000
Subject: [PATCH 057/110] fix: the correlated and side topic models failed
 without logging, or at intervals which do not divide the iterations

---
 sidetopics/model/ctm.py                        | 7 ++++---
 sidetopics/model/stm_uv_vecy_bohning.py        | 7 ++++---
 sidetopics/model/stm_yv.py                     | 7 ++++---
 sidetopics/model/stm_yv_bohning_fake_online.py | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 6950d27..185d504 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -182,9 +182,10 @@ def train (dataset, modelState, queryState, trainPlan):
     K, topicMean, sigT, vocab, vocabPrior, dtype = modelState.K, modelState.topicMean, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters   = np.zeros(shape=(iterations // logFrequency,))
-    boundValues  = np.zeros(shape=(iterations // logFrequency,))
-    likelyValues = np.zeros(shape=(iterations // logFrequency,))
+    logPoints   = 0 if logFrequency <= 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters   = np.zeros(shape=(logPoints,))
+    boundValues  = np.zeros(shape=(logPoints,))
+    likelyValues = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     debugFn = _debug_with_bound if debug else _debug_with_nothing
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index 0359ad9..b32828c 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, Ab, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.Ab, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    boundLikes = np.zeros(shape=(iterations // logFrequency,))
+    logPoints   = 0 if logFrequency <= 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters  = np.zeros(shape=(logPoints,))
+    boundValues = np.zeros(shape=(logPoints,))
+    boundLikes = np.zeros(shape=(logPoints,))
     bvIdx = 0
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     _debug_with_bound.old_bound = 0
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index e8653fd..378d12f 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    likeValues  = np.zeros(shape=(iterations // logFrequency,))
+    logPoints   = 0 if logFrequency <= 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters  = np.zeros(shape=(logPoints,))
+    boundValues = np.zeros(shape=(logPoints,))
+    likeValues  = np.zeros(shape=(logPoints,))
     bvIdx = 0
     
     _debug_with_bound.old_bound = 0
diff --git a/sidetopics/model/stm_yv_bohning_fake_online.py b/sidetopics/model/stm_yv_bohning_fake_online.py
index 1116f50..912247e 100644
--- a/sidetopics/model/stm_yv_bohning_fake_online.py
+++ b/sidetopics/model/stm_yv_bohning_fake_online.py
@@ -195,9 +195,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, Ab, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.Ab, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    boundLikes = np.zeros(shape=(iterations // logFrequency,))
+    logPoints   = 0 if logFrequency <= 0 else (iterations + logFrequency - 1) // logFrequency
+    boundIters  = np.zeros(shape=(logPoints,))
+    boundValues = np.zeros(shape=(logPoints,))
+    boundLikes = np.zeros(shape=(logPoints,))
     bvIdx = 0
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     _debug_with_bound.old_bound = 0
-- 
2.43.0


From 579297af70edd327d8d286bed8bcf79eaa82134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:14 +0000
Subject: [PATCH 058/110] fix: the bound of the mutual topic models read beyond
 the documents' matrix of link probabilities

---
 sidetopics/model/mtm2.py | 2 +-
 sidetopics/model/mtm3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index d9a50b8..25a266a 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -492,7 +492,7 @@ def var_bound(data, modelState, queryState):
     W_weights  = sparseScalarQuotientOfDot(W, expMeansOut, vocab)  # D x V   [W / TB] is the quotient of the original over the reconstructed doc-term matrix
     w_top_sums = expMeansOut * (W_weights.dot(vocab.T)) # D x K
 
-    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn, lse_at_k)
+    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn.T.copy(), lse_at_k)
     l_top_sums = L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :] * expMeansOut
     
     bound += np.sum(docLens * np.log(np.sum(expMeansOut, axis=1)))
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index e0f76e3..5f205b4 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -649,7 +649,7 @@ def var_bound(data, modelState, queryState):
     W_weights  = sparseScalarQuotientOfDot(W, expMeansOut, vocab)  # D x V   [W / TB] is the quotient of the original over the reconstructed doc-term matrix
     top_sums   = expMeansOut * (W_weights.dot(vocab.T)) # D x K
 
-    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn, lse_at_k)
+    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn.T.copy(), lse_at_k)
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-- 
2.43.0


From 06f3ff56e0b0a15df880e9c08c3227e7cc2fdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:12 +0000
Subject: [PATCH 059/110] fix: the likelihood of the mutual topic models read
 beyond the documents' matrix of link probabilities

---
 sidetopics/model/mtm2.py | 2 +-
 sidetopics/model/mtm3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index 25a266a..74d0005 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -405,7 +405,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.means)
-    doc_dist = colwise_softmax(queryState.means)
+    doc_dist = colwise_softmax(queryState.means).T.copy()
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 5f205b4..5d51a72 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -575,7 +575,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.outMeans)
-    doc_dist = colwise_softmax(queryState.inMeans)
+    doc_dist = colwise_softmax(queryState.inMeans).T.copy()
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
-- 
2.43.0


From 1df8f02c063498ba3c32b2c5086105e7b818c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 060/110] fix: topic distributions of the correlated and mutual
 topic models could not be read

---
 sidetopics/model/ctm_bohning.py  | 4 +---
 sidetopics/model/ctm_grad_arb.py | 4 +---
 sidetopics/model/mtm3.py         | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6702411..98972ff 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6702411..98972ff 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 5d51a72..7cd6dcd 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -95,9 +95,7 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(queryState):
-    result  = np.exp(queryState.topicMean - queryState.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(queryState.outMeans)
 
 def newModelFromExisting(model, withLdaModel=None):
     '''
-- 
2.43.0


From 30769b9bca6d76c46858cf8969eed040b067c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:08 +0000
Subject: [PATCH 061/110] fix: the query of the correlated topic model returned
 soft-maxed means with a diagonal covariance, and stale variances

---
 sidetopics/model/ctm_bohning.py  | 2 +-
 sidetopics/model/ctm_grad_arb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 98972ff..cbf4f5c 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -361,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 98972ff..cbf4f5c 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -361,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 8149c50fde92879add01d3783263801dd5f8e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 062/110] fix: the query of the correlated topic model never
 updated the assignments of words to topics

---
 sidetopics/model/ctm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 185d504..83f0edf 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -337,16 +337,18 @@ def query(dataset, modelState, queryState, queryPlan):
     # Necessary temp variables (notably the count of topic to word assignments
     # per topic per doc)
     isigT = la.inv(sigT)
-    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
-    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
-    S = expMeans * R.dot(vocab.T)
-        
+
     # Enable logging or not. If enabled, we need the inner product of the feat matrix
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     
     # Iterate over parameters
     lastPerp = 1E+300 if dtype is np.float64 else 1E+30
     for itr in range(iterations):
+        # Estimate Z_dvk
+        expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
+        R = sparseScalarQuotientOfDot(W, expMeans, vocab)
+        S = expMeans * R.dot(vocab.T)
+
         # Update the Means
         vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
-- 
2.43.0


From a15743b9df11d39c6eb9dfcc48b8a54b94fff28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:10 +0000
Subject: [PATCH 063/110] fix: the similarity recommender could not be trained
 on TF-IDF scores

The alias of bool is gone from numpy; and with whole counts the reciprocal of
every document's length was that of an integer, so zero.
---
 sidetopics/model/sim_based_rec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 6441d48..db4f80c 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,12 +175,12 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.array(data.words.sum(axis=1)).ravel()
-        reps = data.words.copy()
+        docLens = np.maximum(np.array(data.words.sum(axis=1), dtype=np.float64).ravel(), 1)
+        reps = data.words.astype(np.float64)
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
-        occ  = data.words.astype(np.bool).astype(dtype)
+        occ  = data.words.astype(bool).astype(dtype)
         docCount = np.array(occ.sum(axis=0)).ravel()
         docCount += 1
         idf = np.log(D / docCount)
-- 
2.43.0


From c217bb339c1a51d23d6785556dc8aa97b307c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:10 +0000
Subject: [PATCH 064/110] fix: the similarity recommender lost links of the
 documents they are sought for

The smallest probability of a document's links was rounded to the type of the
model, above the probability it stands for; and documents whose words are all
without weight have no norm to divide by.
---
 sidetopics/model/sim_based_rec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index db4f80c..458b724 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -280,7 +280,7 @@ def min_link_probs_tfidf(model, train_tops, query_tops, query_links, docSubset):
 
     src_norms = csr_row_norms(src_reps) # Numpy 1.9 allows la.norm(X, axis=1), but is too modern
     dst_norms = csr_row_norms(dst_reps)
-    mins  = np.empty((Q,), dtype=model.dtype)
+    mins  = np.empty((Q,), dtype=np.float64)
     outRow = -1
     for src in docSubset:
         outRow += 1
@@ -306,7 +306,7 @@ def min_link_probs_lda(model, train_tops, query_tops, query_links, docSubset):
     Q = len(docSubset)
 
     print ("Inferring minimal link probabilities (Similarity/LDA) ")
-    mins = np.empty((Q,), dtype=model.dtype)
+    mins = np.empty((Q,), dtype=np.float64)
     outRow = -1
     for src in docSubset:
         outRow += 1
@@ -373,7 +373,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
     for src in docSubset:
         outRow += 1
 
-        probs = np.squeeze(np.asarray(dst_reps.dot(src_reps[src,:].T).todense()))
+        probs = dst_reps.dot(src_reps[src,:].T).toarray().ravel()
         probs /= dst_norms
         probs /= src_norms[src]
 
@@ -399,6 +399,7 @@ def csr_row_norms(X):
 
     norms = np.array(X2.sum(axis=1)).ravel()
     norms **= 0.5
+    norms[norms == 0] = 1 # a document without distinctive words is similar to none
 
     return norms
 
-- 
2.43.0


From 61b82144d92bc3c365ccb77ad3477f0f8d280b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 065/110] fix: models of LDA/CVB and CVB0 whose topic prior is
 a single number could not be copied

---
 sidetopics/model/lda_cvb.py  | 5 +++--
 sidetopics/model/lda_cvb0.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7549f42..64c8330 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -19,6 +19,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import copy
 import numpy as np
 import scipy.special as fns
 import numpy.random as rd
@@ -71,8 +72,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        copy(model.topicPrior), \
+        copy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 1959240..1ef484d 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -19,6 +19,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import copy
 import numpy as np
 import scipy.special as fns
 import numpy.random as rd
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        copy(model.topicPrior), \
+        copy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-- 
2.43.0


From 3e573e9d7d71077593b6bc48c8d9ac9667b32a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 066/110] fix: deep copies of Gibbs samplers shared the
 vocabulary prior

---
 sidetopics/model/dmr.py       | 2 +-
 sidetopics/model/lda_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 73695a8..243e3d8 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -121,7 +121,7 @@ def newModelFromExisting(model):
         model.T, \
         model.weights.copy(), \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        None if model.vocabPrior is None else np.copy(model.vocabPrior), \
         None if model.n_dk_samples is None else model.n_dk_samples.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index abfcbae..c7ceedd 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -114,7 +114,7 @@ def newModelFromExisting(model):
         model.K, \
         model.T, \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        None if model.vocabPrior is None else np.copy(model.vocabPrior), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
         model.numSamples, \
-- 
2.43.0


From 66b34ad3b14964f49a4ba642d4116792b800134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 067/110] fix: reports of training that stopped early lacked
 its last iteration, and had more likelihoods than bounds

---
 sidetopics/model/ctm.py                 | 2 +-
 sidetopics/model/stm_uv_vecy_bohning.py | 2 +-
 sidetopics/model/stm_yv.py              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 83f0edf..75e9285 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -301,7 +301,7 @@ def train (dataset, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] >= 30:
                 lastPerp = perplexity_from_like(likelyValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx)
+                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likelyValues)
             bvIdx += 1
             
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index b32828c..7edf33b 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -343,7 +343,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 20:
                 lastPerp = perplexity_from_like(boundLikes[bvIdx - 1], docLens.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, boundLikes, bvIdx)
+                    boundIters, boundValues, boundLikes = clamp (boundIters, boundValues, boundLikes, bvIdx + 1)
                     break
             bvIdx += 1
         
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 378d12f..84e5a66 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -314,7 +314,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 50:
                 lastPerp = perplexity_from_like(likeValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likeValues, bvIdx)
+                    boundIters, boundValues, likeValues = clamp (boundIters, boundValues, likeValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likeValues)
             bvIdx += 1
 
-- 
2.43.0


From 5b1b5c405f4410dbeb71cfca230055d230a5bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 068/110] fix: LDA/VB could not be trained with a vector of
 priors over words, nor its bound found for a numpy scalar

---
 sidetopics/model/lda_vb_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c4327f6..a530127 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -405,7 +405,7 @@ def train(data, model, query, plan, updateVocab=True):
     # Start traininng
     d = -1
     for b in range(batchCount * iterations):
-        grad.fill(vocabPrior)
+        grad[:, :] = vocabPrior # a scalar or a vector over words
         # firstD = d
         for s in range(batchSize):
             d = d + 1 if (d + 1) < D else 0
@@ -813,7 +813,7 @@ def var_bound(data, model, query, z_dnk = None):
 
     # E[ln p(vocabs|vocabPrior)]
     #
-    if type(model.vocabPrior) is float or type(model.vocabPrior) is int:
+    if np.ndim(wordPrior) == 0:
         prob_vocabs = K * (fns.gammaln(wordPrior * T) - T * fns.gammaln(wordPrior)) \
                + np.sum((wordPrior - 1) * (diWordDists - diSumWordDists[:, np.newaxis] ))
     else:
-- 
2.43.0


From 1c8b3900ed5bd5b23e5c3f7b15496c5439d98b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 069/110] fix: deep copies of LDA/VB and of the sampled mixture
 shared a vector of priors over words

---
 sidetopics/model/lda_vb_python.py | 3 ++-
 sidetopics/model/mom_gibbs.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index a530127..0f5c0f5 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -20,6 +20,7 @@ from sidetopics.util.misc import constantArray, converged
 from sidetopics.model.evals import perplexity_from_like
 
 from collections import namedtuple
+from copy import copy
 
 MODEL_NAME = "lda/vbp"
 DTYPE      = np.float64
@@ -57,7 +58,7 @@ def newModelFromExisting(model):
     return ModelState(\
         model.K, \
         model.topicPrior.copy(), \
-        model.vocabPrior, \
+        copy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 5ed9d45..0f324b5 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -15,6 +15,7 @@ from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
 
 from collections import namedtuple
+from copy import copy
 
 MODEL_NAME = "mom/em"
 DTYPE = np.float64
@@ -46,7 +47,7 @@ def newModelFromExisting(model):
     return ModelState( \
         model.K, \
         np.copy(model.topicPrior), \
-        model.vocabPrior, \
+        copy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
-- 
2.43.0


From 6392b99ee9d9ae3c69f9c8cc4d61338b41fce672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 070/110] fix: training of the side topic model matched words
 with the assignments of other documents

Documents are sorted by length, but the assignments were not.
---
 sidetopics/model/stm_yv_bohning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index e85ba0b..2b1cda8 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -203,7 +203,7 @@ def train (data, modelState, queryState, trainPlan):
     sortIdx = np.argsort(docLens, kind=STABLE_SORT_ALG) # sort needs to be stable in order to be reversible
     W = W[sortIdx,:] # deep sorted copy
     X = X[sortIdx,:]
-    means, varcs = means[sortIdx,:], varcs[sortIdx,:]
+    means, expMeans, varcs = means[sortIdx,:], expMeans[sortIdx,:], varcs[sortIdx,:]
 
     docLens = originalDocLens[sortIdx]
     
@@ -336,6 +336,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
-- 
2.43.0


From ad48b18b945b0643b3bb83d3f2af6a6d90cb597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 071/110] fix: the evaluation program could not start, naming
 an argument that pruning does not take

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 7c8fb3b..25f80b8 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -165,7 +165,7 @@ def run(args):
     #
     data = DataSet.from_files(args.words, args.feats, args.links, limit=args.limit)
     data.convert_to_dtype(input_dtype)
-    data.prune_and_shuffle(min_doc_len=MinDocLen, min_link_count=MinLinkCountPrune)
+    data.prune_and_shuffle(min_unique_word_count=MinDocLen, min_link_count=MinLinkCountPrune)
 
     print ("The combined word-count of the %d documents is %.0f, drawn from a vocabulary of %d distinct terms" % (data.doc_count, data.word_count, data.words.shape[1]))
     if data.add_intercept_to_feats_if_required():
-- 
2.43.0


From 5ef19f24608a2c843fc09adc141a6886e75678be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 072/110] fix: evaluations of links and tags did nothing unless
 told how many folds to run

---
 sidetopics/run/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 25f80b8..fd3fa27 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -611,7 +611,7 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     model_files = []
     assert num_folds > 1, "Need at least two folds for this to make any sense whatsoever"
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = num_folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -872,7 +872,7 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
     if ldaModel is not None:
         (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -967,7 +967,7 @@ def insample_lro_style_prec_rec (data, mdl, sample_model, train_plan, folds, tar
         else:
             return data
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
-- 
2.43.0


From 691bb54ab65ea338da4e419a696df91006e85adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 073/110] fix: evaluations of links did not pass the topics of
 the queried documents

---
 sidetopics/run/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index fd3fa27..ab58fbe 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -823,8 +823,8 @@ def link_split_map (data, mdl, sample_model, train_plan, folds, model_dir = None
 
         print("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        min_link_probs       = mdl.min_link_probs(model, train_tops, train_tops, query_data.links)
+        predicted_link_probs = mdl.link_probs(model, train_tops, train_tops, min_link_probs)
 
         map = mean_average_prec (query_data.links, predicted_link_probs)
         print ("Fold %2d: Mean-Average-Precision %6.3f" % (fold, map))
@@ -892,8 +892,8 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
         print ("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        min_link_probs       = mdl.min_link_probs(model, train_tops, train_tops, query_data.links)
+        predicted_link_probs = mdl.link_probs(model, train_tops, train_tops, min_link_probs)
         expected_links       = query_data.links
 
         precs, recs, doc_counts = mean_prec_rec_at (expected_links, predicted_link_probs, at=ms, groups=[(0,3), (3,5), (5,10), (10,1000)])
-- 
2.43.0


From fc777f47961b1296a2cf3451cd0f30e8267ea7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 074/110] fix: evaluations failed when two folds had no
 document in one of the reported groups

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index ab58fbe..c09412f 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1187,7 +1187,7 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / max(upd_counts[g], 1) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From cfadf4e7e861f66a7828f5632c8900d7d3f43b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 075/110] fix: the metadata model took word counts of a single
 numeric type only

---
 sidetopics/model/dmr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 243e3d8..dc646b6 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -149,8 +149,10 @@ def newQueryState(data, modelState, debug=False):
         raise ValueError("The model has %d words but the data has %d" % (modelState.T, T))
     if not np.all(np.isfinite(data.words.data)) or np.any(data.words.data < 0) or np.any(data.words.data != np.floor(data.words.data)):
         raise ValueError("Word counts must be whole numbers, and none may be negative")
+    if np.any(data.words.data > np.iinfo(np.uint16).max):
+        raise ValueError("Word counts above %d are not supported" % np.iinfo(np.uint16).max)
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
-    w_list, docLens = compiled.flatten(data.words)
+    w_list, docLens = compiled.flatten(data.words.astype(np.uint16))
     docLens = np.asarray(docLens, dtype=np.int32)
     if debug: print("Done")
     
-- 
2.43.0


From 45476a6cdb85af8f485500da9baa5e5498d8299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 076/110] fix: the evaluation program could not run three of
 the models it offers

---
 sidetopics/model/lda_cvb0.py  | 3 +++
 sidetopics/model/mom_em.py    | 5 ++++-
 sidetopics/model/mom_gibbs.py | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 1ef484d..d0b90d4 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -399,6 +399,9 @@ def log_likelihood_point(data, modelState, queryState):
     return ln_likely
 
 
+log_likelihood = log_likelihood_point
+
+
 def log_likelihood_expected(data, modelState, queryState):
     """
     Determines the variational bounds. Values are mutated in place, but are
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 43c51e3..e86c94d 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -112,7 +112,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
     return ModelState(K, topicPrior, vocabPrior, wordDistParam, corpusTopicDistParam, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
@@ -388,6 +388,9 @@ def log_likelihood_point(data: DataSet, model: ModelState, query: QueryState = N
 
 
 
+log_likelihood = log_likelihood_point
+
+
 def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 0f324b5..7633a77 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -100,7 +100,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
     return ModelState(K, topicPrior, vocabPrior, wordDists, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
@@ -184,6 +184,9 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
 
+log_likelihood = log_likelihood_point
+
+
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-- 
2.43.0


From 9bb1c2f36a0e50f2dfe70022532d2c278d0c74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 077/110] fix: evaluation by held-out features needed a topic
 model to have been given

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index c09412f..8897b2c 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1163,7 +1163,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     :return:
     '''
     if ldaModel is None:
-        return None
+        return None, None
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-- 
2.43.0


From 5d26a5731bf0e6d9590bb7236ef0ebfeb66f178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 078/110] fix: evaluation of links failed when a topic model
 was given

---
 sidetopics/run/__main__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 8897b2c..ab12b37 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -870,8 +870,6 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
         else:
             return data
 
-    if ldaModel is not None:
-        (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
     if target_folds is None or target_folds < 1:
         target_folds = folds
 
-- 
2.43.0


From 59789651d013730eac8bf2e14b6393748b517fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 079/110] fix: link hold-outs keep the order of the documents

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 868dbe5..76d8e52 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -529,8 +529,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -552,8 +552,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
-- 
2.43.0


From d6fadcbfc37cd9930cdfc5afe7972f0d506db001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 080/110] fix: results without documents in the larger groups
 could not be reshaped

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..5dc4817 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -156,7 +156,7 @@ def roll_up_and_average(dic, dst, srcs):
         for m in Ms:
             dic[dst][m] += dic[src][m] * dic[src][DocCount]
     for m in Ms:
-        dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
+        dic[dst][m] = dic[dst][m] / max(dic[dst][DocCount], 1)
 
 
 def read_mrr(line, file):
-- 
2.43.0


From 115efdc93062f1ceeb2a4c227e414043d09f7333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 081/110] fix: reshaping results dropped all those after one
 without a MAP, and those not separated by a blank line

---
 sidetopics/run/reshape_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 5dc4817..13b72b2 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -176,7 +176,7 @@ def read_map(line, file):
         if line.startswith(MapPrefix):
             return float(line[len(MapPrefix):]), file.readline()
         if line == "":
-            return -1, line
+            return -1, "\n" # a blank line, not the end of the file
         line = file.readline()
 
     return -1, line
@@ -201,9 +201,9 @@ def skip_to_non_empty_line(line, file):
 def read_all_results(path):
     results = dict()
     with open (path, "r") as file:
-        line = "\n"
+        line = file.readline()
         while line != "":
-            line, file = skip_to_non_empty_line(file.readline(), file)
+            line, file = skip_to_non_empty_line(line, file)
             if line == "":
                 break
 
-- 
2.43.0


From c1968fe295b6b6761304fc72af2a16b4c496c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 082/110] fix: quotes in reshaped results were escaped twice

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 13b72b2..310c87f 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -237,7 +237,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From fa0485ec2beea034bc50484fa21ed772ef7a706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 083/110] fix: sparse conversion of text dropped negative
 values

---
 sidetopics/run/text_to_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index e0ea142..6e3a527 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -28,7 +28,7 @@ def save_as_numpy_sparse (infile, row_count):
             try:
                 vals = [float(fstr) for fstr in line.split()]
                 for (col, val) in enumerate(vals):
-                    if val > 0:
+                    if val != 0:
                         matrix[row, col] = val
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
-- 
2.43.0


From 75baeac81208a9f1b7ab7c655d3eeae0e4cd1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 084/110] fix: conversion of text truncated fractions if the
 first row had none

---
 sidetopics/run/text_to_numpy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index 6e3a527..2ff4cad 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -15,11 +15,18 @@ def die(errmsg):
     print (errmsg)
     exit(-1)
 
+def infer_dtype (infile):
+    with open (infile, "r") as f:
+        for line in f:
+            if "." in line or any(c.isalpha() for c in line): # fractions, exponents, nan and inf
+                return np.float32
+    return np.int32
+
 def save_as_numpy_sparse (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+        dtype = infer_dtype(infile)
 
     matrix = sp.lil_matrix((row_count, col_count), dtype=dtype)
     row = 0
@@ -46,7 +53,7 @@ def save_as_numpy (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+        dtype = infer_dtype(infile)
 
     matrix = np.ndarray(shape=(row_count, col_count), dtype=dtype)
     row = 0
-- 
2.43.0


From 7d5143276fe82148b14b047c6d01542d7613cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 085/110] fix: conversion of text filled up rows which were too
 short

---
 sidetopics/run/text_to_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index 2ff4cad..23fd428 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -34,6 +34,8 @@ def save_as_numpy_sparse (infile, row_count):
         for line in f:
             try:
                 vals = [float(fstr) for fstr in line.split()]
+                if len(vals) != col_count:
+                    raise ValueError("Expected %d columns but read %d" % (col_count, len(vals)))
                 for (col, val) in enumerate(vals):
                     if val != 0:
                         matrix[row, col] = val
@@ -61,6 +63,8 @@ def save_as_numpy (infile, row_count):
         for line in f:
             try:
                 vals = [float(fstr) for fstr in line.split()]
+                if len(vals) != col_count:
+                    raise ValueError("Expected %d columns but read %d" % (col_count, len(vals)))
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
                 die(str(e))
-- 
2.43.0


From 3762592f819362a3a45a4f70cea94cdef3e73ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 086/110] fix: selection of users failed when the target
 exceeds all there is

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index f80b502..e6d44dc 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -79,7 +79,7 @@ def select_group_contribs(user_counts, target):
     candidates = [g for g in group_counts.keys()]
     group_contribs = {g:0 for g in candidates}
     total_assigned = 0
-    while total_assigned < target:
+    while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
         for group in candidates:
             if group_counts[group] < group_target:
-- 
2.43.0


From 577c5d44c19f89e8f5118fd9ff152be036947caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 087/110] fix: selection of users skipped groups after one
 which was exhausted

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index e6d44dc..6f7a5fa 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -81,7 +81,7 @@ def select_group_contribs(user_counts, target):
     total_assigned = 0
     while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
-        for group in candidates:
+        for group in candidates[:]: # groups are removed on the way
             if group_counts[group] < group_target:
                 group_contribs[group] += group_counts[group]
                 total_assigned        += group_counts[group]
-- 
2.43.0


From b418adbbb2cb62c66f7cc74091ed99cc398d96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 088/110] fix: the last author of a list with a serial comma
 was called 'and ...'

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index b48ee6f..7de8ed6 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -7,7 +7,7 @@ import re
 LatexEscape = re.compile(r"\\['`^" + '"' + r"H~ckl=b.druvtoi]")
 Dashes = re.compile(r"^-{15,}$")
 StartsWithWhiteSpace = re.compile(r"^\s{2,}\S.*$")
-BibTextNameDelimiter = re.compile(r"(?:\s*,\s*|\s+and\s+)")
+BibTextNameDelimiter = re.compile(r"(?:\s*,\s*and\s+|\s*,\s*|\s+and\s+)")
 
 class PaperMetadata():
 
-- 
2.43.0


From e00b3aa877dec40cbc1e82678c4ed1743452ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 089/110] fix: repeated spaces in an author's name were taken
 for names

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index 7de8ed6..650ed61 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -52,7 +52,7 @@ def bibtex_to_acl_author (bib_author):
     Takes an author name formated in the BibTex style, and re-write
     it in the ACL style
     '''
-    parts = bib_author.strip().split(" ")
+    parts = bib_author.split()
 
     if len(parts) == 1:
         parts = parts[0].split(".")
-- 
2.43.0


From 5af9b698836d0516eee1db184a32a0d37e9f15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 090/110] fix: reports could not be generated for any model
 with a named bound

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 931e700..75058b3 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -77,10 +77,10 @@ def run(args):
     
     if args.model.endswith(Bohning):
         bounds = [Bohning]
-        model  = args.model[:-len(Bohning)]
+        model  = args.model[:-len(Bohning)].rstrip('_')
     elif args.model.endswith(Bouchard):
         bounds = [Bouchard]
-        model  = args.model[:-len(Bouchard)]
+        model  = args.model[:-len(Bouchard)].rstrip('_')
     else:
         bounds = [Bouchard, Bohning]
         model = args.model
-- 
2.43.0


From bc457fe6e9399289c605a7a93d60899168e2c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 091/110] fix: reports looked for their templates where there
 are none

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 75058b3..d4e70d1 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -17,8 +17,8 @@ from os.path import sep
 CtmTemplateFileName = "CtmResultsSheet-Template.ipynb"
 StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
-TemplateDir = os.path.dirname (os.path.dirname (__file__)) + os.path.sep + 'notebooks'
-CodeDir     = os.path.dirname(TemplateDir)
+CodeDir     = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
+TemplateDir = os.path.dirname (CodeDir) + os.path.sep + 'notebooks'
 CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
 StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
 
-- 
2.43.0


From 736f60dc52c2e271176928dd8fb8720e815332c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 092/110] fix: reports did not find the files of CTM models,
 nor those of folds after the tenth

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index d4e70d1..ef23d58 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -19,8 +19,8 @@ StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
 CodeDir     = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
 TemplateDir = os.path.dirname (CodeDir) + os.path.sep + 'notebooks'
-CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
-StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
+CtmOutFileNameFormat = r"ctm_%s_k_%d_(?:p_0_)?fold_\d+_\d{8}_\d{4}.pkl"
+StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d+_\d{8}_\d{4}.pkl"
 
 CtmReportFileFormat = "ctm_%s_k_%d.ipynb"
 StmReportFileFormat = "stm_yv_%s_k_%d_p_%d.ipynb"
-- 
2.43.0


From 1eaabdea44327ee79943f047de6d2dabf8b24faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 093/110] fix: the wrapper of scikit-learn's LDA could not be
 created for online learning

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 667cae1..1f07979 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -624,7 +624,7 @@ class WrappedSckitLda(LatentDirichletAllocation):
                 topic_word_prior=topic_word_prior,
                 learning_method='online',
                 learning_decay=rate_b,
-                learning_offsetfloat=rate_a,
+                learning_offset=rate_a,
                 batch_size=batchSize,
                 max_iter=iterations,
                 random_state=RandomState(seed),
-- 
2.43.0


From 9a32d60d25c096722d5d92d8beb843fccc28144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 094/110] fix: the wrapper of scikit-learn's LDA could not be
 fitted, as its arguments cannot be looked up

---
 sidetopics/model/sklearn/lda_cvb.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 1f07979..70de824 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -634,6 +634,23 @@ class WrappedSckitLda(LatentDirichletAllocation):
         self.skip_init = False
         self.default_scoring_method = default_scoring_method
 
+        # scikit-learn looks up the arguments of the constructor in these
+        self.iterations = iterations
+        self.query_iterations = query_iterations
+        self.perp_tolerance = perp_tolerance
+        self.use_approximations = use_approximations
+        self.log_frequency = log_frequency
+        self.batchSize = batchSize
+        self.rate_delay = rate_delay
+        self.forgetting_rate = forgetting_rate
+        self.rate_a = rate_a
+        self.rate_b = rate_b
+        self.rate_algor = rate_algor
+        self.burn_in = burn_in
+        self.thin = thin
+        self.debug = debug
+        self.seed = seed
+
     def _init_latent_vars(self, n_features: int) -> None:
         if self.skip_init:
             return
-- 
2.43.0


From d3b5f958c7c0345926474bfbeb1b469fa9ccfaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 095/110] fix: the wrapper of scikit-learn's LDA could not be
 fitted with versions which pass on the type of the data

---
 sidetopics/model/sklearn/lda_cvb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 70de824..3a7508c 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -651,11 +651,11 @@ class WrappedSckitLda(LatentDirichletAllocation):
         self.debug = debug
         self.seed = seed
 
-    def _init_latent_vars(self, n_features: int) -> None:
+    def _init_latent_vars(self, n_features: int, **kwargs) -> None:
         if self.skip_init:
             return
         else:
-            super()._init_latent_vars(n_features)
+            super()._init_latent_vars(n_features, **kwargs)
 
     def fit(self,
             X: Union[DataSet, np.ndarray],
-- 
2.43.0


From a35babf9b55b99b0ea94cc2aa5fc02e01e07adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 096/110] fix: the wrapper of gensim's HDP could not be copied
 or shown, as its arguments cannot be looked up

---
 sidetopics/model/sklearn/lda_cvb.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7508c..69d7df8 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -820,6 +820,28 @@ class WrappedScikitHdp(HdpTransformer):
             )
         self.default_scoring_method = default_scoring_method
 
+        # scikit-learn looks up the arguments of the constructor in these
+        self.dictionary = dictionary
+        self.n_components = n_components
+        self.doc_topic_prior = doc_topic_prior
+        self.topic_word_prior = topic_word_prior
+        self.iterations = iterations
+        self.query_iterations = query_iterations
+        self.perp_tolerance = perp_tolerance
+        self.use_approximations = use_approximations
+        self.log_frequency = log_frequency
+        self.batchSize = batchSize
+        self.rate_delay = rate_delay
+        self.forgetting_rate = forgetting_rate
+        self.rate_a = rate_a
+        self.rate_b = rate_b
+        self.rate_algor = rate_algor
+        self.burn_in = burn_in
+        self.thin = thin
+        self.debug = debug
+        self.expected_corpus_size = expected_corpus_size
+        self.seed = seed
+
     @property
     def components_(self) -> np.ndarray:
         return self.gensim_model.m_lambda / self.gensim_model.m_lambda_sum[:, np.newaxis]
-- 
2.43.0


From 948173e44ae079ebd6c13af1ab6847c3dc7ada9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 097/110] fix: scores of the HDP rounded all probabilities to
 zero if word counts are integers

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 69d7df8..86edc38 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -941,12 +941,9 @@ class WrappedScikitHdp(HdpTransformer):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        if y.dtype != X.words.dtype:
-            y =  y.astype(X.words.dtype)
-        if component_dists.dtype != X.words.dtype:
-            component_dists =  component_dists.astype(X.words.dtype)
+        y = y.astype(component_dists.dtype, copy=False)
 
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        log_probs = sparseScalarProductOfSafeLnDot(X.words.astype(component_dists.dtype), y, component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From 96b7ea2cb3e8985951407d85082984ae2e7147cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 098/110] fix: the wrapper of scikit-learn's LDA could not fit
 and transform with any option

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 86edc38..8d649ff 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -680,7 +680,7 @@ class WrappedSckitLda(LatentDirichletAllocation):
     def fit_transform(self, X: Union[DataSet, np.ndarray], y: np.ndarray = None, **kwargs) -> np.ndarray:
         if type(X) is DataSet:
             X = X.words
-        return super().fit_transform(X, y, **kwargs)
+        return self.fit(X, y, **kwargs).transform(X)
 
     def transform(self,
                   X: Union[DataSet, np.ndarray],
-- 
2.43.0


From 31785c04b3cf28e692deb16012923e9e31c3012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 099/110] fix: scores of the wrapper of scikit-learn's LDA
 failed unless words and topics have the same type

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 8d649ff..ff189e0 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -755,7 +755,8 @@ class WrappedSckitLda(LatentDirichletAllocation):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        y = y.astype(component_dists.dtype, copy=False)
+        log_probs = sparseScalarProductOfSafeLnDot(X.words.astype(component_dists.dtype), y, component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From 3651c02d42cacf9b476fdad7a20891ca07ea4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 100/110] fix: topics of the HDP lacked columns which no
 document uses, and failed on empty documents

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index ff189e0..f5a71dc 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -35,6 +35,7 @@ from gensim import matutils
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
 from sklearn.decomposition import LatentDirichletAllocation
+from sklearn.exceptions import NotFittedError
 from numpy.random import RandomState
 
 _ = logging.getLogger()
@@ -883,7 +884,11 @@ class WrappedScikitHdp(HdpTransformer):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
         if y is not None:
             raise ValueError("y is not allowed for wrapped scikit learn LDA")
-        return super().transform(X)
+        if self.gensim_model is None:
+            raise NotFittedError("This model has not been fitted yet. Call 'fit' before using this method.")
+
+        # one column for every topic, even if no document uses it, and one row for every document, even if it has no words
+        return np.array([matutils.sparse2full(self.gensim_model[doc], self.T) for doc in X], dtype=np.float32).reshape(-1, self.T)
 
     def score(self, X: Union[DataSet, np.ndarray], y: np.ndarray = None, y_query_state: object = None,
               method: Union[ScoreMethod, str] = None, **kwargs) -> float:
-- 
2.43.0


From 5ea0c259060f88ff2c9a70180dcd0ccdadab7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 101/110] fix: the HDP could not be fitted to arrays

---
 sidetopics/model/sklearn/lda_cvb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index f5a71dc..a6a0a57 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -854,6 +854,8 @@ class WrappedScikitHdp(HdpTransformer):
             **kwargs) -> "WrappedScikitHdp":
         if type(X) is DataSet:
             X = X.words
+        if isinstance(X, np.ndarray):
+            X = ssp.csr_matrix(X)
         if ssp.issparse(X):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
 
@@ -870,6 +872,8 @@ class WrappedScikitHdp(HdpTransformer):
     def fit_transform(self, X: Union[DataSet, np.ndarray], y: np.ndarray = None, **kwargs) -> np.ndarray:
         if type(X) is DataSet:
             X = X.words
+        if isinstance(X, np.ndarray):
+            X = ssp.csr_matrix(X)
         if ssp.issparse(X):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
         return super().fit_transform(X, y, **kwargs)
@@ -880,6 +884,8 @@ class WrappedScikitHdp(HdpTransformer):
                   **kwargs) -> np.ndarray:
         if type(X) is DataSet:
             X = X.words
+        if isinstance(X, np.ndarray):
+            X = ssp.csr_matrix(X)
         if ssp.issparse(X):
             X = matutils.Sparse2Corpus(sparse=X, documents_columns=False)
         if y is not None:
-- 
2.43.0


From 80c848f58ac4fd93cd2deb12ac63f04ab514377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 102/110] fix: the two halves of split documents shared the
 positions of their words with the original

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 76d8e52..cd61b05 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -482,8 +482,8 @@ class DataSet:
         est = est.astype(self._words.dtype)
         evl = evl.astype(self._words.dtype)
 
-        words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
-        words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
+        words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape, copy=True)
+        words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape, copy=True)
 
         doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
-- 
2.43.0


From 41e3547d3124dfae15066b14ae77410ec2e2f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 103/110] fix: stm_yv could not be trained with debugging
 output

---
 sidetopics/model/stm_yv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 84e5a66..67d92ce 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -510,7 +510,7 @@ def _debug_with_bound (itr, var_value, var_name, W, X, XTX, F, P, K, A, R_A, fv,
         printStderr ("WARNING: dtype(" + var_name + ") = " + str(var_value.dtype))
     
     modelState = ModelState(F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, MODEL_NAME)
-    queryState = QueryState(means, varcs, lxi, s, n)
+    queryState = QueryState(means, means.copy(), varcs, lxi, s, n)
     
     old_bound = _debug_with_bound.old_bound
     bound     = var_bound(DataSet(W, feats=X), modelState, queryState, XTX)
-- 
2.43.0


From d0c395bba52059cab031e76c0d09b2410f60ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:29 +0000
Subject: [PATCH 104/110] fix: collapsed variational methods reported the bound
 under the first, not the last, of the iterations since the last report

---
 sidetopics/model/lda_cvb.py  | 6 +++---
 sidetopics/model/lda_cvb0.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 64c8330..f8a72df 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -283,15 +283,15 @@ def train (data, modelState, queryState, trainPlan, query=False):
 
 
         # Measure and record the improvement to the bound and log-likely
-        boundIters.append   (segment * segIters)
+        boundIters.append   ((segment + 1) * segIters - 1)
         boundValues.append  (var_bound_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
         likelyValues.append (log_likely_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
 
         # Check to see if the improvement in the bound has fallen below the threshold
         perp = perplexity_from_like(likelyValues[-1], W.sum())
-        print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (segment * segIters, perp, boundValues[-1]))
+        print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (boundIters[-1], perp, boundValues[-1]))
 
-        if len(boundIters) > 2 and (boundIters[-1] > 30):
+        if len(boundIters) > 2 and (segment * segIters > 30):
             lastPerp = perplexity_from_like(likelyValues[-2], W.sum())
             if lastPerp - perp < 1:
                 finishedTraining = True
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index d0b90d4..a898095 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -268,15 +268,15 @@ def train (data, modelState, queryState, trainPlan, query=False):
 
 
         # Measure and record the improvement to the bound and log-likely
-        boundIters.append   (segment * segIters)
+        boundIters.append   ((segment + 1) * segIters - 1)
         boundValues.append  (var_bound_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
         likelyValues.append (log_likely_intermediate(data, modelState, queryState, q_n_kt, q_n_k))
 
         # Check to see if the improvement in the bound has fallen below the threshold
         perp = perplexity_from_like(likelyValues[-1], W.sum())
-        print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (segment * segIters, perp, boundValues[-1]))
+        print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (boundIters[-1], perp, boundValues[-1]))
 
-        if len(boundIters) > 2 and (boundIters[-1] > 50):
+        if len(boundIters) > 2 and (segment * segIters > 50):
             lastPerp = perplexity_from_like(likelyValues[-2], W.sum())
             if lastPerp - perp < 1:
                 finishedTraining = True
-- 
2.43.0


From 2ce5fb857908a3fb7440e052baac765629b01d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 105/110] fix: learning from mini-batches took the words of a
 batch for those of all documents

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 0f5c0f5..e3160da 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -412,7 +412,7 @@ def train(data, model, query, plan, updateVocab=True):
             d = d + 1 if (d + 1) < D else 0
 
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
-            grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
+            grad[:, wordIdx] += (float(D) / batchSize) * W[d, :].data[np.newaxis, :] * z # as if all documents were like those of the batch
 
         if not updateVocab: # a query, which leaves the model as it is
             continue
-- 
2.43.0


From 38c6a9418c2f4a7fe44e802808ed6381a85bf666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 106/110] fix: the fallback for the product with the logarithm
 of a dot product ignored the range of rows

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index c78da18..b76c4c3 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -312,7 +312,7 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
     elif A.dtype == np.float32:
         compiled.sparseScalarProductOfSafeLnDot_f4(A.data, A.indices, A.indptr, B, C, out.data, start, end)
     else:
-        _sparseScalarProductOfSafeLnDot_py(A,B,C, out)
+        _sparseScalarProductOfSafeLnDot_py(A[start:end,:],B,C, out)
     return out
 
 
-- 
2.43.0


From be0c1ad319c2f971cee68df79f21e039488c7673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 107/110] fix: sampling the topics of queries added their words
 to the model's, and lost rare words

The counts standing for the learned words had a resolution of a millionth, so rarer
words could not be told apart; and to them the query's own initial random assignments
were added, which weighed on what was inferred of large batches. dmr counted the
prior over words a second time as well.
---
 sidetopics/model/dmr.py       | 6 ++++--
 sidetopics/model/lda_gibbs.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index dc646b6..13c0f7a 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -342,13 +342,15 @@ def query (data, model, query, plan):
     n_dk_samples = np.zeros((D,K,num_samples), dtype=np.uint16)
 
     ndk = np.zeros((D, K), dtype=np.uint16)
-    nkv = (wordDists(model) * 1000000).astype(np.int32)
+    nkv = (wordDists(model) * 1000000000).astype(np.int32)
     nk  = nkv.sum(axis=1).astype(np.int32)
+    vocabPrior = np.zeros((T,), dtype=model.dtype) # already incorporated into nkv
     
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
     
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # The words of the query must not be added to those of the model
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
     
     # Burn in
     alphas = np.exp(X.dot(weights.T)) # as in the objective
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index c7ceedd..78f69a7 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -240,14 +240,15 @@ def query (data, model, query, plan):
     D = docLens.shape[0]
 
     ndk = np.zeros((D, K), dtype=np.int32)
-    nkv = (wordDists(model) * 1000000).astype(np.int32)
+    nkv = (wordDists(model) * 1000000000).astype(np.int32)
     nk  = nkv.sum(axis=1).astype(np.int32)
     adjustedVocabPrior = np.zeros((T,), dtype=model.dtype) # already incorporated into nkv
 
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
 
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # The words of the query must not be added to those of the model
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
 
     # Burn in
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
-- 
2.43.0


From 3ad0bcf6e824f5973f1135f284b8cb424667167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:35 +0000
Subject: [PATCH 108/110] fix: an intercept could not be added to dense
 features

---
 sidetopics/model/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index cd61b05..0cf9c49 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -293,7 +293,9 @@ class DataSet:
 
         not_one_counts = np.asarray((self._feats != 1).sum(axis=0))
         if not_one_counts.min() > 0:
-            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
+            intercept = np.ones((self.doc_count, 1))
+            self._feats = ssp.hstack((self._feats, intercept), "csr") if ssp.issparse(self._feats) \
+                else np.hstack((self._feats, intercept))
             return True
 
         return False
-- 
2.43.0


From b713f1acfcc7459143988c30e6389c0b199c8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 109/110] fix: average precision failed for documents for which
 nothing was retrieved

---
 sidetopics/model/evals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index ad4ef1d..e3f70b4 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -240,6 +240,7 @@ def mean_average_prec(expected_links, estim_link_probs):
             recv_set = set(recv_indices[:(m+1)])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
+                continue
             prec_at_m = len(recv_set.intersection(expt_set)) / len(recv_set)
 
             # Add precision at that position, m, to the sum of precisions
-- 
2.43.0


From 50e0ff8cded12ea3b26e905d436f81433108bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 110/110] fix: the mean reciprocal rank failed if no link was
 retrieved

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index e3f70b4..fdba65e 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -74,7 +74,7 @@ def mean_reciprocal_rank(expected_links, estim_link_probs):
 
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return rank_sum / rank_count
+    return rank_sum / max(1, rank_count)
 
 #@nb.autojit Does not support cellvars
 def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
-- 
2.43.0

