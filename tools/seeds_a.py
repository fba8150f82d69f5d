from mkseed import seed
C = "sidetopics/model/common.py"
seed("B01", "P01", [(C, "        query_range = np.arange(start, end) % doc_count\n", "        end = min(end, doc_count)\n        query_range = np.arange(start, end) % doc_count\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
X = ssp.csr_matrix(np.arange(1, 12)[:, None] * np.ones((1, 8), dtype=int))
ds = DataSet(X, debug=True)
for fold in range(4):
    tr, qu = ds.cross_valid_split(fold, 4, debug=True)
    ids = sorted(list(np.asarray(tr.words.todense())[:, 0]) + list(np.asarray(qu.words.todense())[:, 0]))
    assert ids == list(range(1, 12)), (fold, ids)
""", "a document count the folds do not divide, and the last fold", "a document of the last fold's wrap-around is both trained on and ... lost: train and query are no longer a partition")

seed("B02", "P04", [(C, "            self._reorder(sufficient_docs)\n            self._order = self._order[sufficient_docs]\n            link_counts", "            if not trimmed:\n                self._order = self._order[sufficient_docs]\n            trimmed = True\n            self._reorder(sufficient_docs)\n            link_counts"),
  (C, "            trimmed = True\n            if not", "            if not")] if False else
 [(C, "        while len(sufficient_docs) < self._links.shape[0]:\n            trimmed = True\n            self._reorder(sufficient_docs)\n            self._order = self._order[sufficient_docs]\n",
      "        while len(sufficient_docs) < self._links.shape[0]:\n            if not trimmed:\n                self._order = self._order[sufficient_docs]\n            trimmed = True\n            self._reorder(sufficient_docs)\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
# a chain: dropping one document takes the only link of the next
n = 9
L = np.zeros((n, n), dtype=int)
for i in range(5): L[i, i + 1] = 1
for i in range(6, 9): L[i, 6 + (i - 5) % 3] = 1; L[i, 6 + (i - 4) % 3] = 1
X = np.arange(1, n + 1)[:, None] * np.ones((1, 6), dtype=int)
ds = DataSet(ssp.csr_matrix(X), links=ssp.csr_matrix(L), debug=True)
order = ds.prune_and_shuffle(min_unique_word_count=1, min_link_count=1)
left = np.asarray(ds.words.todense())[:, 0]
assert len(order) == len(left) and all(X[o, 0] == v for o, v in zip(order, left)), (order, left)
""", "a chain of links, so that dropping poorly linked documents leaves others poorly linked: a second round of pruning",
 "the order reported (and recorded) is that of the first round, so documents are identified wrongly")

seed("B03", "P03", [(C, "            query_end    = min(query_start + query_size, end)\n", "            query_end    = end if fold_id == fold_count - 1 else query_start + query_size\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
rng = np.random.RandomState(0)
L = np.zeros((8, 8), dtype=int)
for i in range(8): L[i, rng.choice(8, 5, replace=False)] = rng.randint(1, 9, 5)
ds = DataSet(ssp.csr_matrix(np.ones((8, 6), dtype=int)), links=ssp.csr_matrix(L), debug=True)
for fold in range(2):
    a, b, _ = ds.folded_link_prediction_split(2, fold, 2)
    assert np.array_equal(np.asarray((a.links + b.links).todense()), L), fold
""", "a number of links the folds do not divide, and the last fold", "held-out rows of the last fold have lengths that disagree with their pointers: links move to other documents")

K5 = "sidetopics/util/se_fast.pyx"
seed("B04", "P05", [(K5, "                    dotProd     = dotProduct_f8(B_row,col,B,C)\n", "                    dotProd     = dotProduct_f8(A_row - start if start == 0 else A_row % B.shape[0],col,B,C)\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot as f
rng = np.random.RandomState(0)
A = ssp.random(20, 9, 0.5, format="csr", random_state=rng)
B, C = rng.rand(20, 3), rng.rand(3, 9)
for s, e in ((0, 20), (0, 10), (10, 20), (7, 13), (5, 18)):
    got = np.asarray(f(A, B[s:e].copy(), C, start=s, end=e).todense())
    want = np.asarray(A.todense())[s:e] * np.log(B[s:e] @ C)
    assert np.allclose(got, want), (s, e)
""", "a range of rows whose start is not a multiple of its length", "the wrong rows of the dense factor are used for such ranges")

seed("B05", "P12", [("sidetopics/model/mom_em.py", "    result = modelState.wordDistParam.copy()\n", "    result = modelState.wordDistParam if modelState.processed else modelState.wordDistParam.copy()\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn.lda_cvb import TopicModel
rng = np.random.RandomState(0)
ds = DataSet(ssp.csr_matrix(rng.poisson(0.6, (30, 20)) + np.eye(30, 20, dtype=int) + np.eye(30, 20, -20, dtype=int)))
m = TopicModel(kind="MOM_VB", n_components=3, iterations=10, query_iterations=5, seed=1)
m.fit(ds)
a = m.transform(ds).copy()
m.components_
b = m.transform(ds)
assert np.allclose(a, b), "reading the word distributions changed the model"
""", "a query after the word distributions were read", "reading the word distributions normalises the learnt parameters in place, so later queries differ")

seed("B06", "P11", [("sidetopics/model/lda_vb_python.py", """    z_max = z.max(axis=0)
    z -= z_max[np.newaxis, :]
""", """    z_max = z.max()
    z -= z_max
""")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn.lda_cvb import TopicModel
rng = np.random.RandomState(0)
X = rng.poisson(1.0, (20, 30)) + 1
X[:, 7] = 0
m = TopicModel(kind="LDA_VB_PYTHON_IMPL", n_components=3, iterations=10, query_iterations=5, seed=1, topic_word_prior=0.0005)
m.fit(DataSet(ssp.csr_matrix(X)))
Q = X.copy(); Q[:, 7] = 2
t = m.transform(DataSet(ssp.csr_matrix(Q)))
assert np.isfinite(t).all() and np.allclose(t.sum(axis=1), 1), t[:2]
""", "a small prior on words, and a document with a word not seen in training", "the soft-max of the unseen word underflows in every topic, and the document's topics are NaN")

seed("B07", "P09", [("sidetopics/model/evals.py", "            recv_set = set(recv_indices[:(m+1)])\n", "            recv_set = set(recv_indices[:max(m + 1, len(expt_indices))])\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.evals import mean_average_prec
exp = ssp.csr_matrix(np.array([[1, 0, 1, 0, 0, 0]]))
est = ssp.csr_matrix(np.array([[.9, .8, .7, .6, .5, .4]]))
got = mean_average_prec(exp, est)
assert abs(got - (1 + 2 / 3) / 2) < 1e-9, got
""", "a document with several relevant links, the first of them ranked near the top", "precision at a rank above the number of relevant links counts results beyond that rank")

seed("B08", "P10", [("sidetopics/model/mom_em.py", "    lls -= fns.loggamma(doc_lens[:, np.newaxis] + beta_sum[np.newaxis, :])\n", "    lls -= fns.loggamma((doc_lens if query is None else query.docLens)[:, np.newaxis] + beta_sum[np.newaxis, :])\n")],
"""
import numpy as np, scipy.sparse as ssp
from scipy.special import gammaln
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn.lda_cvb import TopicModel, ScoreMethod
import sidetopics.model.mom_em as mod
rng = np.random.RandomState(0)
X = rng.poisson(1.0, (20, 30)) + 2
ds = DataSet(ssp.csr_matrix(X))
m = TopicModel(kind="MOM_VB", n_components=3, iterations=10, query_iterations=5, seed=1)
m.fit(ds)
est, evl = ds.doc_completion_split(est_prop=0.3)
m.transform(est, persist_query_state=True)
q = m.query_state_
got = m.score(evl, y_query_state=q, method=ScoreMethod.LogLikelihoodBoundOrSampled)
V = np.asarray(evl.words.todense()); be = mod.wordDistsDirichletParam(m._model_state); y = mod.topicDists(q)
l = np.stack([gammaln(b.sum()) - gammaln(b.sum() + V.sum(axis=1)) + (gammaln(V + b) - gammaln(b)).sum(axis=1) for b in be], axis=1) + np.log(np.maximum(y, 1e-300))
mx = l.max(axis=1)
want = (mx + np.log(np.exp(l - mx[:, None]).sum(axis=1))).sum()
assert abs(got / want - 1) < 1e-6, (got, want)
""", "topics inferred from one part of each document, and the other part scored by expectation", "the score is that of the lengths of the documents inferred from, not of those scored")
