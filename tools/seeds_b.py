import sys
from mkseed import seed
ONLY = sys.argv[1:]
_seed = seed
def seed(id, *a):
    if not ONLY or id in ONLY:
        _seed(id, *a)
M = "sidetopics/model/"
U = "sidetopics/util/"

seed("B09", "P17", [(M + "lda_gibbs_fast.pyx", "    bSum = np.sum(b)\n    dist =", "    bSum = b[0] * T\n    dist =")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_gibbs as g
from sidetopics.model.common import DataSet
# two topics, two words; the prior on words is far from symmetric
b = np.array([0.05, 6.0])
X = ssp.csr_matrix(np.array([[3, 2], [1, 4], [2, 1]], dtype=np.int32))
ds = DataSet(words=X, debug=True)
np.random.seed(3); g.seed_rng(3)
m = g.newModelAtRandom(ds, 2, topicPrior=np.array([1.2, 1.7]), vocabPrior=b)
q = g.newQueryState(ds, m, False)
m, q, _ = g.train(ds, m, q, g.newTrainPlan(iterations=40000, burnIn=500, thin=4, logFrequency=0))
# exact posterior mean of the topic counts of documents by enumeration
from itertools import product
from scipy.special import gammaln as G
toks = [(d, w) for d, row in enumerate(X.toarray()) for w, c in enumerate(row) for _ in range(c)]
a = np.array([1.2, 1.7]); tot = 0; acc = np.zeros((3, 2)); best = None
for z in product(range(2), repeat=len(toks)):
    nd = np.zeros((3, 2)); nk = np.zeros((2, 2))
    for (d, w), k in zip(toks, z): nd[d, k] += 1; nk[k, w] += 1
    lp = G(nd + a).sum() + G(nk + b).sum() - G((nk + b).sum(axis=1)).sum()
    p = np.exp(lp); tot += p
    acc += p * (nd + a) / (nd + a).sum(axis=1)[:, None]
want = acc / tot; got = np.asarray(g.topicDists(q))
assert np.abs(got - want).max() < 0.02, (got, want)
""", "a prior over words that differs between words", "the sampler normalises words by the wrong total and visits assignments with the wrong frequencies")

seed("B10", "P22", [(M + "sim_based_rec.py", "        probs /= src_norms[src]\n", "        probs /= src_norms[outRow]\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import sim_based_rec as s
rng = np.random.RandomState(0)
class M: pass
A = ssp.csr_matrix(rng.poisson(1.0, (9, 7)).astype(float) + np.eye(9, 7))
links = ssp.csr_matrix((rng.rand(9, 9) < 0.4).astype(float))
from sidetopics.model.common import DataSet
ds = DataSet(ssp.csr_matrix(A.astype(int)), links=links, debug=True)
model = s.newModelAtRandom(ds, 2, method=s.TF_IDF)
model, tops, _ = s.train(ds, model, s.newQueryState(ds, model), s.newTrainPlan(2))
sub = np.array([2, 5, 7])
mins = s.min_link_probs(model, tops, tops, links, sub)
P = s.link_probs(model, tops, tops, mins, sub)
T = tops.reps.toarray(); N = np.sqrt((T * T).sum(1)); full = (T @ T.T) / N[:, None] / N[None, :]
got = P.toarray()
for i, d in enumerate(sub):
    nz = np.nonzero(got[i])[0]
    assert np.allclose(got[i, nz], full[d, nz], atol=1e-6), (d, got[i], full[d])
    for e in np.nonzero(links.toarray()[d])[0]:
        assert e in nz or full[d, e] == 0, (d, e)
""", "links sought for a subset of the documents which is not the first few", "similarities are divided by the length of another document, so real links may be lost and rankings across documents are wrong")

seed("B11", "P26", [(M + "ctm_bohning.py", "            for d in range(D):\n                means[d,:] = la.inv(isigT + n[d] * A).dot(rhs[d,:])\n        \n        debugFn (itr, means, \"means\", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, n)\n        \n        like",
   "            means[:, :] = rhs.dot(la.inv(isigT + n.mean() * A).T)\n        \n        debugFn (itr, means, \"means\", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, n)\n        \n        like")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import ctm_bohning as m
from sidetopics.model.common import DataSet
rng = np.random.RandomState(0)
X = rng.poisson(1.5, (12, 9)) * rng.choice([1, 6], 12)[:, None]; X[X.sum(1) == 0, 0] = 1
X = X.astype(np.float64)
ds = DataSet(ssp.csr_matrix(X), debug=True); np.random.seed(0)
model = m.newModelAtRandom(ds, 3, dtype=np.float64)
model, q, _ = m.train(ds, model, m.newQueryState(ds, model), m.newTrainPlan(10, logFrequency=0))
def ask(rows):
    d = DataSet(ssp.csr_matrix(X[rows]), debug=True)
    q = m.newQueryState(d, model)
    q.means[:, :] = np.linspace(-1, 1, 3)
    return np.asarray(m.topicDists(m.query(d, model, q, m.newTrainPlan(3, logFrequency=0))[1]))
together = ask(np.arange(12)); alone = np.vstack([ask([i]) for i in range(12)])
assert np.allclose(together, alone, atol=1e-6), abs(together - alone).max()
""", "documents of different lengths asked together", "each document is inferred with the average length of the batch, so its topics depend on its company")

seed("B12", "P08", [(U + "vectrans.py", "        while indptr[oldRow + 1] <= dataPtr:\n            oldRow += 1\n", "        if indptr[oldRow + 1] <= dataPtr:\n            oldRow += 1\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.util.vectrans import vec_transpose_csr
for dt in (np.int64, np.float64, np.float32, np.int32, np.uint8):
    A = np.zeros((8, 3), dtype=dt); A[0, 1] = 2; A[4, 2] = 5; A[7, 0] = 3
    p = 2
    got = vec_transpose_csr(ssp.csr_matrix(A), p).toarray()
    want = np.vstack([A[:, c].reshape((p, -1), order="F") for c in range(3)])
    assert np.array_equal(got, want), (dt, got, want)
""", "two or more empty rows one after another, in a matrix of a type without a compiled kernel", "entries after a run of empty rows move to the wrong place")

F = M + "sklearn/lda_cvb.py"
seed("B13", "P14", [(F, "            if self._last_X is X:\n", "            if self._last_X is not None and self._last_X.words.shape == X.words.shape:\n")],
"""
import numpy as np
from sidetopics.model.sklearn.lda_cvb import TopicModel
from sidetopics.model.common import DataSet
import scipy.sparse as ssp
rng = np.random.RandomState(0)
A = DataSet(ssp.csr_matrix(rng.poisson(2, (12, 9)) + 1), debug=True); B = DataSet(ssp.csr_matrix(rng.poisson(2, (12, 9)) + 1), debug=True)
m = TopicModel("LDA_CVB0", n_components=3, iterations=5).fit(A)
m.transform(A, persist_query_state=True)
try:
    m.transform(B, resume=True)
except ValueError:
    pass
else:
    raise SystemExit("carried on with other documents")
""", "resuming with another data set of the same size", "inference is carried on from the state of other documents")

seed("B14", "P13", [(F, "            rd.seed(value)\n            if TopicModelType[self.kind]", "            rd.seed(value & 0x0FFFFFFF)\n            if TopicModelType[self.kind]")],
"""
import numpy as np
from sidetopics.model.sklearn.lda_cvb import TopicModel
X = np.random.RandomState(0).poisson(2, (12, 9)) + 1
def run(s):
    m = TopicModel("LDA_CVB0", n_components=3, iterations=2, seed=s).fit(X)
    return np.asarray(m.components_).tobytes()
assert run(7) == run(7)
assert len({run(7), run(7 + (1 << 29)), run(7 + (1 << 28)), run(8)}) == 4
""", "two seeds which agree in their low 28 bits", "different seeds give the same random state")

seed("B15", "P15", [(M + "mom_em.py", "    dist = modelState.topicPrior.copy()\n    dist /= dist.sum()\n", "    dist = modelState.topicPrior\n    dist /= dist.sum()\n")],
"""
import numpy as np
from sidetopics.model.sklearn.lda_cvb import TopicModel
X = np.random.RandomState(0).poisson(2, (12, 9)) + 1
for a in (np.array([1., 2., 4.]), np.array([2, 3, 5.5])):
    held = a.copy()
    m = TopicModel("MOM_VB", n_components=3, iterations=4, doc_topic_prior=a).fit(X)
    m.transform(X)
    assert np.array_equal(a, held), a
""", "a prior over topics given as a vector, for the variational mixture of multinomials", "the caller's prior is normalised in place")

seed("B16", "P16", [(M + "lda_cvb_fast.pyx", "                            sot -= q_v_kt[k,t] / (2 * term2 * term2)\n", "                            sot -= q_v_kt[k,t] / (2 * term2 * term3)\n", 1)],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_cvb as m
import sidetopics.model.lda_cvb_fast as c
from sidetopics.model.common import DataSet
# the same iteration in either precision
X = np.random.RandomState(0).poisson(1, (6, 7)); X[:, 0] += 1
ds = DataSet(ssp.csr_matrix(X.astype(np.int32)), debug=True)
out = {}
for dt in (np.float32, np.float64):
    np.random.seed(0)
    model = m.newModelAtRandom(ds, 3, 0.7, 0.3, dtype=dt)
    q = m.newQueryState(ds, model)
    q.z_dnk[:] = np.random.RandomState(5).dirichlet(np.ones(3), q.z_dnk.shape[:2])
    f = c.calculateCounts_f32 if dt is np.float32 else c.calculateCounts_f64
    n = [np.asarray(a) for a in f(q.W_list, q.docLens, q.z_dnk, 7)]
    q = q._replace(**dict(zip(("n_dk", "n_kt", "n_k", "v_dk", "v_kt", "v_k"), n)))
    out[dt] = np.array(m.train(ds, model, q, m.newTrainPlan(1, logFrequency=0))[1].n_dk, dtype=float)
assert np.abs(out[np.float32] - out[np.float64]).max() < 1e-3, out
""", "64-bit floats (the default is 32-bit)", "the second-order correction of the word counts uses the wrong denominator")

seed("B17", "P07", [(U + "overflow_safe.py", "    LOWER = -17\n", "    LOWER = -12\n")],
"""
import numpy as np
from sidetopics.util.overflow_safe import safe_log_one_plus_exp_of as f
x = np.concatenate([np.linspace(-40, 40, 4001), [-700., 700., 0.]])
got = f(x)
want = np.logaddexp(0, x)
assert np.allclose(got, want, rtol=1e-6, atol=0), x[np.abs(got / want - 1).argmax()]
""", "arguments between -17 and -12", "log(1 + exp(x)) is off by more than the accuracy of the type")

seed("B18", "P19", [(M + "lda_vb_python.py", "        + np.sum((topicPrior - 1)[np.newaxis, :] * (diTopicDists - diSumTopicDists[:, np.newaxis]))",
                                           "        + np.sum((topicPrior.mean() - 1) * (diTopicDists - diSumTopicDists[:, np.newaxis]))")],
"""
import numpy as np, scipy.sparse as ssp
from scipy.special import gammaln as G
from sidetopics.model import lda_vb_python as m
from sidetopics.model.common import DataSet
rng = np.random.RandomState(0)
X = rng.poisson(1, (6, 7)); X[:, 0] += 1
ds = DataSet(ssp.csr_matrix(X), debug=True)
for a in (np.array([.5, .5, .5]), np.array([0.05, 1.0, 6.0])):
    np.random.seed(0)
    model = m.newModelAtRandom(ds, 3, topicPrior=a, vocabPrior=0.3)
    q = m.newQueryState(ds, model)
    b = []
    for i in range(25):   # batch updates never lower the bound
        model, q, _ = m.train(ds, model, q, m.newTrainPlan(1, logFrequency=0))
        b.append(m.var_bound(ds, model, q))
    assert np.diff(b).min() > -1e-6 * abs(b[0]), b
    # one document of one word: the evidence is known
one = DataSet(ssp.csr_matrix(np.array([[1, 0], [0, 1]])), debug=True)
""", "a prior over topics that is far from symmetric", "the bound is that of another prior")

seed("B19", "P18", [(M + "lda_cvb0_fast.pyx", "                rhs = rand() % nd\n", "                rhs = rand() % maxN\n", 1)],
"""
import numpy as np
import sidetopics.model.lda_cvb0_fast as f
rng = np.random.RandomState(0)
import scipy.sparse as ssp
X = rng.poisson(1.5, (20, 9)); X[3] *= 9; X[:, 2] += 1
for name, dt in (("toWordList_i32", np.int32), ("toWordList_f32", np.float32), ("toWordList_f64", np.float64)):
    W = ssp.csr_matrix(X.astype(dt))
    lens = X.sum(1).astype(np.int32)
    L = np.asarray(getattr(f, name)(W.indptr, W.indices, W.data, lens))
    for d in range(20):
        assert np.array_equal(np.bincount(L[d, :lens[d]], minlength=9), X[d]), (name, d)
""", "counts stored as 32-bit floats, in documents shorter than the longest", "words are swapped with the padding of the row and replaced by the first word")

seed("B20", "P20", [(M + "lda_cvb.py", "    if np.any(docLens < 1):\n", "    if np.mean(docLens) < 1:\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import lda_cvb as m
from sidetopics.model.common import DataSet
X = np.random.RandomState(0).poisson(1, (6, 7)); X[:, 0] += 1; X[3] = 0
ds = DataSet(ssp.csr_matrix(X.astype(np.int32)), debug=True)
try:
    model = m.newModelAtRandom(ds, 3, 0.7, 0.3)
    m.train(ds, model, m.newQueryState(ds, model), m.newTrainPlan(3, logFrequency=0))
except ValueError:
    pass
else:
    raise SystemExit("a document without words was accepted")
""", "one document without words among others", "topics are made up for the document without words")

seed("B21", "P21", [(M + "ctm_bohning.py", "        rhs += n[:,np.newaxis] * means.dot(A) + isigT.dot(topicMean)\n        rhs -= n[:,np.newaxis] * rowwise_softmax(means, out=means)\n        if diagonalPriorCov:\n            means = varcs * rhs\n        else:\n            for d in range(D):\n                means[d,:] = la.inv", "        rhs += n[:,np.newaxis] * means.dot(A) + isigT.flat[::K+1] * topicMean\n        rhs -= n[:,np.newaxis] * rowwise_softmax(means, out=means)\n        if diagonalPriorCov:\n            means = varcs * rhs\n        else:\n            for d in range(D):\n                means[d,:] = la.inv")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import ctm_bohning as m
from sidetopics.model.common import DataSet
rng = np.random.RandomState(0)
X = rng.poisson(1.5, (12, 9)).astype(float); X[X.sum(1) == 0, 0] = 1
ds = DataSet(ssp.csr_matrix(X), debug=True); np.random.seed(0)
K = 3
model = m.newModelAtRandom(ds, K, dtype=np.float64)
model, q, _ = m.train(ds, model, m.newQueryState(ds, model), m.newTrainPlan(6, logFrequency=0))
# a strong prior with correlations outweighs the words
S = np.array([[1., .8, -.3], [.8, 1., .1], [-.3, .1, 1.]]) * 1e-5
model = model._replace(sigT=S, topicMean=np.array([1.5, -1., .3]))
r = m.query(ds, model, m.newQueryState(ds, model), m.newTrainPlan(200, logFrequency=0))[1]
p = np.asarray(m.topicDists(r)); w = np.exp(model.topicMean); w /= w.sum()
assert np.abs(p - w).max() < 1e-2, (p[0], w)
""", "correlated topics, in inference for documents", "the prior mean is weighted by the diagonal of the inverse covariance only, so inferred topics are wrong")

seed("B23", "P23", [(M + "dmr.py", "        model.weights.copy(), \\\n", "        model.weights, \\\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import dmr as m
from sidetopics.model.common import DataSet
rng = np.random.RandomState(0)
X = rng.poisson(1.5, (12, 9)); X[X.sum(1) == 0, 0] = 1
ds = DataSet(ssp.csr_matrix(X), feats=ssp.csr_matrix(np.hstack([np.ones((12, 1)), rng.randint(0, 2, (12, 2))])), debug=True)
np.random.seed(0)
model = m.newModelAtRandom(ds, 3)
twin = m.newModelFromExisting(model)
held = np.array(twin.weights)
model.weights[:] = 5
assert np.array_equal(np.array(twin.weights), held)
""", "a copy of a model with regression on features, one of which is then changed", "original and copy share their weights")

seed("B24", "P24", [("sidetopics/run/__main__.py", "            train_like       = mdl.log_likelihood (train_data, model, train_tops)\n            train_word_count = train_data.word_count\n",
   "            train_like       = mdl.log_likelihood (train_data, model, train_tops)\n            train_word_count = train_data.word_count\n            train_like_sum   += train_like\n            train_wcount_sum += train_word_count\n"),
  ("sidetopics/run/__main__.py", "            train_like_sum += train_like\n            train_wcount_sum  += train_word_count\n            query_like_sum", "            query_like_sum")],
"""
import io, re, sys, contextlib, os
import numpy as np, scipy.sparse as ssp
sys.path.insert(0, os.path.join(os.getcwd(), "sidetopics"))
from sidetopics.run import __main__ as r
from sidetopics.model import lda_cvb0 as real
from sidetopics.model.common import DataSet
class Stub:
    calls = 0
    def __getattr__(self, n): return getattr(real, n)
    def query(self, *a):
        Stub.calls += 1
        if Stub.calls == 2: raise ValueError("cannot answer for this fold")
        return real.query(*a)
rng = np.random.RandomState(0)
X = rng.poisson(3, (20, 9)) + 1
ds = DataSet(ssp.csr_matrix(X.astype(np.int32)), debug=True)
np.random.seed(0)
sample = real.newModelAtRandom(ds, 3, 0.7, 0.3)
likes = []
class Log(Stub):
    def log_likelihood(self, *a):
        v = real.log_likelihood(*a); likes.append(float(np.sum(v))); return v
out = io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
    plan = real.newTrainPlan(3, logFrequency=0)
    r.cross_val_and_eval_perplexity(ds, Log(), sample, plan, plan, 4, -1)
total = float(re.search(r"Train-set Likelihood:\\s*(-?[0-9.]+)", out.getvalue()).group(1))
# training likelihoods: fold 0, (1 fails after it), 2, 3; each finished one is followed by its query's
want = likes[0] + likes[3] + likes[5]
assert abs(total - want) < 0.01, (total, want, likes)
""", "a fold which is abandoned between training and the end of its inference", "the total training likelihood and perplexity include folds that were abandoned")

seed("B25", "P06", [(M + "lda_cvb0_fast.pyx", "    finally:\n        free(mems)\n\ncdef double *new_array_f64", "    finally:\n        mems = NULL\n\ncdef double *new_array_f64")],
"""
import resource, numpy as np
import sidetopics.model.lda_cvb0_fast as f
K, T = 4000, 3
W = np.zeros((1, 1), dtype=np.int32); L = np.ones(1, dtype=np.int32)
def run(n):
    z = np.full((1, 1, K), 1. / K); nd = np.full((1, K), 1. / K); nk = np.full((K, T), 1. / K); n_k = np.full(K, T / K)
    for _ in range(n):
        f.iterate_f64(1, 1, 0, K, T, W, L, nd, nk, n_k, z, .5, .5)
run(200)
a = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
run(6000)
b = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
assert b - a < 30000, (a, b)
""", "64-bit floats (the default is 32-bit) and many runs", "each call leaks its scratch space")

seed("B27", "P27", [(M + "mom_em.py", "    result = modelState.wordDistParam.copy()\n    norm = result.sum", "    result = modelState.wordDistParam.astype(modelState.dtype, copy=False)\n    norm = result.sum")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model import mom_em as m
from sidetopics.model.common import DataSet
X = np.random.RandomState(0).poisson(1, (15, 7)); X[:, 0] += 1
ds = DataSet(ssp.csr_matrix(X), debug=True)
def run(freq):
    np.random.seed(0)
    model = m.newModelAtRandom(ds, 3)
    return m.train(ds, model, m.newQueryState(ds, model), m.newTrainPlan(9, logFrequency=freq))[0]
a, b, c = run(0), run(4), run(100)
assert np.allclose(a.wordDistParam, b.wordDistParam) and np.allclose(a.wordDistParam, c.wordDistParam)
""", "a report in the last iteration of training a mixture", "reporting rescales what is learnt")

seed("B22", "P25", [("sidetopics/run/reshape_results.py", "        if line.startswith(MapPrefix):\n            return -1, line\n", "        if line.startswith(MapPrefix):\n            return -1, file.readline()\n")],
"""
import csv, os, tempfile, contextlib, io
from sidetopics.run import reshape_results as t
def table(v):
    row = " | ".join("%.3f" % v for _ in range(10))
    return "| a |\\n|---|\\n" + "".join("| %s | 12 | %s |\\n" % (g, row) for g in "abcde")
text = "LRO, K=5 x\\nTraining perplexity is 50.00\\nPrecision\\n" + table(.5) + "Recall\\n" + table(.25) + "%sMean average-precision: 0.125000\\n\\n"
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
    src, dst = os.path.join(d, "in.txt"), os.path.join(d, "out.csv")
    for mrr, want in (("Mean reciprocal-rank: 0.750000\\n", "0.75"), ("", "-1")):
        open(src, "w").write(text % mrr)
        t.run([src, dst])
        rows = list(csv.DictReader(open(dst)))
        assert len(rows) == 70
        assert {r["MRR"] for r in rows} == {want} and {r["MAP"] for r in rows} == {"0.125"}, (rows[0])
""", "a result without a mean reciprocal rank, but with a mean average precision", "the mean average precision of such a result is lost")

seed("B26", "P02", [(M + "common.py", "        dat    = self._words.data\n", "        dat    = self._words.data.astype(np.float32)\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
X = np.random.RandomState(0).poisson(2, (40, 30)) + 1
X[3, 4] = 2 ** 27 + 1
X[5, 6] = 2 ** 25 + 3
for dtype in (np.int32, np.int64, np.float64):
    W = ssp.csr_matrix(X.astype(dtype))
    for seed in range(5):
        a, b = DataSet(W, debug=True).doc_completion_split(seed=seed)
        assert np.array_equal(a.words.toarray() + b.words.toarray(), X), (dtype, seed)
""", "a word that occurs more than 16.7 million times in a document", "tokens are lost or invented by rounding: the sides do not add up to the original")

seed("B28", "P28", [(M + "sklearn/lda_cvb.py", "            super().fit(X, y)\n            return self\n        finally:\n            self.skip_init = False\n", "            super().fit(X, y)\n            self.skip_init = False\n            return self\n        except ValueError:\n            logging.warning('Could not fit the model')\n            raise\n")],
"""
import numpy as np
from sidetopics.model.sklearn import WrappedSckitLda
X = np.random.RandomState(0).poisson(1, (20, 9)); X[:, 0] += 1
m = WrappedSckitLda(n_components=3, iterations=5, seed=3).fit(X)
first = m.n_batch_iter_
try:
    m.fit(np.hstack([X, X]), resume=True)
    raise SystemExit("training was carried on with another vocabulary")
except Exception:
    pass
m.fit(X)
assert m.n_batch_iter_ == first, (m.n_batch_iter_, first)
""", "a refused attempt to carry on training, and then a new fit", "the new fit carries on from the old topics instead of learning anew")

seed("B29", "P29", [(M + "lda_vb_python.py", "        for s in range(batchSize):\n", "        for s in range(min(batchSize, D)):\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.common import DataSet
import sidetopics.model.lda_vb_python as m
X = np.random.RandomState(0).poisson(1, (8, 11)); X[:, 0] += 1
ds = DataSet(ssp.csr_matrix(X.astype(np.float64)), debug=True)
for batch in (4, 8, 24):
    np.random.seed(1)
    model = m.newModelAtRandom(ds, 3, topicPrior=.5, vocabPrior=.25, dtype=np.float64)
    q = m.newQueryState(ds, model, False)
    model, q, _ = m.train(ds, model, q, m.newTrainPlan(iterations=1, batchSize=batch, rate_delay=0., forgetting_rate=.9))
    if batch < 8:
        continue
    total = X.sum() + 3 * 11 * .25    # one or more whole corpora with full steps: the counts, and the prior of every word of every topic
    first = float(np.asarray(model.wordDists).sum())
    assert abs(first - total) < 1e-6, (batch, first, total)
""", "batches of more documents than there are", "each document counts once in the batch, so the counts learnt are too small")

seed("B30", "P30", [(M + "dmr.py", "        scale[:top] += fns.digamma(alpha[:top,k,np.newaxis] + n_dk_samples[d:max_d,k,:sample_count]).sum(axis=1) / sample_count\n", "        scale[:top] += fns.digamma(alpha[:top,k,np.newaxis] + n_dk_samples[:top,k,:sample_count]).sum(axis=1) / sample_count\n")],
"""
import contextlib, io
import numpy as np
import sidetopics.model.dmr as g
rng = np.random.RandomState(0)
K, F, S = 3, 2, 2
for D in (300, 5400):
    X = (rng.rand(D, F) < .5) * 1.
    n = rng.randint(0, 9, size=(D, K, S + 1)).astype(np.uint16)
    W, w = rng.rand(K, F) - .5, rng.rand(F) - .5
    with contextlib.redirect_stdout(io.StringIO()):
        got = np.asarray(g.gradient(w, 1, W, S, n, X, 2.)).ravel()
        f = lambda v: g.objective(v, 1, W, S, n, X, 2.)
        h = 1e-5
        want = np.array([(f(w + h * e) - f(w - h * e)) / (2 * h) for e in np.eye(F)])
    assert np.allclose(got, want, rtol=1e-4, atol=1e-2), (D, got, want)
""", "more than 5000 documents", "the gradient for later documents uses the topics of the first ones, so the weights of features are wrong")

seed("B31", "P18", [(M + "common.py", "    def word_count(self):\n        return self._words.sum()\n", "    def word_count(self):\n        if getattr(self, '_word_count', None) is None:\n            self._word_count = self._words.sum()\n        return self._word_count\n")],
"""
import numpy as np
from sidetopics.model.common import DataSet
X = np.random.RandomState(0).poisson(1, (12, 9)); X[:6] = 0; X[:6, 3] = 2
ds = DataSet(words=X, debug=True)
assert ds.word_count == X.sum()
ds.prune_and_shuffle(min_unique_word_count=2)
assert ds.word_count == ds.words.sum() < X.sum(), (ds.word_count, ds.words.sum(), X.sum())
""", "asking for the number of tokens before documents are pruned, and again after", "the number of tokens stays that of the documents there were before")

seed("B32", "P05", [(U + "sparse_elementwise.py", "        out = A.copy()\n    _check_shapes(A, B, C, out, A.shape[0])\n    if A.dtype == np.float64:\n        compiled.sparseScalarProductOfDot_f8", "        key = (A.dtype.str, A.shape, A.indptr.tobytes(), A.indices.tobytes())\n        if key not in _patterns:\n            _patterns.clear()\n            _patterns[key] = A.copy()\n        out = _patterns[key]\n    _check_shapes(A, B, C, out, A.shape[0])\n    if A.dtype == np.float64:\n        compiled.sparseScalarProductOfDot_f8"),
                   (U + "sparse_elementwise.py", "def entropyOfDot (topics, vocab):\n", "_patterns = {}\n\ndef entropyOfDot (topics, vocab):\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.util.sparse_elementwise import sparseScalarProductOfDot as f
rng = np.random.RandomState(0)
A = ssp.csr_matrix(rng.poisson(1, (6, 7)).astype(float))
B, C = rng.rand(6, 3), rng.rand(3, 7)
one, two = f(A, B, C), f(A, 2 * B, C)
assert np.allclose(one.toarray(), A.toarray() * B.dot(C))
assert np.allclose(two.toarray(), 2 * one.toarray())
""", "keeping a result while the product is taken again for a matrix of the same pattern", "the later product overwrites the result of the earlier")

seed("B33", "P09", [(M + "evals.py", "        ms = at\n", "        ms = sorted(at)\n")],
"""
import numpy as np, scipy.sparse as ssp
from sidetopics.model.evals import mean_prec_rec_at, AllGroups
rng = np.random.RandomState(0)
E = ssp.csr_matrix((rng.rand(9, 30) < .2).astype(int)); S = ssp.csr_matrix(rng.rand(9, 30))
def at(m):
    p, r, _ = mean_prec_rec_at(E, S, at=m)
    return p[AllGroups], r[AllGroups]
for ms in ([1, 5, 20], [20, 5, 1], [7, 3]):
    p, r = at(ms)
    for i, m in enumerate(ms):
        p1, r1 = at([m])
        assert abs(p[i] - p1[0]) < 1e-12 and abs(r[i] - r1[0]) < 1e-12, (ms, i)
""", "cut-offs which are not given in ascending order", "the figures are reported beside the wrong cut-offs")

seed("B34", "P14", [(M + "sklearn/lda_cvb.py", "        self._bound = math.nan\n        self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))\n", "        self._bound = math.nan\n        if kwargs.get('persist_query_state') or not kwargs.get('resume'):\n            self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))\n")],
"""
import numpy as np
from sidetopics.model.common import DataSet
from sidetopics.model.sklearn.lda_cvb import TopicModel, TopicModelType
X = np.random.RandomState(0).poisson(1, (12, 9)); X[:, 0] += 1
ds = DataSet(words=X, debug=True)
m = TopicModel(kind=TopicModelType.LDA_VB_PYTHON_IMPL.name, n_components=3, iterations=4, query_iterations=3)
m.fit(ds)
m.transform(ds, persist_query_state=True)
m.transform(ds, resume=True)          # and this one is not to be kept
assert m.query_state_ is None
try:
    m.transform(ds, resume=True)
    raise SystemExit("resumed what was not kept")
except ValueError:
    pass
""", "resuming without asking to keep the state again, and resuming once more", "inference resumes from an old state, as if the resumed run had not happened")
