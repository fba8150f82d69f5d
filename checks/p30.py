"""Sizes change nothing: up to the documented limits all that holds of small corpora holds of large ones; beyond, there is a refusal."""
import itertools
import numpy as np
import scipy.sparse as ssp
from scipy import special as fns
from vlib import families, gen, models
from vlib.core import rng_of, quiet, sha

META = dict(rule="distinct (model or operation, dimension that is large, size) in which every token, cell or part was accounted for",
            min_events={"large": 60, "tokens": 1000000, "parts": 20, "refusals": 8},
            assumptions=["one dimension is large at a time, so that a case takes seconds"])
SAMPLED = ["LDA_GIBBS", "dmr"]
FAST = ["LDA_CVB0", "LDA_CVB", "LDA_GIBBS", "MOM_VB", "dmr", "LDA_VB_PYTHON_IMPL", "MOM_GIBBS"]
NORMAL = ["ctm", "ctm_bohning", "ctm_grad_arb", "stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning"]
PARTED = ["LDA_VB_PYTHON_IMPL", "MOM_VB"] + NORMAL
# dimension: (documents, words, topics, words per document, tokens of the longest document)
SIZES = {"topics": [(40, 30, 254, 12, 0), (25, 60, 130, 20, 0), (30, 40, 200, 9, 0)],
         "vocab": [(20, 65535, 3, 60, 0), (25, 33000, 4, 40, 0), (12, 65535, 2, 300, 0)],
         "long": [(8, 25, 3, 10, 300000), (6, 12, 2, 8, 66000), (9, 40, 4, 15, 131080)],
         "docs": [(70000, 15, 3, 3, 0), (33000, 20, 4, 4, 0), (5001, 20, 3, 5, 0)]}


def cases(tier, seed):
    rounds = 1 if tier == "quick" else 8
    i = 0
    for r in range(rounds):
        for dim in SIZES:
            for name in FAST + NORMAL:
                yield dict(i=i, seed=seed, what="learn", dim=dim, name=name, size=(i + seed + r) % 3)
                i += 1
        for name in PARTED:
            yield dict(i=i, seed=seed, what="parts", name=name, size=r)
            i += 1
        for what in ("objective", "limits", "splits", "kernels", "transpose", "ranking", "tokens", "company", "rare"):
            for rep in range(2 if what in ("objective", "splits", "kernels", "company", "rare", "tokens") else 1):
                yield dict(i=i, seed=seed, what=what, rep=rep)
                i += 1


def corpus(rng, D, T, n, longest):
    """documents of about n words; every word occurs; the first document is the longest"""
    rows = np.repeat(np.arange(D), n)
    cols = rng.randint(0, T, size=D * n)
    X = ssp.csr_matrix((np.ones(D * n), (rows, cols)), shape=(D, T))
    lost = np.where(np.asarray(X.sum(axis=0)).ravel() == 0)[0]
    X = X + ssp.csr_matrix((np.ones(len(lost)), (rng.randint(0, D, size=len(lost)), lost)), shape=(D, T))
    if longest:
        p = rng.dirichlet(np.ones(T))
        X = ssp.vstack([ssp.csr_matrix(rng.multinomial(longest, p)[None, :].astype(float)), X[1:]]).tocsr()
    X.sort_indices()
    return X.tocsr()


def cells(td, wd, X):
    """the probability of every word of every document"""
    rows = np.repeat(np.arange(X.shape[0]), np.diff(X.indptr))
    out = np.zeros(len(rows))
    for k in range(td.shape[1]):
        out += td[rows, k] * wd[k, X.indices]
    return rows, out


def score(name, td, wd, X):
    td, wd = np.asarray(td, np.float64), np.asarray(wd, np.float64)
    if name in models.MIXTURES:
        with np.errstate(divide="ignore"):
            l = X @ np.log(wd).T + np.log(td)
        m = l.max(axis=1)
        return float((m + np.log(np.exp(l - m[:, None]).sum(axis=1))).sum())
    _, p = cells(td, wd, X)
    return float((X.data * np.log(np.maximum(p, np.finfo(np.float64).tiny))).sum())


def prepare(name, X, rng, F=3):
    kind = name in models.KINDS
    if kind:
        return models.module(name), models.dataset(X.astype(np.int32 if name.startswith("LDA_CVB") else np.float64)), None
    feats = None
    if name in families.FEATS:
        feats = np.where(rng.rand(X.shape[0], F) < .5, 1., 0.)
        feats[:, 0] = 1.
        feats = ssp.csr_matrix(feats)
    return families.module(name), families.data(name, X, feats=feats), feats


def begin(name, m, ds, K):
    if name in models.KINDS:
        model = m.newModelAtRandom(ds, K, dtype=np.float64)
        return model, m.newQueryState(ds, model, False)
    return families.start(name, ds, K)


def plan(name, m, n):
    if name == "LDA_GIBBS":
        return m.newTrainPlan(1, burnIn=n - 1, thin=1)  # one sample
    if name == "dmr":
        return m.newTrainPlan(n, burnIn=n - 1, thin=1, weightUpdateInterval=1000)
    return m.newTrainPlan(n, logFrequency=0) if name in models.KINDS else families.plan(name, n)


def answers(name, m, model, q):
    if name in models.KINDS or name == "dmr":
        return np.asarray(m.topicDists(q)), np.asarray(m.wordDists(model))
    return families.topic_dists(name, q), families.word_dists(name, model)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p30")
    mon.count("large")
    globals()[case["what"]](case, mon, rng)


def learn(case, mon, rng):
    name, dim = case["name"], case["dim"]
    D, T, K, n, longest = SIZES[dim][case["size"]]
    if name == "dmr" and longest:
        longest = 65535 - n
    if name in ("LDA_VB_PYTHON_IMPL", "MOM_GIBBS") and dim == "docs":
        D = 2500
    elif dim == "docs" and name in NORMAL:
        D = min(D, 9000)
    elif dim == "topics" and name in NORMAL:
        D = 12
    X = corpus(rng, D, T, n, longest)
    lens = np.asarray(X.sum(axis=1)).ravel()
    words = np.asarray(X.sum(axis=0)).ravel()
    models.reseed(case["i"])
    np.random.seed(case["i"])
    m, ds, feats = prepare(name, X, rng)
    mon.seen(name, dim, D, T, K)
    with quiet():
        model, q = begin(name, m, ds, K)
        alpha = np.exp(feats @ np.asarray(model.weights).T) if name == "dmr" else None
        model, q = m.train(ds, model, q, plan(name, m, 2 if name == "dmr" or dim == "topics" else 3))[:2]
    td, wd = answers(name, m, model, q)
    mon.count("tokens", int(lens.sum()))
    what = "%s of %s" % (name, dim)
    ok = models.is_distribution(mon, td, (D, K), "topics:" + dim, what, tol=1e-4)
    ok &= models.is_distribution(mon, wd, (K, T), "words:" + dim, what, tol=1e-4)
    if not ok:
        return
    tol = dict(rtol=1e-7, atol=1e-6 * lens.max())
    if name in SAMPLED:
        w, z = np.asarray(q.w_list), np.asarray(q.z_list).astype(np.int64)
        docs = np.repeat(np.arange(D), lens.astype(int))
        if not mon.expect(len(w) == len(z) == len(docs) and z.min() >= 0 and z.max() < K, "tokens:" + dim, "tokens were lost, or assigned to topics that do not exist", got=(len(w), len(z), int(z.max()))):
            return
        back = ssp.csr_matrix((np.ones(len(w)), (docs, w.astype(np.int64))), shape=(D, T))
        mon.expect(abs(back - X).sum() == 0, "tokens:" + dim, "the tokens are not the words of the documents")
        a = np.broadcast_to(model.topicPrior, (K,)) if name == "LDA_GIBBS" else alpha
        dk = np.asarray(ssp.csr_matrix((np.ones(len(z)), (docs, z)), shape=(D, K)).todense())
        kt = np.asarray(ssp.csr_matrix((np.ones(len(z)), (z, w.astype(np.int64))), shape=(K, T)).todense())
        b = np.broadcast_to(model.vocabPrior, (T,))
        dk = dk + a
        mon.close(td, dk / dk.sum(axis=1)[:, None], "counts:topics:" + dim, "the topics are not those of the tokens", rtol=1e-9)
        mon.close(wd, (kt + b) / (kt + b).sum(axis=1)[:, None], "counts:words:" + dim, "the words of topics are not those of the tokens", rtol=1e-9)
    elif name.startswith("LDA_CVB"):
        mon.close(np.asarray(q.n_dk).sum(axis=1), lens, "mass:topics:" + dim, "a document's topics do not add up to its length", **tol)
        mon.close(np.asarray(q.n_kt).sum(axis=0), words, "mass:words:" + dim, "a word's topics do not add up to its count", **tol)
        mon.close(np.asarray(q.n_k), np.asarray(q.n_kt).sum(axis=1), "mass:sizes:" + dim, "the sizes of topics are not those of their words", **tol)
    elif name == "LDA_VB_PYTHON_IMPL":
        alpha, eta = np.broadcast_to(model.topicPrior, (K,)), np.broadcast_to(model.vocabPrior, (T,))
        mon.close(np.asarray(q.topicDists).sum(axis=1), lens + alpha.sum(), "mass:topics:" + dim, "a document's topics do not add up to its length", **tol)
        mon.close(np.asarray(model.wordDists).sum(axis=0), words + K * eta, "mass:words:" + dim, "a word's topics do not add up to its count", **tol)
    elif name == "MOM_VB":
        eta = np.broadcast_to(model.vocabPrior, (T,))
        mon.close(np.asarray(model.corpusTopicDistParam).sum(), D + np.broadcast_to(model.topicPrior, (K,)).sum(), "mass:topics:" + dim, "the topics do not add up to the number of documents", rtol=1e-7)
        mon.close(np.asarray(model.wordDistParam).sum(axis=0), words + K * eta, "mass:words:" + dim, "a word's topics do not add up to its count", **tol)
    with quiet():
        got = float(np.sum(m.log_likelihood(ds, model, q)))
    if name.startswith("LDA_CVB"):
        td = np.asarray(q.n_dk) + model.topicPrior  # the likelihood is that of the smoothed topics
        td /= td.sum(axis=1)[:, None]
    mon.close(got, score(name, td, wd, X), "likelihood:" + dim, "the likelihood is not that of the words, model and topics", rtol=1e-6, name=name)
    # inference keeps the sizes too
    with quiet():
        q2 = m.newQueryState(ds, model, False) if name in models.KINDS else m.newQueryState(ds, model)
        q2 = m.query(ds, model, q2, plan(name, m, 2))[1]
    models.is_distribution(mon, answers(name, m, model, q2)[0], (D, K), "inferred:" + dim, what, tol=1e-4)


def parts(case, mon, rng):
    """many documents at once, and a few of them"""
    name = case["name"]
    D = 1500 if name == "LDA_VB_PYTHON_IMPL" else 6000
    X = corpus(rng, D, 20, 5, 0)
    feats = ssp.csr_matrix(np.hstack([np.ones((D, 1)), (rng.rand(D, 3) < .5) * 1.]))
    m = models.module(name) if name in models.KINDS else families.module(name)

    def data(idx):
        if name in models.KINDS:
            return models.dataset(ssp.csr_matrix(X[idx]))
        return families.data(name, ssp.csr_matrix(X[idx]), feats=ssp.csr_matrix(feats[idx]) if name in families.FEATS else None)

    def pick(q, idx):
        return type(q)(*[np.ascontiguousarray(v[idx]) if isinstance(v, np.ndarray) and v.ndim and len(v) == D else v for v in q])
    np.random.seed(case["i"])
    with quiet():
        few = data(np.arange(60))
        model, q = begin(name, m, few, 3)
        model = m.train(few, model, q, plan(name, m, 3))[0]
        ds = data(np.arange(D))
        fresh = m.newQueryState(ds, model, False) if name in models.KINDS else m.newQueryState(ds, model)
        fresh = type(fresh)(*[v.copy() if isinstance(v, np.ndarray) else v for v in fresh])
        every = m.query(ds, model, type(fresh)(*[v.copy() if isinstance(v, np.ndarray) else v for v in fresh]), plan(name, m, 4))[1]
    td = answers(name, m, model, every)[0]
    total = 0.
    for lo, hi in ((0, D // 2), (D // 2, D), (D - 7, D), (D // 3, D // 3 + 40)):
        idx = np.arange(lo, hi)
        with quiet():
            part = data(idx)
            got = m.query(part, model, pick(fresh, idx), plan(name, m, 4))[1]
            like = float(np.sum(m.log_likelihood(part, model, got)))
        mon.count("parts")
        mon.close(answers(name, m, model, got)[0], td[idx], "parts:" + name, "what is inferred of a document depends on how many are asked of", rtol=1e-5, atol=1e-7)
        if hi - lo == D // 2 or (lo, hi) == (D // 2, D):
            total += like
    with quiet():
        whole = float(np.sum(m.log_likelihood(ds, model, every)))
    mon.close(total, whole, "parts:likelihood:" + name, "the likelihood of many documents is not the sum of those of halves", rtol=1e-6)
    mon.seen("parts", name, D)


def objective(case, mon, rng):
    """regression of topics on the features of more documents than are looked at in one go"""
    import sidetopics.model.dmr as g
    D, K, F, S = int(rng.choice([5000, 5001, 9999, 12345, 10000])), 3, 4, 2
    X = (rng.rand(D, F) < .5) * rng.randint(1, 3, size=(D, F)).astype(np.float64)
    X[:, 0] = 1
    Xs = ssp.csr_matrix(X) if case["rep"] else X
    n = rng.randint(0, 9, size=(D, K, S + 1)).astype(np.uint16)
    W = (rng.rand(K, F) - .5)
    k = int(rng.randint(K))
    used = n[:, :, :S].astype(float)

    def joint(w):
        full = W.copy()
        full[k] = w
        a = np.exp(X @ full.T)
        total = a.sum(axis=1)
        v = fns.gammaln(total).sum() - fns.gammaln(total[:, None] + used.sum(axis=1)).sum() / S
        v += fns.gammaln(a[:, k, None] + used[:, k]).sum() / S - fns.gammaln(a[:, k]).sum()
        d = fns.digamma(total) - fns.digamma(total[:, None] + used.sum(axis=1)).sum(axis=1) / S
        d += fns.digamma(a[:, k, None] + used[:, k]).sum(axis=1) / S - fns.digamma(a[:, k])
        return -v + .5 / 2. * (w ** 2).sum(), -((d * a[:, k]) @ X) + w / 2.
    w1, w2 = rng.rand(F) - .5, rng.rand(F) - .5
    with quiet():
        got = [float(g.objective(w, k, W, S, n, Xs, 2.)) for w in (w1, w2)]
        grad = np.asarray(g.gradient(w1, k, W, S, n, Xs, 2.), dtype=float).ravel()
    mon.close(got[1] - got[0], joint(w2)[0] - joint(w1)[0], "objective", "the objective is not that of all documents", rtol=1e-7, atol=1e-5)
    mon.close(grad, joint(w1)[1], "objective:gradient", "the gradient is not that of all documents", rtol=1e-7, atol=1e-6)
    mon.count("parts")
    mon.seen("objective", D, case["rep"])


def refuses(mon, what, f):
    mon.count("refusals")
    try:
        with quiet():
            f()
    except (ValueError, AssertionError, OverflowError, TypeError):
        return
    mon.fail("limit:" + what, "a size beyond the documented limit is accepted", limit=what)


def limits(case, mon, rng):
    few = models.dataset(corpus(rng, 8, 12, 6, 0))
    wide = models.dataset(corpus(rng, 4, 65536, 6, 0))
    for name, K in (("LDA_GIBBS", 256), ("LDA_GIBBS", 300), ("LDA_VB_PYTHON_IMPL", 255), ("LDA_VB_PYTHON_IMPL", 512), ("MOM_VB", 255), ("MOM_GIBBS", 255), ("LDA_GIBBS", 1)):
        refuses(mon, "%s:%d topics" % (name, K), lambda: models.module(name).newModelAtRandom(few, K, dtype=np.float64))
    for K in (256, 1000):
        refuses(mon, "dmr:%d topics" % K, lambda: families.module("dmr").newModelAtRandom(families.data("dmr", few.words, feats=ssp.csr_matrix(np.ones((8, 2)))), K, dtype=np.float64))
    refuses(mon, "LDA_GIBBS:words", lambda: models.module("LDA_GIBBS").newModelAtRandom(wide, 3, dtype=np.float64))
    refuses(mon, "dmr:words", lambda: families.module("dmr").newModelAtRandom(families.data("dmr", wide.words, feats=ssp.csr_matrix(np.ones((4, 2)))), 3, dtype=np.float64))
    X = models.dense(corpus(rng, 5, 9, 6, 0))
    X[2, 3] = 40000
    X[2, 5] = 25536
    g = families.module("dmr")
    ds = families.data("dmr", ssp.csr_matrix(X), feats=ssp.csr_matrix(np.ones((5, 2))))

    def learns():
        model, q = families.start("dmr", ds, 3)
        g.train(ds, model, q, plan("dmr", g, 2))
    refuses(mon, "dmr:length", learns)
    mon.seen("limits")


def splits(case, mon, rng):
    """each document of many carries its number"""
    from sidetopics.model.common import DataSet
    D = int(rng.choice([70000, 33000, 100003]))
    X = corpus(rng, D, 9, 3, 0)
    ident = ssp.csr_matrix((np.arange(1, D + 1, dtype=float)[:, None]))
    words = ssp.hstack([ident, X]).tocsr()
    links = ssp.csr_matrix((np.ones(3 * D), (np.repeat(np.arange(D), 3), rng.randint(0, D, size=3 * D))), shape=(D, D))
    folds = int(rng.choice([5, 7]))

    def ids(ds):
        return np.asarray(ds.words[:, 0].todense()).ravel().astype(np.int64) - 1
    with quiet():
        ds = DataSet(words, links=links, debug=False)
        held = []
        for f in range(folds):
            a, b = ds.cross_valid_split(f, folds)
            ia, ib = ids(a), ids(b)
            mon.expect(len(ia) + len(ib) == D and np.array_equal(np.sort(np.concatenate([ia, ib])), np.arange(D)), "splits:folds", "a split of many documents is no partition", D=D, fold=f)
            mon.expect(np.array_equal(a.order, ia) and np.array_equal(b.order, ib), "splits:order", "the order does not say which documents these are", D=D)
            mon.expect(abs(a.links - links[ia]).sum() == 0 and abs(b.links - links[ib]).sum() == 0, "splits:links", "the links of a split are those of other documents", D=D)
            held.append(ib)
        mon.expect(len(np.unique(np.concatenate(held))) == D, "splits:held", "some documents are never held out", D=D)
        est, evl = DataSet(words, debug=False).doc_completion_split(seed=case["i"])
        mon.expect(abs(est.words + evl.words - words).sum() == 0 and est.words.data.min() >= 0 and evl.words.data.min() >= 0, "splits:completion", "tokens of many documents were lost or invented", D=D)
        for symmetric in (False, True):
            both = ssp.csr_matrix(links + links.T) if symmetric else links
            if symmetric and case["rep"]:
                continue
            l, r = DataSet(words, links=both, debug=False).link_prediction_split(symmetric=symmetric)
            mon.expect(abs(l.links + r.links - both).sum() == 0 and l.links.multiply(r.links).nnz == 0, "splits:link-halves", "links of many documents were lost, or are on both sides", D=D, symmetric=symmetric)
        order = ds.prune_and_shuffle(min_unique_word_count=3, seed=5)
        kept = np.where((np.diff(words.indptr) >= 3))[0]
        mon.expect(np.array_equal(np.sort(ids(ds)), kept) and np.array_equal(order, ids(ds)), "splits:pruned", "pruning many documents keeps others than it says", D=D)
    mon.count("parts", folds)
    mon.seen("splits", D, folds)


def kernels(case, mon, rng):
    import sidetopics.util.sparse_elementwise as se
    dt = [np.float64, np.float32][case["rep"] % 2]
    tol = dict(rtol=1e-9, atol=1e-9) if dt == np.float64 else dict(rtol=1e-3, atol=1e-3)
    for R, C, K, n in ((70000, 20, 3, 2), (30, 70000, 4, 300), (40, 50, 400, 8)):
        A = corpus(rng, R, C, n, 0).astype(dt)
        B, Cm = (rng.rand(R, K) + .1).astype(dt), (rng.rand(K, C) + .1).astype(dt)
        rows, p = cells(B.astype(float), Cm.astype(float), A)
        data = A.data.astype(float)
        mon.count("tokens", len(data))
        mon.close(se.sparseScalarProductOfDot(A, B, Cm).data, data * p, "kernels:product", "the product is wrong for large operands", **tol)
        mon.close(se.sparseScalarQuotientOfDot(A, B, Cm).data, data / p, "kernels:quotient", "the quotient is wrong for large operands", **tol)
        mon.close(se.sparseScalarProductOfSafeLnDot(A, B, Cm).data, data * np.log(p), "kernels:logarithm", "the product with the logarithm is wrong for large operands", **tol)
        lo, hi = R // 3, R - R // 7
        part = slice(A.indptr[lo], A.indptr[hi])
        mon.close(se.sparseScalarQuotientOfDot(A, B[lo:hi], Cm, start=lo, end=hi).data, (data / p)[part], "kernels:range", "the quotient is wrong for a range of large operands", **tol)
        mon.count("parts")
    mon.seen("kernels", str(dt))


def transpose(case, mon, rng):
    import sidetopics.util.vectrans as vt
    for R, C, p in ((70000, 6, 70), (8, 70000, 2), (66000, 3, 33000), (300, 300, 10)):
        M = (rng.rand(R, C) < .2) * rng.randint(1, 9, size=(R, C)).astype(float)
        want = np.vstack([np.reshape(M[:, j], (p, R // p), order="F") for j in range(C)])
        mon.expect(np.array_equal(np.asarray(vt.vec_transpose(M, p)), want), "transpose:dense", "entries of a large matrix move to the wrong place", shape=(R, C), p=p)
        got = vt.vec_transpose_csr(ssp.csr_matrix(M), p)
        mon.expect(got.shape == want.shape and abs(got - ssp.csr_matrix(want)).sum() == 0, "transpose:sparse", "entries of a large sparse matrix move to the wrong place", shape=(R, C), p=p)
        mon.count("parts")
    mon.seen("transpose")


def ranking(case, mon, rng):
    """the measures of many rankings of many links, from their definitions"""
    from sidetopics.model.evals import mean_average_prec, mean_prec_rec_at, mean_reciprocal_rank
    D, n = 900, 1500
    per = rng.randint(1, 30, size=D)
    cols = np.concatenate([rng.choice(n, size=k, replace=False) for k in per])
    truth = ssp.csr_matrix((np.ones(len(cols)), (np.repeat(np.arange(D), per), cols)), shape=(D, n))
    guess = rng.rand(D, n) + .01
    order = np.argsort(-guess, axis=1, kind="stable")
    hit = np.take_along_axis(truth.toarray() > 0, order, axis=1)
    found, rank = np.cumsum(hit, axis=1), np.arange(1, n + 1)
    mon.count("parts", D)
    mon.count("tokens", int(per.sum()))
    ms = [1, 10, 250, n, n + 100]
    with quiet():
        ap = float(mean_average_prec(truth, ssp.csr_matrix(guess)))
        rr = float(mean_reciprocal_rank(truth, ssp.csr_matrix(guess)))
        p, r, count = mean_prec_rec_at(truth, ssp.csr_matrix(guess), at=ms)
    mon.close(ap, ((hit * found / rank).sum(axis=1) / per).mean(), "ranking:average", "the mean average precision of many documents is not its definition's", rtol=1e-9)
    mon.close(rr, (hit / rank).sum() / per.sum(), "ranking:reciprocal", "the mean reciprocal rank of many documents is not its definition's", rtol=1e-9)
    group = list(count)[0]
    got = np.array([found[:, min(k, n) - 1] for k in ms], dtype=float)
    mon.close(np.array(p[group], dtype=float), (got / np.array(ms)[:, None]).mean(axis=1), "ranking:precision", "the precision of many documents is not its definition's", rtol=1e-9)
    mon.close(np.array(r[group], dtype=float), (got / per).mean(axis=1), "ranking:recall", "the recall of many documents is not its definition's", rtol=1e-9)
    mon.expect(list(count.values())[0] == D, "ranking:count", "documents were lost", got=str(count))
    mon.seen("ranking", D, n)


def tokens(case, mon, rng):
    """a corpus of many tokens, as lists of words and back"""
    name = SAMPLED[case["rep"] % 2]
    for D, T, n in ((40000, 60000, 12), (30, 65535, 30000), (60000, 300, 40)):
        rows = np.repeat(np.arange(D), n // 2)
        X = ssp.csr_matrix((rng.randint(1, 4, size=len(rows)), (rows, rng.randint(0, T, size=len(rows)))), shape=(D, T)).astype(np.float64)
        X.sum_duplicates()
        m, ds, _ = prepare(name, X, rng)
        with quiet():
            model, q = begin(name, m, ds, 254)
        w, z, lens = np.asarray(q.w_list), np.asarray(q.z_list).astype(np.int64), np.asarray(q.docLens).astype(np.int64)
        mon.count("tokens", int(X.sum()))
        mon.expect(np.array_equal(lens, np.asarray(X.sum(axis=1)).ravel()), "tokens:lengths", "lengths of documents are wrong", D=D, T=T)
        mon.expect(len(w) == X.sum() and len(z) == len(w), "tokens:number", "tokens were lost or invented", D=D, T=T, got=len(w))
        if len(w) == X.sum() == lens.sum():
            back = ssp.csr_matrix((np.ones(len(w)), (np.repeat(np.arange(D), lens), w.astype(np.int64))), shape=(D, T))
            mon.expect(abs(back - X).sum() == 0, "tokens:words", "the tokens are not the words of the documents", D=D, T=T)
        mon.expect(z.min() >= 0 and z.max() < 254, "tokens:topics", "tokens are assigned to topics that do not exist", got=int(z.max()))
    mon.seen("tokens", name)


def sampled(name, X, phi, prior, samples, seed):
    """what is inferred of documents X by a sampler that has learned exactly the words phi"""
    K, T = phi.shape
    feats = ssp.csr_matrix(np.ones((X.shape[0], 1)))
    if name == "dmr":
        m = families.module("dmr")
        ds = families.data("dmr", X, feats=feats)
        with quiet():
            model, q = families.start("dmr", ds, K)
        model = model._replace(weights=np.log(prior)[:, None].copy(), vocabSum=phi.copy() * 4, numSamples=4)
        p = m.newTrainPlan(samples + 20, burnIn=20, thin=1, weightUpdateInterval=10 ** 6)
    else:
        m = models.module(name)
        ds = models.dataset(X)
        with quiet():
            model = m.newModelAtRandom(ds, K, dtype=np.float64)
        model = model._replace(topicPrior=prior.copy(), vocabSum=phi.copy() * 4, numSamples=4)
        p = m.newTrainPlan(samples + 20, burnIn=20, thin=1)
    models.reseed(seed)
    np.random.seed(seed)
    with quiet():
        q = m.newQueryState(ds, model, False) if name != "dmr" else m.newQueryState(ds, model)
        q = m.query(ds, model, q, p)[1]
    return np.asarray(m.topicDists(q))


def posterior(phi, prior, v):
    """topics of a document of the one word v"""
    p = phi[:, v] * prior
    p = p / p.sum()
    return (prior + p) / (prior.sum() + 1)


def company(case, mon, rng):
    """what is inferred of a document does not depend on how many others are asked of at the same time"""
    K, T = 3, 6
    for name in SAMPLED:
        phi = rng.dirichlet(np.ones(T), size=K) * .9 + .1 / T
        prior = rng.rand(K) + .4
        v = rng.randint(T)
        for D in (20000, 200000):
            # nearly all are of the same word
            words = np.where(rng.rand(D) < .98, v, rng.randint(0, T, size=D))
            words[:T] = np.arange(T)
            X = ssp.csr_matrix((np.ones(D), (np.arange(D), words)), shape=(D, T))
            S = 200000 // D * 4
            td = sampled(name, X, phi, prior, S, case["i"] + 1)
            mon.count("tokens", D)
            for u in (v, (v + 1) % T):
                mine = words == u
                want = posterior(phi, prior, u)
                n = mine.sum() * S
                # a token's topic is fresh in each sample: it has no memory in a document of its own
                sd = np.sqrt(.25 / n) / (prior.sum() + 1)
                mon.close(td[mine].mean(axis=0), want, "company:" + name, "what is inferred of documents depends on their number", rtol=0, atol=6 * sd + 1e-7, name=name, D=D)
        mon.seen("company", name)


def rare(case, mon, rng):
    """words that are rare in every topic tell topics apart like other words"""
    for name in SAMPLED:
        K, T, R = 3, 400, 6
        phi = rng.dirichlet(np.ones(T), size=K)
        # at the level of one token among some tens of millions
        scale = 10. ** rng.uniform(-7.3, -5.8)
        phi[:, :R] = scale * (rng.rand(K, R) + .2)
        phi /= phi.sum(axis=1)[:, None]
        prior = rng.rand(K) + .4
        D, S = 30000, 20
        words = rng.randint(0, R, size=D)
        X = ssp.csr_matrix((np.ones(D), (np.arange(D), words)), shape=(D, T))
        td = sampled(name, X, phi, prior, S, case["i"] + 1)
        mon.count("tokens", D)
        for u in range(R):
            mine = words == u
            sd = np.sqrt(.25 / (mine.sum() * S)) / (prior.sum() + 1)
            # probabilities are kept to about nine digits after the point
            mon.close(td[mine].mean(axis=0), posterior(phi, prior, u), "rare:" + name, "a rare word says nothing of the topics, or too much", rtol=0, atol=6 * sd + .04, name=name)
        mon.seen("rare", name)
