"""The wrappers of other libraries' models: what those libraries learn, scored and carried on as the facade does."""
import pickle
import numpy as np
import scipy.sparse as ssp
from sklearn.base import clone
from sklearn.decomposition import LatentDirichletAllocation
from gensim import matutils
from gensim.models import HdpModel
from vlib import gen, models
from vlib.core import rng_of, quiet, sha

META = dict(rule="distinct (wrapper, corpus, count type, container, batch size, priors, topics) fitted, asked and scored",
            min_events={"fits": 300, "scores": 300, "resumed": 40, "answers": 300},
            assumptions=["scikit-learn's and gensim's own inference is right: the wrappers are compared with it"])
DTYPES = ["int32", "float64", "int64", "float32", "uint16"]


def cases(tier, seed):
    n = 360 if tier == "quick" else 1440
    for i in range(n):
        yield dict(i=i, seed=seed, what=["lda", "lda", "hdp"][i % 3], corpus=gen.CORPUS_KINDS[(i // 3) % 8], dtype=DTYPES[(i // 4) % 5],
                   fmt=["csr", "dense", "dataset"][(i // 5) % 3], docs=[14, 30, 5][(i // 7) % 3], words=[12, 25, 7][(i // 2) % 3], K=[3, 2, 6][(i // 8) % 3],
                   iters=[4, 1, 12][(i // 6) % 3], batch=[0, 0, 4, 7, 64][(i // 9) % 5], a=[None, 0.4, 1.0][(i // 4) % 3], b=[None, 0.2, 0.9][(i // 10) % 3], model_seed=int(1 + i * 37 + seed))


def given(X, fmt):
    if fmt == "dataset":
        return models.dataset(X)
    return models.dense(X).astype(X.dtype) if fmt == "dense" else X.copy()


def content(x):
    x = getattr(x, "words", x)
    return sha(x.data, x.indices, x.indptr) if ssp.issparse(x) else sha(x)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p28")
    X = ssp.csr_matrix(models.covering(rng, case["docs"], case["words"], case["corpus"], np.dtype(case["dtype"])))
    X2 = ssp.csr_matrix(models.covering(rng, max(3, case["docs"] // 2), case["words"], gen.CORPUS_KINDS[case["i"] % 8], np.dtype(case["dtype"])))
    with quiet():
        globals()[case["what"]](case, rng, mon, X, X2)
    mon.seen(case["what"], case["corpus"], case["dtype"], case["fmt"], case["docs"], case["words"], case["K"], case["iters"], case["batch"], case["a"], case["b"])


def refuses(mon, f, types, mech, msg):
    try:
        f()
    except types:
        mon.count("refusals")
        return
    mon.expect(False, mech, msg)


def scoring(mon, m, X2, fmt, comps, y, rng, rt):
    """every way of asking for a score, against the definition"""
    L = models.lib()
    S = L.ScoreMethod
    N, D = float(X2.sum()), X2.shape[0]
    free = np.maximum(rng.dirichlet([0.5] * comps.shape[0], size=D), 1e-9)
    free /= free.sum(axis=1)[:, None]
    free = free.astype(comps.dtype)
    cut = models.dataset(X2).doc_completion_split()

    def one(got, words, theta, perplexity, mech, what):
        W = models.dense(words).astype(float)
        p = np.maximum(np.asarray(theta, dtype=float) @ comps.astype(float), np.finfo(comps.dtype).tiny)
        ll = float((W * np.log(p))[W > 0].sum())
        want = np.exp(-ll / W.sum()) if perplexity else ll
        mon.count("scores")
        mon.close(float(got), want, mech, what + " is not what the definition gives", rtol=rt, atol=1e-6 * max(1.0, 0 if perplexity else N))

    x = lambda: given(X2, fmt)
    for way in (lambda s: s, lambda s: s.value):
        one(m.score(x(), y=free.copy(), method=way(S.LogLikelihoodPoint)), X2, free, False, "score:given", "the log-likelihood given topics")
        one(m.score(x(), y=free.copy(), method=way(S.PerplexityPoint)), X2, free, True, "score:given-perplexity", "the perplexity given topics")
        one(m.score(x(), method=way(S.LogLikelihoodPoint)), X2, y, False, "score:inferred", "the log-likelihood")
        one(m.score(x(), method=way(S.PerplexityPoint)), X2, y, True, "score:inferred-perplexity", "the perplexity")
        if cut[0].words.sum() and cut[1].words.sum():
            part = m.transform(cut[0])
            one(m.score(x(), method=way(S.DocCompletionLogLikelihoodPoint)), cut[1].words, part, False, "score:completion", "the likelihood of completions")
            one(m.score(x(), method=way(S.DocCompletionPerplexityPoint)), cut[1].words, part, True, "score:completion-perplexity", "the perplexity of completions")
    one(m.score(x(), y=free.copy()), X2, free, False, "score:default", "the default score")
    refuses(mon, lambda: m.score(x(), y=free, y_query_state=object()), ValueError, "score:both", "topics and a state were both accepted")
    refuses(mon, lambda: m.score(x(), y_query_state=object()), ValueError, "score:state", "a state was accepted by a model which has none")
    for s in (S.LogLikelihoodBoundOrSampled, S.PerplexityBoundOrSampled):
        refuses(mon, lambda: m.score(x(), method=s), NotImplementedError, "score:expectation", "a score by expectation was returned by a model which has none")


def lda(case, rng, mon, X, X2):
    L = models.lib()
    f4 = case["dtype"] == "float32"
    rt, at = (2e-4, 1e-5) if f4 else (1e-8, 1e-9)
    opts = dict(n_components=case["K"], iterations=case["iters"], doc_topic_prior=case["a"], topic_word_prior=case["b"], batchSize=case["batch"],
                seed=case["model_seed"], rate_a=[2, 10.5][case["i"] % 2], rate_b=[0.5, 0.9, 0.7][case["i"] % 3])
    make = lambda **kw: L.WrappedSckitLda(**dict(opts, **kw))

    def theirs(iters):
        kw = dict(learning_method="online", learning_decay=opts["rate_b"], learning_offset=opts["rate_a"], batch_size=case["batch"]) if case["batch"] else dict(learning_method="batch")
        return LatentDirichletAllocation(n_components=case["K"], doc_topic_prior=case["a"], topic_word_prior=case["b"], max_iter=iters, random_state=np.random.RandomState(case["model_seed"]), **kw)

    m, ref = make(), theirs(case["iters"])
    x = given(X, case["fmt"])
    before = content(x)
    out = m.fit(x)
    ref.fit(X)
    mon.count("fits", 2)
    mon.expect(out is m, "lda:self", "fit does not return the model")
    mon.expect(content(x) == before, "lda:input", "fitting changed its input")
    mon.close(m.components_, ref.components_, "lda:components", "the topics are not those of scikit-learn", rtol=rt, atol=at)
    x2 = given(X2, case["fmt"])
    before = content(x2)
    y = m.transform(x2)
    mon.count("answers", len(y))
    mon.close(y, ref.transform(X2), "lda:transform", "the topics of documents are not those of scikit-learn", rtol=rt, atol=at)
    models.is_distribution(mon, y, (X2.shape[0], case["K"]), "lda:distribution", "topics of documents", tol=1e-5)
    mon.expect(content(x2) == before, "lda:input", "transforming changed its input")
    mon.expect(np.array_equal(m.transform(x2), y), "lda:again", "the same documents have other topics the second time")
    refuses(mon, lambda: m.transform(x2, y=y), ValueError, "lda:y", "topics were accepted when asking for topics")
    # fit and transform in one go
    one, two = make(), make()
    z = one.fit_transform(given(X, case["fmt"]), **([{}, {"persist_query_state": True}][case["i"] % 2]))
    two.fit(given(X, case["fmt"]))
    mon.count("fits", 2)
    mon.close(z, two.transform(given(X, case["fmt"])), "lda:fit-transform", "fitting and transforming at once differs from one after the other", rtol=rt, atol=at)
    mon.expect(np.array_equal(one.components_, m.components_) or np.allclose(one.components_, m.components_, rtol=rt, atol=at), "lda:seed", "the same seed gives another model")
    # carried on
    r = make()
    r.fit(given(X, case["fmt"]))
    if case["i"] % 4 == 1:
        r = pickle.loads(pickle.dumps(r))
    if case["i"] % 4 == 2:
        r.transform(x2)
        r.score(x2)
    if case["i"] % 8 < 4:
        r.fit(given(X, case["fmt"]), resume=True)
    else:
        r.fit_transform(given(X, case["fmt"]), resume=True)
    longer = make(iterations=2 * case["iters"]).fit(given(X, case["fmt"]))
    mon.count("fits", 3)
    mon.count("resumed")
    mon.close(r.components_, longer.components_, "lda:resume", "training in two parts differs from training at once", rtol=rt * 20, atol=at * 100)
    # not resumed: started over (with the generator as it is)
    r.fit(given(X, case["fmt"]))
    mon.expect((r.n_iter_, r.n_batch_iter_) == (two.n_iter_, two.n_batch_iter_), "lda:restart", "a fit which does not resume does not start over", got=(r.n_iter_, r.n_batch_iter_))
    # nor is anything left over of a resumption that was refused
    wide = ssp.hstack([X, X[:, :1]]).tocsr()
    for bad in [wide, None][case["i"] % 2], wide:
        refuses(mon, lambda: r.fit(given(bad, case["fmt"]) if bad is not None else None, resume=True), Exception, "lda:resume-other", "training was carried on with another vocabulary")
    r.fit(given(X, case["fmt"]))
    mon.expect((r.n_iter_, r.n_batch_iter_) == (two.n_iter_, two.n_batch_iter_), "lda:restart", "a fit after a refused resumption does not start over", got=(r.n_iter_, r.n_batch_iter_))
    # parameters
    p = m.get_params()
    for k, v in opts.items():
        mon.expect(k in p and (p[k] is v or p[k] == v), "lda:params", "a parameter is not reported as it was given", name=k, got=str(p.get(k)), want=str(v))
    c = clone(m)
    mon.expect(not hasattr(c, "components_"), "lda:clone", "a clone is already fitted")
    c.fit(given(X, case["fmt"]))
    mon.count("fits")
    mon.close(c.components_, m.components_, "lda:clone", "a clone learns something else", rtol=rt, atol=at)
    comps = m.components_ / m.components_.sum(axis=1)[:, np.newaxis]
    snap = sha(m.components_)
    scoring(mon, m, X2, case["fmt"], comps, y, rng, 2e-4 if f4 else 1e-7)
    mon.expect(sha(m.components_) == snap, "lda:scored", "scoring changed the model")


def hdp(case, rng, mon, X, X2):
    L = models.lib()
    dic = models.dataset(X).gensim_dictionary()
    K = max(case["K"], 2)
    opts = dict(dictionary=dic, n_components=K, iterations=case["iters"], batchSize=case["batch"], seed=case["model_seed"], expected_corpus_size=case["docs"],
                rate_delay=[0.6, 8.0][case["i"] // 3 % 2], forgetting_rate=[0.6, 0.9][case["i"] // 6 % 2])
    make = lambda **kw: L.WrappedScikitHdp(**dict(opts, **kw))
    refuses(mon, lambda: make().transform(X2), Exception, "hdp:untrained", "a model which was not fitted gave topics")
    m, same = make(), make()
    x = given(X, case["fmt"])
    before = content(x)
    mon.expect(m.fit(x) is m, "hdp:self", "fit does not return the model")
    z = same.fit_transform(given(X, "csr"), **([{}, {"persist_query_state": True}][case["i"] % 2]))
    mon.count("fits", 2)
    mon.expect(content(x) == before, "hdp:input", "fitting changed its input")
    comps = np.asarray(m.components_)
    theirs = HdpModel(corpus=matutils.Sparse2Corpus(X, documents_columns=False), id2word=dic, max_chunks=case["iters"], chunksize=case["batch"] or case["docs"],
                      kappa=opts["forgetting_rate"], tau=opts["rate_delay"], K=K, T=K, random_state=np.random.RandomState(case["model_seed"]))
    mon.close(comps, theirs.m_lambda / theirs.m_lambda_sum[:, np.newaxis], "hdp:theirs", "the topics are not those of gensim", rtol=1e-7, atol=1e-9)
    models.is_distribution(mon, comps, (K, X.shape[1]), "hdp:components", "topics", tol=1e-6, neg=1e-3)
    mon.close(comps, same.components_, "hdp:seed", "the same seed and documents, given otherwise, give another model", rtol=1e-7, atol=1e-9)
    x2 = given(X2, case["fmt"])
    before = content(x2)
    y = m.transform(x2)
    mon.count("answers", len(y))
    mon.expect(content(x2) == before, "hdp:input", "transforming changed its input")
    mon.expect(y.shape == (X2.shape[0], K), "hdp:shape", "there is not a column for every topic and a row for every document", got=y.shape, want=(X2.shape[0], K))
    if y.shape != (X2.shape[0], K):
        return
    mass, words = y.sum(axis=1), np.asarray(X2.sum(axis=1)).ravel()
    mon.expect((y >= 0).all() and (mass <= 1 + 1e-5).all() and (mass[words > 0] >= 1 - 0.01 * K - 1e-5).all(), "hdp:distribution", "topics of a document are no distribution, up to topics below one percent", least=float(mass.min()), most=float(mass.max()))
    mon.close(z, m.transform(given(X, case["fmt"])), "hdp:fit-transform", "fitting and transforming at once differs from one after the other", rtol=1e-5, atol=1e-6)
    # one document alone, and one without words
    d = int(rng.randint(X2.shape[0]))
    mon.close(m.transform(X2[d, :]), y[d:d + 1], "hdp:alone", "a document has other topics when asked alone", rtol=1e-5, atol=1e-6)
    W = models.dense(X2).astype(X2.dtype)
    W[d, :] = 0
    e = m.transform(ssp.csr_matrix(W))
    mon.expect(e.shape == y.shape and np.isfinite(e).all(), "hdp:empty", "a document without words changes the shape of the answer", got=e.shape)
    if e.shape == y.shape:
        keep = np.arange(len(y)) != d
        mon.close(e[keep], y[keep], "hdp:empty", "a document without words changes the others' topics", rtol=1e-5, atol=1e-6)
    refuses(mon, lambda: m.transform(x2, y=y), ValueError, "hdp:y", "topics were accepted when asking for topics")
    p = m.get_params()
    for k, v in opts.items():
        mon.expect(k in p and (p[k] is v or p[k] == v), "hdp:params", "a parameter is not reported as it was given", name=k, got=str(p.get(k)), want=str(v))
    snap = sha(np.asarray(m.components_))
    scoring(mon, m, X2, case["fmt"], comps, y, rng, 1e-5)
    mon.expect(sha(np.asarray(m.components_)) == snap, "hdp:scored", "scoring changed the model")
    # carried on: the documents are added to those learnt from
    r = make().fit(given(X, case["fmt"]))
    seen = r.gensim_model.m_num_docs_processed
    r.fit(given(X2, case["fmt"]), resume=True)
    mon.count("resumed")
    mon.count("fits", 2)
    mon.expect(r.gensim_model.m_num_docs_processed > seen, "hdp:resume", "training which resumes starts over", got=r.gensim_model.m_num_docs_processed, before=seen)
    models.is_distribution(mon, np.asarray(r.components_), (K, X.shape[1]), "hdp:components", "topics", tol=1e-6, neg=1e-3)
