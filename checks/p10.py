"""A score is the log-likelihood (or perplexity) of the definition, of the data given, for every way of asking."""
import numpy as np
from vlib import gen, models
from vlib.core import rng_of

META = dict(rule="distinct (kind of model, corpus, count type, priors, way of asking) scores recomputed from the definition",
            min_events={"scores": 300, "documents": 2000},
            assumptions=["every scored word was seen in training, so no probability is an exact zero",
                         "scoring by expectation is monitored where the library implements it: LDA/CVB0 and the mixture's VB"])
DTYPES = ["int32", "float64", "int64", "float32", "uint16"]


def cases(tier, seed):
    n = 540 if tier == "quick" else 2160
    for i in range(n):
        yield dict(i=i, seed=seed, kind=models.KINDS[i % 6], corpus=gen.CORPUS_KINDS[(i // 6) % 8], dtype=DTYPES[(i // 7) % 5],
                   docs=[25, 8, 40, 60][(i // 5) % 4], words=[20, 35, 9][(i // 3) % 3], K=[3, 2, 7][(i // 4) % 3],
                   a=[None, 0.3, 1.5][(i // 2) % 3], b=[None, 0.2, 1.0][(i // 8) % 3], fmt=["csr", "csc", "dense", "coo"][(i // 9) % 4],
                   iters=[15, 1, 40][(i // 10) % 3])


def total(mon, kind, got, X, y, comps, mech, what, tokens=None, rtol=1e-5):
    ll = models.definition_ll(kind, X, y, comps).sum()
    if tokens is not None:
        ll = np.exp(-ll / tokens)
    mon.count("scores")
    mon.expect(np.ndim(got) == 0 or np.size(got) == 1, mech + ":scalar", what + " is not a single number")
    mon.close(float(np.asarray(got).ravel()[0]), ll, mech, what + " is not what the definition gives", rtol=rtol, atol=1e-6 * max(1, models.dense(X).sum()) if tokens is None else 1e-6)


def run_case(case, mon):
    L = models.lib()
    S = L.ScoreMethod
    rng = rng_of(case["i"], case["seed"], "p10")
    kind = case["kind"]
    X = models.covering(rng, case["docs"], case["words"], case["corpus"], np.dtype(case["dtype"]))
    X2 = models.covering(rng, max(3, case["docs"] // 2), case["words"], gen.CORPUS_KINDS[case["i"] % 8], np.dtype(case["dtype"]))
    m = models.facade(kind, n_components=case["K"], iterations=case["iters"], query_iterations=[6, 1, 20][case["i"] % 3],
                      doc_topic_prior=case["a"], topic_word_prior=case["b"], seed=1 + case["i"])
    m.fit(models.dataset(X))
    comps = np.asarray(m.components_, dtype=np.float64)
    rt = 1e-5 if comps.dtype == np.float64 else 1e-4
    ds = models.dataset(models.formats(X2, case["fmt"]) if case["fmt"] != "dense" else X2)
    raw = models.formats(X2, case["fmt"]) if case["fmt"] != "dense" else X2
    N = float(models.dense(X2).sum())
    D = X2.shape[0]
    mon.count("documents", D)
    # 1. topics given, however they came about
    y = rng.dirichlet([0.5] * case["K"], size=D)
    y = np.maximum(y, 1e-12)
    y /= y.sum(axis=1)[:, None]
    total(mon, kind, m.score(ds, y=y.copy(), method=S.LogLikelihoodPoint), X2, y, comps, "given-y", "log-likelihood given topics")
    total(mon, kind, m.score(raw, y=y.copy(), method="log_likelihood_point"), X2, y, comps, "given-y-raw", "log-likelihood of a plain matrix")
    total(mon, kind, m.score(ds, y=y.copy(), method=S.PerplexityPoint), X2, y, comps, "given-y-perplexity", "perplexity given topics", tokens=N)
    total(mon, kind, m.score(ds, y=y.copy(), method="  Perplexity_Point "), X2, y, comps, "given-y-perplexity-name", "perplexity asked for by name", tokens=N)
    total(mon, kind, m.score(ds, y=y.copy()), X2, y, comps, "default-method", "the default score")
    for meth, tok in ((S.DocCompletionLogLikelihoodPoint, None), (S.DocCompletionPerplexityPoint, N)):
        total(mon, kind, m.score(ds, y=y.copy(), method=meth), X2, y, comps, "given-y-completion", "document-completion score of given topics", tokens=tok)
    # 2. per-document values
    per = np.asarray(m.log_likelihood_score_point(ds, y.copy()))
    want = models.definition_ll(kind, X2, y, comps)
    mon.close(per.ravel(), want, "per-document", "per-document log-likelihoods differ from the definition", rtol=rt, atol=1e-5 * N / D)
    mon.expect(per.shape[0] == D and per.size == D, "per-document:shape", "not one value for each document", got=per.shape)
    perm = rng.permutation(D)
    mon.close(np.asarray(m.log_likelihood_score_point(models.dataset(X2[perm]), y[perm].copy())).ravel(), per.ravel()[perm], "per-document-permuted",
              "a document's log-likelihood depends on where it is in the corpus", rtol=1e-9, atol=1e-9)
    if kind in models.MIXTURES:
        one = y.mean(axis=0)
        got = np.asarray(m.log_likelihood_score_point(ds, one.copy())).ravel()
        mon.close(got, models.definition_ll(kind, X2, np.tile(one, (D, 1)), comps), "corpus-weights",
                  "log-likelihoods by a single, corpus-wide, weighting differ from the definition", rtol=rt, atol=1e-5)
    # 3. the query state of an earlier transform
    yt = m.transform(ds, persist_query_state=True)
    qs = m.query_state_
    yt = np.asarray(yt, dtype=np.float64).copy()
    total(mon, kind, m.score(ds, y_query_state=qs, method=S.LogLikelihoodPoint), X2, yt, comps, "query-state", "log-likelihood given a query state")
    total(mon, kind, m.score(ds, y_query_state=qs, method=S.PerplexityPoint), X2, yt, comps, "query-state-perplexity", "perplexity given a query state", tokens=N)
    # 4. nothing given: the topics a transform would have found
    for meth, tok in ((S.LogLikelihoodPoint, None), (S.PerplexityPoint, N)):
        models.reseed(77 + case["i"])
        yt = np.asarray(m.transform(models.dataset(X2)), dtype=np.float64)
        models.reseed(77 + case["i"])
        total(mon, kind, m.score(models.dataset(X2), method=meth), X2, yt, comps, "inferred", "score of inferred topics", tokens=tok)
    # 5. document completion: topics from one part, likelihood of the other
    for meth in (S.DocCompletionLogLikelihoodPoint, S.DocCompletionPerplexityPoint):
        est, evl = models.dataset(X2).doc_completion_split()
        if (models.dense(est.words).sum(axis=1) < 1).any():
            mon.count("completion-with-empty-half")     # refused by some models
            break
        models.reseed(99 + case["i"])
        yt = np.asarray(m.transform(est), dtype=np.float64)
        models.reseed(99 + case["i"])
        got = m.score(models.dataset(X2), method=meth)
        tok = float(models.dense(evl.words).sum()) if meth.is_perplexity() else None
        if tok == 0:
            continue
        total(mon, kind, got, evl.words, yt, comps, "completion", "document-completion score", tokens=tok)
        mon.count("completions")
        # the same, with the inference made by the caller
        m.transform(est, persist_query_state=True)
        q2 = m.query_state_
        yt = np.asarray(mod_topics(kind, q2), dtype=np.float64).copy()
        got = m.score(evl, y_query_state=q2, method=S.PerplexityPoint if meth.is_perplexity() else S.LogLikelihoodPoint)
        total(mon, kind, got, evl.words, yt, comps, "completion-state", "score of the other half given inference on one half", tokens=tok)
    # 6. the models' own functions
    mod = models.module(kind)
    own(case, mon, rng, kind, mod, m, models.dataset(X2), X2)
    mon.seen(kind, case["corpus"], case["dtype"], case["docs"], case["words"], case["K"], case["a"], case["b"], case["iters"])


def mod_topics(kind, qs):
    return models.module(kind).topicDists(qs)


def own(case, mon, rng, kind, mod, m, ds, X2):
    from scipy.special import gammaln
    m.transform(ds, persist_query_state=True)
    qs, st = m.query_state_, m._model_state
    W = models.dense(X2).astype(np.float64)
    if kind in ("LDA_CVB0", "LDA_CVB"):
        a = np.asarray(st.topicPrior, dtype=np.float64)
        b = np.asarray(st.vocabPrior, dtype=np.float64)
        th = np.asarray(qs.n_dk, dtype=np.float64) + a
        ph = np.asarray(st.n_kt, dtype=np.float64) + b
        th /= th.sum(axis=1)[:, None]
        ph /= ph.sum(axis=1)[:, None]
        want = models.definition_ll(kind, X2, th, ph).sum()
        fn = getattr(mod, "log_likelihood_point", None) or mod.log_likelihood
        mon.close(float(fn(ds, st, qs)), want, "own-smoothed", "the model's own log-likelihood is not that of the smoothed counts", rtol=1e-5)
        if kind == "LDA_CVB0":
            ndk, nkt = np.asarray(qs.n_dk, np.float64), np.asarray(st.n_kt, np.float64)
            nk = np.asarray(qs.n_k, np.float64)
            z = np.asarray(qs.z_dnk, np.float64)
            K, T, D = st.K, W.shape[1], W.shape[0]
            av = np.full(K, float(a)) if np.ndim(a) == 0 else a
            zz = np.concatenate([z[d, :qs.docLens[d]].ravel() for d in range(D)])
            ent = -(zz[zz > 0] * np.log(zz[zz > 0])).sum()
            want = D * (gammaln(av.sum()) - gammaln(av).sum()) + K * (gammaln(T * b) - T * gammaln(b)) - gammaln(av.sum() + np.asarray(qs.docLens)).sum() \
                + gammaln(av[None, :] + ndk).sum() - gammaln(T * b + nk).sum() + gammaln(b + nkt).sum() + ent
            if (zz > 0).all():
                mon.close(float(mod.log_likelihood_expected(ds, st, qs)), want, "own-expected", "the expected log-likelihood differs from its definition", rtol=1e-5, atol=1e-2)
                S = models.lib().ScoreMethod
                mon.close(float(m.score(ds, y_query_state=qs, method=S.LogLikelihoodBoundOrSampled)), want, "expected-score",
                          "the score by expectation differs from its definition", rtol=1e-5, atol=1e-2)
    elif kind in ("LDA_GIBBS", "LDA_VB_PYTHON_IMPL"):
        want = models.definition_ll(kind, X2, mod.topicDists(qs), mod.wordDists(st)).sum()
        mon.close(float(mod.log_likelihood(ds, st, qs)), want, "own", "the model's own log-likelihood differs from the definition", rtol=1e-5)
        y = np.maximum(rng.dirichlet([0.7] * st.K, size=W.shape[0]), 1e-9)
        want = models.definition_ll(kind, X2, y, mod.wordDists(st)).sum()
        mon.close(float(mod.log_likelihood(ds, st, qs, topicDistOverride=y)), want, "own-override", "the log-likelihood ignores the topics given", rtol=1e-5)
    elif kind == "MOM_VB":
        want = models.definition_ll(kind, X2, mod.topicDists(qs), mod.wordDists(st)).sum()
        mon.close(float(mod.log_likelihood_point(ds, st, qs)), want, "own", "the model's own log-likelihood differs from the definition", rtol=1e-5)
        prior = np.tile(mod.corpusTopicDist(st), (W.shape[0], 1))
        want = models.definition_ll(kind, X2, prior, mod.wordDists(st)).sum()
        mon.close(float(mod.log_likelihood_point(ds, st)), want, "own-prior", "the log-likelihood under the corpus-wide weights differs from the definition", rtol=1e-5)
        # the expectation over the Dirichlet posteriors of weights and words
        al, be = np.asarray(st.corpusTopicDistParam), np.asarray(st.wordDistParam)
        l = np.zeros((W.shape[0], st.K))
        for k in range(st.K):
            l[:, k] = gammaln(be[k].sum()) - gammaln(be[k].sum() + W.sum(axis=1)) + (gammaln(W + be[k]) - gammaln(be[k])).sum(axis=1)
        lp = l + np.log(al / al.sum())[None, :]
        mx = lp.max(axis=1)
        want = (mx + np.log(np.exp(lp - mx[:, None]).sum(axis=1))).sum()
        mon.close(float(mod.log_likelihood_expected(ds, st, None)), want, "own-expected", "the expected log-likelihood differs from its definition", rtol=1e-6, atol=1e-4)
        y = np.asarray(mod.topicDists(qs))
        if (y > 1e-200).all():
            lp = l + np.log(y)
            mx = lp.max(axis=1)
            want = (mx + np.log(np.exp(lp - mx[:, None]).sum(axis=1))).sum()
            S = models.lib().ScoreMethod
            for meth, tok in ((S.LogLikelihoodBoundOrSampled, None), (S.PerplexityBoundOrSampled, W.sum())):
                w = want if tok is None else np.exp(-want / tok)
                mon.close(float(m.score(ds, y_query_state=qs, method=meth)), w, "expected-score", "the score by expectation differs from its definition", rtol=1e-6, atol=1e-4)
                mon.close(float(m.score(models.dataset(X2), method=meth)), w, "expected-score-inferred", "the score by expectation of inferred topics differs from its definition", rtol=1e-4, atol=1e-3)
        # topics inferred from one part of each document, the other part scored
        est, evl = models.dataset(X2).doc_completion_split()
        E = models.dense(est.words)
        if (E.sum(axis=1) >= 1).all():
            m.transform(est, persist_query_state=True)
            q2 = m.query_state_
            y = np.asarray(mod.topicDists(q2))
            if (y > 1e-200).all():
                V = models.dense(evl.words).astype(np.float64)
                for k in range(st.K):
                    l[:, k] = gammaln(be[k].sum()) - gammaln(be[k].sum() + V.sum(axis=1)) + (gammaln(V + be[k]) - gammaln(be[k])).sum(axis=1)
                lp = l + np.log(y)
                mx = lp.max(axis=1)
                want = (mx + np.log(np.exp(lp - mx[:, None]).sum(axis=1))).sum()
                S = models.lib().ScoreMethod
                mon.close(float(m.score(evl, y_query_state=q2, method=S.LogLikelihoodBoundOrSampled)), want, "expected-score-completion",
                          "the score by expectation of words other than those the topics come from differs from its definition", rtol=1e-6, atol=1e-4)
                mon.close(float(m.score(evl, y_query_state=q2, method=S.LogLikelihoodPoint)), models.definition_ll(kind, V, y, mod.wordDists(st)).sum(), "query-state-completion",
                          "the score of words other than those the topics come from differs from its definition", rtol=1e-6, atol=1e-4)
    mon.count("own")
