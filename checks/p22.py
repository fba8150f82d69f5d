"""Link predictors report every real link, at the probability its definition gives, and whatever is likelier than the least likely."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, quiet

META = dict(rule="distinct (predictor, corpus, type, topics, links, subset) whose probabilities were compared pair by pair with the definition",
            min_events={"pairs": 100000, "links": 10000, "tables": 400, "rankings": 100},
            assumptions=["predictors which cannot be trained at all at the pinned commit (mtm, mtm2, rtm) are not covered"])
NAMES = ["mtm3", "lro_vb", "tfidf", "similar", "tfidf"]


def cases(tier, seed):
    n = 480 if tier == "quick" else 1920
    for i in range(n):
        name = NAMES[i % 5]
        yield dict(i=i, seed=seed, name=name, corpus=gen.CORPUS_KINDS[(i // 5) % 8], K=[3, 2, 6][(i // 4) % 3], docs=[30, 18][(i // 7) % 2], words=[25, 50][(i // 6) % 2], density=[.1, .02, .4][(i // 3) % 3],
                   dtype=["float64", "float32"][(i // 5) % 2] if name == "tfidf" else "float64", counts=["float64", "float32", "int32", "uint16"][(i // 2) % 4] if name == "tfidf" else "float64")


def softmax(m):
    e = np.exp(m - m.max(axis=1)[:, None])
    return e / e.sum(axis=1)[:, None]


def tfidf(X):
    X = models.dense(X).astype(np.float64)
    tf = X / np.maximum(X.sum(axis=1), 1)[:, None]
    return tf * np.log(len(X) / (1.0 + (X > 0).sum(axis=0)))[None, :]


def definition(name, model, there, here):
    """the probability of a link from each document here to each document there"""
    if name == "mtm3":
        return softmax(np.asarray(here.outMeans)).dot(softmax(np.asarray(there.inMeans).T))
    if name == "lro_vb":
        import sidetopics.model.lda_vb_python as lda
        return model.scale * np.asarray(lda.topicDists(here.ldaQuery)).dot(np.asarray(there.offsetTopicDists).T)
    a, b = models.dense(here.reps), models.dense(there.reps)
    if name == "tfidf":
        na, nb = np.sqrt((a ** 2).sum(axis=1)), np.sqrt((b ** 2).sum(axis=1))
        na[na == 0] = 1
        nb[nb == 0] = 1
        return a.dot(b.T) / na[:, None] / nb[None, :]
    far = np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))
    return np.sqrt(2.0) / np.maximum(far, 1e-30)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p22")
    name, D, T, K = case["name"], case["docs"], case["words"], case["K"]
    sim = name in ("tfidf", "similar")
    X = models.covering(rng, D, T, case["corpus"], np.float64)
    if sim and case["i"] % 3 == 0:      # documents with the same words
        Z = X.toarray()
        Z[3], Z[5], Z[7] = Z[2], Z[2], 2 * Z[6]
        X = ssp.csr_matrix(Z)
    if name == "tfidf" and case["i"] % 4 == 0:   # a word in all documents but one has no weight
        Z = X.toarray()
        Z[:, 0] = 1
        Z[0, 0] = 0
        Z[1] = 0
        Z[1, 0] = 2
        X = ssp.csr_matrix(Z)
    L = gen.links(rng, D, density=case["density"], dtype=np.float64, diagonal=bool(case["i"] % 2))
    if name in ("mtm3", "lro_vb"):
        L = L.tolil()
        L[np.arange(D), (np.arange(D) + 1) % D] = 1
        L = ssp.csr_matrix(L)
    import sidetopics.model.sim_based_rec as rec
    m = rec if sim else families.module(name)
    models.reseed(case["i"])

    def docs(idx):
        if sim:
            return models.dataset(X[idx].astype(case["counts"]), links=ssp.csr_matrix(L[idx][:, idx]))
        return families.data(name, X[idx], links=ssp.csr_matrix(L[idx][:, idx]))
    ds = docs(np.arange(D))
    with quiet():
        if sim:
            model = m.newModelAtRandom(ds, K, method=m.TF_IDF if name == "tfidf" else m.LDA, dtype=np.dtype(case["dtype"]).type)
            plan = m.newTrainPlan(8)
            out = m.train(ds, model, m.newQueryState(ds, model), plan)
        else:
            model, q = families.start(name, ds, K)
            plan = families.plan(name, 11)
            out = m.train(ds, model, q, plan)
    model, there = out[0], out[1]
    mon.count("trainings")
    if name == "tfidf":
        mon.close(models.dense(there.reps), tfidf(X), "representation:tfidf", "documents are not represented by frequencies over document frequencies", rtol=1e-5, atol=1e-6)
    if name == "similar":
        mon.close((models.dense(there.reps) ** 2).sum(axis=1), np.ones(D), "representation:similar", "documents are not represented by the roots of distributions", rtol=1e-9)
    mon.seen(name, case["corpus"], K, D, T, case["density"], case["dtype"], case["counts"])
    compare(case, mon, rng, m, model, there, there, L, "itself")
    # other documents, towards those trained with
    idx = rng.permutation(D)[:D // 2]
    some = docs(idx)
    held = models.snapshot(model)
    with quiet():
        here = m.query(some, model, m.newQueryState(some, model), plan)[1]
    mon.expect(not models.changed(held, models.snapshot(model)), "model-changed:" + name, "representing documents changed the model")
    compare(case, mon, rng, m, model, there, here, ssp.csr_matrix(L[idx]), "others")


def compare(case, mon, rng, m, model, there, here, L, what):
    name = case["name"]
    want = definition(name, model, there, here)
    Q, D = want.shape
    real = models.dense(L) > 0
    f32 = np.finfo(np.float32).eps if case["dtype"] == "float32" else 0
    for sub in (None, list(map(int, rng.permutation(Q)[:max(1, Q // 2)])), np.array([int(rng.randint(Q))])):
        idx = np.arange(Q) if sub is None else np.asarray(sub)
        w, r = want[idx], real[idx]
        with quiet():
            mins = np.asarray(m.min_link_probs(model, there, here, L, sub) if sub is not None else m.min_link_probs(model, there, here, L), dtype=np.float64)
        least = np.array([w[i][r[i]].min() if r[i].any() else -1.0 for i in range(len(idx))])
        tol = 1e-9 + 1e-9 * np.abs(w).max() * (name != "similar") + f32
        mon.expect(mins.shape == least.shape, "least-shape:" + name, "one probability for each document that is sought")
        mon.close(mins, least, "least:" + name, "the smallest probability of a document's links", rtol=1e-6, atol=2 * tol)
        with quiet():
            got = m.link_probs(model, there, here, m.min_link_probs(model, there, here, L, sub), sub)
            whole = m.link_probs(model, there, here, np.full(len(idx), -np.inf), sub)
        mon.expect(got.shape == (len(idx), D) and whole.shape == (len(idx), D), "shape:" + name, "a row for each document that is sought, a column for each document")
        G, W = got.tocoo(), whole.tocoo()
        mon.expect(W.nnz == len(idx) * D and len(set(zip(W.row, W.col))) == W.nnz, "all-pairs:" + name, "without a threshold every pair is reported once", nnz=W.nnz)
        mon.close(whole.toarray(), w, "probability:" + name, "the probability of a pair is not that of the definition", rtol=1e-6, atol=tol)
        has = np.zeros(w.shape, dtype=bool)
        has[G.row, G.col] = True
        mon.expect(len(set(zip(G.row, G.col))) == G.nnz, "twice:" + name, "a pair is reported twice")
        mon.close(G.data, w[G.row, G.col], "thresholded-probability:" + name, "the probability of a pair is not that of the definition", rtol=1e-6, atol=tol)
        mon.expect(has[r].all(), "lost-link:" + name, "a real link is missing from the table", lost=np.argwhere(r & ~has)[:5], mins=mins)
        slack = 2e-9 + 4 * tol + 1e-6 * np.abs(w)
        mon.expect(not (has & (w < least[:, None] - slack)).any(), "too-unlikely:" + name, "a pair less likely than the least likely link is reported")
        mon.expect(has[w > least[:, None] + slack].all(), "lost-pair:" + name, "a pair likelier than the least likely link is missing")
        mon.count("pairs", w.size)
        mon.count("links", int(r.sum()))
        mon.count("tables", 2)
        mon.seen(name, what, sub is None, len(idx), Q, D)
        # the measures of a ranking are the same for the table as for all pairs
        have = np.where(r.any(axis=1))[0]
        gaps = np.diff(np.sort(w[have], axis=1), axis=1) if len(have) else np.zeros((0, 1))
        if len(have) and gaps.min() > 20 * tol and np.abs(w).max() < 1e6:
            from sidetopics.model import evals
            expected = ssp.csr_matrix(L[idx])
            at = [1, 3, D]
            with quiet():
                a = [evals.mean_average_prec(expected, t) for t in (got, whole)]
                b = [evals.mean_prec_rec_at(expected, t, at=at) for t in (got, whole)]
                c = [evals.mean_reciprocal_rank(expected, t) for t in (got, whole)]
            mon.close(a[0], a[1], "map:" + name, "mean average precision depends on pairs less likely than every link", rtol=1e-9)
            mon.close(c[0], c[1], "mrr:" + name, "mean reciprocal rank depends on pairs less likely than every link", rtol=1e-9)
            for g in b[1][0]:
                mon.close(b[0][0][g], b[1][0][g], "precision:" + name, "precision depends on pairs less likely than every link", rtol=1e-9)
                mon.close(b[0][1][g], b[1][1][g], "recall:" + name, "recall depends on pairs less likely than every link", rtol=1e-9)
            mon.count("rankings")
