"""The variational bound: what it is defined to be, never above the evidence, never lowered by training."""
import itertools
import numpy as np
from scipy.special import gammaln, digamma
from vlib import gen, models
from vlib.core import rng_of, quiet

META = dict(rule="distinct (kind, corpus, priors, topics, iteration) states whose bound was compared with the evidence, the definition or the bound before",
            min_events={"evidences": 60, "bounds": 1500, "ascents": 800, "definitions": 400},
            assumptions=["the exact evidence is a sum over all assignments of topics, so only corpora with few tokens (admixtures) or few documents (mixtures) have one",
                         "the collapsed methods' measure approximates an expectation, so it is compared with its definition only"])
KINDS = ("LDA_VB_PYTHON_IMPL", "MOM_VB", "LDA_VB_PYTHON_IMPL", "MOM_VB", "LDA_CVB", "LDA_CVB0")


def cases(tier, seed):
    n = 720 if tier == "quick" else 4800
    for i in range(n):
        kind = KINDS[i % 6]
        yield dict(i=i, seed=seed, kind=kind, what=["evidence", "ascent"][(i // 6) % 2] if not kind.startswith("LDA_CVB") else "definition", corpus=gen.CORPUS_KINDS[(i // 12) % 8],
                   K=[2, 3, 4][(i // 5) % 3], prior=["scalar", "vector", "numpy"][(i // 7) % 3])


def norm(p):
    return gammaln(p.sum(axis=-1)) - gammaln(p).sum(axis=-1)


def elog(p):
    return digamma(p) - digamma(p.sum(axis=-1))[..., None]


def dirichlet_terms(prior, q):
    """E_q[ln p(x|prior)] - E_q[ln q(x)], summed over rows"""
    q = np.atleast_2d(q)
    prior = np.broadcast_to(prior, q.shape)
    return (norm(prior) - norm(q) + ((prior - q) * elog(q)).sum(axis=1)).sum()


def definition(kind, X, a, b, model, q):
    if kind == "MOM_VB":
        m = models.module(kind)
        z, t, w = np.asarray(m.topicDists(q), dtype=np.float64), np.asarray(model.corpusTopicDistParam, dtype=np.float64), np.asarray(model.wordDistParam, dtype=np.float64)
        ent = -(z * np.log(np.where(z > 0, z, 1))).sum()
        return (z * (X.dot(elog(w).T) + elog(t)[None, :])).sum() + ent + dirichlet_terms(a, t) + dirichlet_terms(b, w)
    th, w = np.asarray(q.topicDists, dtype=np.float64), np.asarray(model.wordDists, dtype=np.float64)
    et, ew = elog(th), elog(w)
    words = 0.0
    for d in range(len(X)):
        l = et[d][:, None] + ew          # the best assignment of tokens has this normaliser
        top = l.max(axis=0)
        words += (X[d] * (top + np.log(np.exp(l - top).sum(axis=0)))).sum()
    return words + dirichlet_terms(a, th) + dirichlet_terms(b, w)


def collapsed(X, a, b, q, n_kt, n_k):
    """the zeroth-order expansion of E[ln p(W, Z)] plus the entropy of Z"""
    n_dk, n_kt, n_k = (np.asarray(v, dtype=np.float64) for v in (q.n_dk, n_kt, n_k))
    D, T = X.shape
    out = D * norm(a) + len(a) * (gammaln(T * b) - T * gammaln(b))
    out += gammaln(a[None, :] + n_dk).sum() - gammaln(a.sum() + X.sum(axis=1)).sum()
    out += gammaln(b + n_kt).sum() - gammaln(T * b + n_k).sum()
    lens = np.asarray(q.docLens)
    for d in range(D):
        z = np.asarray(q.z_dnk, dtype=np.float64)[d, :lens[d]]
        out -= (z * np.log(np.where(z > 0, z, 1))).sum()
    return out


def evidence(kind, X, a, b, K):
    D, T = X.shape
    total = []
    if kind == "MOM_VB":
        for z in itertools.product(range(K), repeat=D):
            n = np.bincount(z, minlength=K)
            l = norm(a) - norm(a + n)
            for k in range(K):
                w = X[np.array(z) == k].sum(axis=0)
                l += norm(b) - norm(b + w)
            total.append(l)
    else:
        tokens = [(d, t) for d in range(D) for t in range(T) for _ in range(int(X[d, t]))]
        doc, word = np.array([t[0] for t in tokens]), np.array([t[1] for t in tokens])
        for z in itertools.product(range(K), repeat=len(tokens)):
            z = np.array(z)
            n_dk, n_kt = np.zeros((D, K)), np.zeros((K, T))
            np.add.at(n_dk, (doc, z), 1)
            np.add.at(n_kt, (z, word), 1)
            total.append(sum(norm(a) - norm(a + n_dk[d]) for d in range(D)) + sum(norm(b) - norm(b + n_kt[k]) for k in range(K)))
    total = np.array(total)
    return total.max() + np.log(np.exp(total - total.max()).sum())


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p19")
    kind, K = case["kind"], case["K"]
    m = models.module(kind)
    mix = kind == "MOM_VB"
    if case["what"] == "evidence":
        if mix:
            X = rng.poisson(1.0, size=(int(rng.randint(2, 8 if K < 4 else 6)), int(rng.randint(2, 6))))
            X[:, 0] += X.sum(axis=1) == 0
        else:
            X = np.zeros((int(rng.randint(1, 4)), int(rng.randint(2, 5))), dtype=np.int64)
            for _ in range({2: 9, 3: 6, 4: 5}[K]):
                X[rng.randint(X.shape[0]), rng.randint(X.shape[1])] += 1
            for d in np.where(X.sum(axis=1) == 0)[0]:
                X[d, rng.randint(X.shape[1])] = 1
        X = X.astype(np.float64)
    else:
        X = models.dense(models.covering(rng, 20, 15, case["corpus"], np.float64))
    D, T = X.shape
    a, b = rng.uniform(.2, 1.5), rng.uniform(.05, 1.0)
    av, bv = np.full(K, a), np.full(T, b)
    if case["prior"] == "vector":
        av = a = rng.uniform(.2, 1.5, K)
        if not kind.startswith("LDA_CVB"):
            bv = b = rng.uniform(.05, 1.0, T)
    elif case["prior"] == "numpy":
        a, b = np.float64(a), np.float64(b)
    if kind.startswith("LDA_CVB"):
        av = np.full(K, np.mean(av))    # which they learn with, and their measure is of
        if case["prior"] == "vector":
            a = av.copy()
    ds = models.dataset(X.astype(np.int32 if kind.startswith("LDA_CVB") else np.float64))
    models.reseed(case["i"])
    starts = 3 if case["what"] == "evidence" else 1
    truth = evidence(kind, X, av, bv, K) if case["what"] == "evidence" else None
    if truth is not None:
        mon.count("evidences")
    for s in range(starts):
        np.random.seed(case["i"] * 7 + s)
        kw = dict(topicPrior=a.copy() if isinstance(a, np.ndarray) else a, vocabPrior=b.copy() if isinstance(b, np.ndarray) else b, dtype=np.float64)
        with quiet():
            model = m.newModelAtRandom(ds, K, **kw)
            q = m.newQueryState(ds, model, False)
        if kind.startswith("LDA_CVB"):
            for n in (1, 3, 10):
                with quiet():
                    np.random.seed(case["i"])
                    model = m.newModelAtRandom(ds, K, **kw)
                    model, q, _ = m.train(ds, model, m.newQueryState(ds, model, False), m.newTrainPlan(n, logFrequency=0))
                    got = (m.var_bound if kind == "LDA_CVB" else m.log_likelihood_expected)(ds, model, q)
                mon.close(got, collapsed(X, av, float(np.mean(b)), q, model.n_kt, q.n_k), "definition:" + kind, "the measure of the collapsed posterior is not that of its definition", rtol=1e-8)
                mon.count("definitions")
                mon.count("bounds")
                mon.seen(kind, case["corpus"], K, case["prior"], n)
            return
        before = -np.inf
        for n in range(12):
            with quiet():
                model, q, _ = m.train(ds, model, q, m.newTrainPlan([1, 1, 1, 2, 3, 5, 8, 1, 10, 20, 1, 30][n], logFrequency=0, epsilon=0))
                held = models.snapshot(model), models.snapshot(q)
                bound = float(m.var_bound(ds, model, q))
                twice = float(m.var_bound(ds, model, q))
            mon.count("bounds")
            mon.seen(kind, case["what"], case["corpus"], K, case["prior"], n, s)
            mon.expect(not models.changed(held[0], models.snapshot(model)), "purity:" + kind, "measuring the bound changes the model")
            mon.close(twice, bound, "repeatable:" + kind, "measuring the bound twice gives two values", rtol=1e-12)
            mon.close(bound, definition(kind, X, av, bv, model, q), "definition:" + kind, "the bound is not that of its definition", rtol=1e-6, atol=1e-6)
            mon.count("definitions")
            mon.expect(bound >= before - 1e-7 * (1 + abs(before)), "ascent:" + kind, "training for longer lowered the bound", before=before, after=bound, step=n)
            mon.count("ascents")
            before = bound
            if truth is not None:
                mon.expect(bound <= truth + 1e-7 * (1 + abs(truth)), "evidence:" + kind, "the lower bound is above the evidence", bound=bound, evidence=truth)
        if truth is not None:
            mon.expect(bound > truth - 0.75 * X.sum() - 4, "far:" + kind, "the bound of a converged model is nowhere near the evidence", bound=bound, evidence=truth)
