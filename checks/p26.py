"""Numbering carries no meaning: relabelling documents, words, topics or features relabels what is learnt and inferred, and
a document's answer does not depend on the documents it is asked with."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, quiet

META = dict(rule="distinct (model, relabelling, corpus, priors, iterations) twins compared array by array",
            min_events={"trained": 200, "inferred": 200, "alone": 40, "arrays": 1500},
            assumptions=["training that visits documents or words in turn (collapsed variational Bayes) depends on their order by design, so only its topics are relabelled",
                         "samplers draw in an order of their own, so relabelling them would need other draws, and they are not compared",
                         "ctm measures every topic against the first one, so its topics are not relabelled; lro_vb starts from an LDA of its own, trained from random draws"])
DETERMINISTIC = ["LDA_VB_PYTHON_IMPL", "MOM_VB", "ctm", "ctm_bohning", "ctm_grad_arb", "mtm3", "stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning"]
PAIRS = [(n, r) for n in DETERMINISTIC for r in ("docs", "words", "topics") if (n, r) != ("ctm", "topics")] + [(n, "topics") for n in ("LDA_CVB0", "LDA_CVB")] \
    + [(n, "feats") for n in ("stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning")] + [(n, "alone") for n in DETERMINISTIC if n != "mtm3"] + [("LDA_GIBBS", "part")]
# every axis has a size of its own, so that an array says by its shape what it is about
D, T, K, F, P = 19, 23, 5, 7, 3
SIZE = dict(docs=D, words=T, topics=K, feats=F)


def cases(tier, seed):
    n = 16 * len(PAIRS) if tier == "quick" else 80 * len(PAIRS)
    for i in range(n):
        name, rel = PAIRS[i % len(PAIRS)]
        r = i // len(PAIRS)
        yield dict(i=i, seed=seed, name=name, rel=rel, corpus=gen.CORPUS_KINDS[r % 8], iterations=[3, 1, 6, 10][r % 4], prior=["scalar", "vector"][(r // 2) % 2], fast=bool(r % 3 == 1))


def relabel(v, size, perm):
    if isinstance(v, np.ndarray):
        for axis in range(v.ndim):
            if v.shape[axis] == size:
                v = np.take(v, perm, axis=axis)
        return np.array(v, order='C', copy=True)
    if ssp.issparse(v):
        w = v.tocsr()
        if w.shape[0] == size:
            w = w[perm]
        if w.shape[1] == size:
            w = w[:, perm]
        w = ssp.csr_matrix(w)
        w.sort_indices()
        return w
    if hasattr(v, "_fields"):
        return type(v)(*[relabel(getattr(v, f), size, perm) for f in v._fields])
    return v


def deep(v):
    return relabel(v, -1, None)


def numbers(v, path=""):
    if isinstance(v, np.ndarray):
        yield path, v
    elif hasattr(v, "_fields"):
        for f in v._fields:
            if f != "expMeans":     # a scratch space
                yield from numbers(getattr(v, f), path + "." + f)


def compare(mon, case, got, want, what):
    a, b = dict(numbers(got)), dict(numbers(want))
    mon.expect(set(a) == set(b), "kind:" + case["name"], "relabelled %s differ in kind" % what)
    for p in sorted(set(a) & set(b)):
        if a[p].dtype.kind == "f":
            scale = np.abs(b[p]).max() if b[p].size and np.isfinite(b[p]).all() else 1.0
            mon.close(a[p], b[p], "%s:%s:%s" % (case["rel"], what, case["name"]), "relabelling %s does not relabel what is %s" % (case["rel"], what), rtol=1e-5, atol=1e-6 * max(scale, 1e-3), array=p)
            mon.count("arrays")


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p26")
    name, rel = case["name"], case["rel"]
    kind = name in models.KINDS
    X = models.covering(rng, D, T, case["corpus"], np.float64)
    feats = ssp.csr_matrix(np.hstack([np.ones((D, 1)), (rng.rand(D, F - 1) < .4) * 1.0]))
    L = (rng.rand(D, D) < .2) * 1.0
    L[np.arange(D), (np.arange(D) + 1) % D] = 1
    L = ssp.csr_matrix(L)
    m = models.module(name) if kind else families.module(name)

    def docs(X, feats, L):
        if kind:
            return models.dataset(X.astype(np.int32 if name.startswith("LDA_CVB") else np.float64))
        return families.data(name, X, feats=feats if name in families.FEATS else None, links=L if name in families.LINKS else None)

    def plan(n):
        if kind:
            return m.newTrainPlan(n, logFrequency=0)
        return families.plan(name, n, 0, **(dict(fastButInaccurate=case["fast"]) if name in ("ctm", "ctm_bohning", "ctm_grad_arb") else {}))
    ds = docs(X, feats, L)
    models.reseed(case["i"])
    with quiet():
        if kind:
            a = rng.uniform(.2, .8, K) if case["prior"] == "vector" else 0.4
            b = rng.uniform(.05, .5, T) if case["prior"] == "vector" and not name.startswith("LDA_CVB") else 0.2
            model = m.newModelAtRandom(ds, K, topicPrior=a, vocabPrior=b, dtype=np.float64)
        elif name in families.FEATS:
            model = m.newModelAtRandom(ds, P, K, 0.01, 0.01, dtype=np.float64)
        else:
            model = m.newModelAtRandom(ds, K, dtype=np.float64)
        q = m.newQueryState(ds, model, False) if kind else m.newQueryState(ds, model)
    mon.seen(name, rel, case["corpus"], case["iterations"], case["prior"], case["fast"])
    if rel == "alone":
        return alone(case, mon, rng, m, model, q, docs, plan, X, feats, L)
    if rel == "part":
        with quiet():
            model, q = m.train(ds, model, q, m.newTrainPlan(12, burnIn=2, thin=2))[:2]
            q2 = m.newQueryState(ds, model, False)
            q2 = m.query(ds, model, q2, m.newTrainPlan(12, burnIn=2, thin=2))[1]
        for state in (q, q2):
            for n in (1, 2, D // 2, D):
                idx = rng.permutation(D)[:n]
                part = m.pruneQueryState(state, idx)
                mon.count("pruned")
                mon.close(np.asarray(m.topicDists(part)), np.asarray(m.topicDists(state))[idx], "pruned:" + name, "the topics picked are not those of the documents picked", rtol=1e-12)
                mon.expect(np.array_equal(part.docLens, np.asarray(state.docLens)[idx]), "pruned:lengths:" + name, "the lengths picked are not those of the documents picked")
        return
    size = SIZE[rel]
    perm = rng.permutation(size)
    first = dict(X=X, feats=feats, L=L)
    second = {k: relabel(v, size, perm) for k, v in first.items()}
    ds2 = docs(**second)
    start = deep(model), deep(q)
    start2 = relabel(model, size, perm), relabel(q, size, perm)
    with quiet():
        # the state of the random number generator is that of the first twin
        np.random.seed(case["i"])
        one = m.train(ds, start[0], start[1], plan(case["iterations"]))
        np.random.seed(case["i"])
        two = m.train(ds2, start2[0], start2[1], plan(case["iterations"]))
    mon.count("trained")
    compare(mon, case, two[0], relabel(deep(one[0]), size, perm), "learnt")
    compare(mon, case, two[1], relabel(deep(one[1]), size, perm), "inferred")
    like = m.log_likelihood if hasattr(m, "log_likelihood") else m.log_likelihood_point
    l1, l2 = like(ds, one[0], one[1]), like(ds2, two[0], two[1])
    mon.close(l2, l1, "%s:likelihood:%s" % (rel, name), "relabelling %s changes the likelihood" % rel, rtol=1e-6)
    # inference with the first model and its twin by relabelling
    held = deep(one[0])
    with quiet():
        np.random.seed(case["i"] + 1)
        models.reseed(case["i"] + 1)
        q = m.newQueryState(ds, held, False) if kind else m.newQueryState(ds, held)
        np.random.seed(case["i"])
        s1 = deep(q), relabel(q, size, perm)
        r1 = m.query(ds, deep(held), s1[0], plan(case["iterations"]))[1]
        np.random.seed(case["i"])
        r2 = m.query(ds2, relabel(deep(held), size, perm), s1[1], plan(case["iterations"]))[1]
    mon.count("inferred")
    compare(mon, case, r2, relabel(deep(r1), size, perm), "answered")


def alone(case, mon, rng, m, model, q, docs, plan, X, feats, L):
    name = case["name"]
    kind = name in models.KINDS
    with quiet():
        model = m.train(docs(X, feats, L), model, q, plan(5))[0]
        if rng.rand() < .6:    # a batch with documents of very different lengths
            X = ssp.csr_matrix(X.multiply(rng.choice([1, 1, 20, 400], D)[:, None]))
        fresh = m.newQueryState(docs(X, feats, L), model, False) if kind else m.newQueryState(docs(X, feats, L), model)
        every = m.query(docs(X, feats, L), deep(model), deep(fresh), plan(case["iterations"]))[1]
    for n in (1, 2, D // 2, D):
        idx = rng.permutation(D)[:n]
        if n == D:   # and with its own twins
            idx = np.concatenate([idx, idx[:4]])
        some = docs(ssp.csr_matrix(X[idx]), ssp.csr_matrix(feats[idx]), None if name not in families.LINKS else L)
        with quiet():
            got = m.query(some, deep(model), pick(fresh, idx), plan(case["iterations"]))[1]
        compare(mon, case, got, pick(every, idx), "answered")
        mon.count("alone")
        if hasattr(m, "pruneQueryState"):    # what was inferred of some documents only
            part = m.pruneQueryState(deep(every), idx)
            mon.count("pruned")
            mon.close(np.asarray(m.topicDists(part)), np.asarray(m.topicDists(every))[idx], "pruned:" + name, "the topics picked are not those of the documents picked", rtol=1e-12)
            mon.expect(np.array_equal(part.docLens, np.asarray(every.docLens)[idx]), "pruned:lengths:" + name, "the lengths picked are not those of the documents picked")


def pick(state, idx):
    """the state of some documents"""
    vals = []
    for f in state._fields:
        v = getattr(state, f)
        vals.append(np.ascontiguousarray(v[idx]) if isinstance(v, np.ndarray) and v.ndim and len(v) == D else v)
    return type(state)(*vals)
