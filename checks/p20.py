"""Calls which cannot be honoured are refused, and leave the model and data as they were."""
import copy
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, sha, quiet

META = dict(rule="distinct (misuse, kind of model, size) whose refusal was observed, and the state compared before and after",
            min_events={"refusals": 700, "answers-compared": 300},
            assumptions=["a refusal is any exception other than those which tell of a corrupted interpreter or exhausted memory",
                         "priors which are negative and plans without iterations are not refused, and not claimed to be"])
MISUSES = ["wider", "narrower", "fit-wider", "fit-narrower", "fit-fraction", "transform-fraction", "fit-negative", "transform-negative", "transform-nan", "fit-inf",
           "empty", "y-rows", "y-rows-more", "y-cols", "y-and-state", "y-bound", "state-rows", "method", "resume-other", "resume-none", "untrained", "one-topic", "topics-prior", "words-prior", "kind",
           "no-words", "many-topics"]
TOKENS = ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS")
OTHER = ["dataset", "kernels", "kernels", "dmr", "family", "splits"]
FATAL = (MemoryError, SystemError, RecursionError)


def cases(tier, seed):
    n = 960 if tier == "quick" else 4800
    for i in range(n):
        if i % 4 == 3:
            yield dict(i=i, seed=seed, what=OTHER[(i // 4) % 6], kind=None, docs=[20, 7, 3][(i // 5) % 3], words=[15, 40][(i // 7) % 2])
        else:
            yield dict(i=i, seed=seed, what="model", misuse=None, kind=models.KINDS[(i // 4) % 6], docs=[20, 7, 30][(i // 5) % 3], words=[15, 40, 120][(i // 7) % 3], K=[3, 2, 6][(i // 3) % 3],
                       part=[0, 1, 2][i % 4], corpus=gen.CORPUS_KINDS[(i // 6) % 8])


def refused(mon, mech, what, call):
    try:
        out = call()
    except FATAL as e:
        mon.fail("fatal:" + mech, "%s: refused by %s" % (what, type(e).__name__), error=str(e)[:200])
        return False
    except Exception as e:
        mon.count("refusals")
        return True
    mon.fail("accepted:" + mech, "%s is accepted" % what, got=str(out)[:200])
    return False


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p20")
    globals()["check_" + case["what"]](case, rng, mon)


def check_model(case, rng, mon):
    kind, K, D, T = case["kind"], case["K"], case["docs"], case["words"]
    X = models.covering(rng, D, T, case["corpus"], np.float64)
    Y = models.covering(rng, max(2, D // 2), T, case["corpus"], np.float64)
    ds, other = models.dataset(X), models.dataset(Y)
    make = lambda **kw: models.facade(kind, **dict(dict(n_components=K, iterations=4), **kw))
    models.reseed(case["i"])
    m = make().fit(ds)
    m.transform(other, persist_query_state=True)
    theirs = m.query_state_
    theta = models.reseed(1) or m.transform(ds, persist_query_state=True)
    held = models.snapshot(m._model_state) if hasattr(m, "_model_state") else {}
    before = (m.components_.copy(), sha(X.data, X.indices, X.indptr))
    models.reseed(5)
    answer = m.transform(other)
    m.transform(ds, persist_query_state=True)

    def bad(M, value):
        M = M.copy()
        M.data[rng.randint(len(M.data))] = value
        return M
    wide, thin = models.covering(rng, 8, T + rng.randint(1, 5), case["corpus"], np.float64), models.covering(rng, 8, T - rng.randint(1, 4), case["corpus"], np.float64)
    hole = X.toarray()
    hole[rng.randint(D)] = 0
    flat = lambda d, k: np.ones((d, k)) / k
    zero = ssp.csr_matrix((D, T))
    calls = {
        "wider": lambda: m.transform(wide), "narrower": lambda: m.transform(thin), "fit-wider": lambda: m.fit(wide), "fit-narrower": lambda: m.fit(thin),
        "fit-negative": lambda: make().fit(bad(X, -1)), "transform-negative": lambda: m.transform(bad(X, -2)), "transform-nan": lambda: m.transform(bad(X, np.nan)), "fit-inf": lambda: make().fit(bad(X, np.inf)),
        "y-rows": lambda: m.score(ds, y=flat(D - 1, K)), "y-rows-more": lambda: m.score(ds, y=flat(D + 1, K)), "y-cols": lambda: m.score(ds, y=flat(D, K + 1)),
        "y-and-state": lambda: m.score(ds, y=theta, y_query_state=m.query_state_), "y-bound": lambda: m.score(ds, y=theta, method="log_likelihood_bound"),
        "state-rows": lambda: m.score(ds, y_query_state=theirs), "method": lambda: m.score(ds, method="no such method"),
        "resume-other": lambda: m.transform(other, resume=True), "resume-none": lambda: make().fit(ds).fit(ds, resume=True),
        "untrained": lambda: make().transform(ds), "untrained-score": lambda: make().score(ds), "one-topic": lambda: make(n_components=rng.randint(-1, 2)).fit(ds),
        "topics-prior": lambda: make(doc_topic_prior=np.ones(K + [2, -1][case["i"] % 2])).fit(ds) if K + [2, -1][case["i"] % 2] > 1 else make(doc_topic_prior=np.ones(K + 3)).fit(ds),
        "words-prior": lambda: make(topic_word_prior=np.ones(T + [2, -1][case["i"] % 2])).fit(ds), "kind": lambda: models.facade("NO SUCH KIND").fit(ds),
    }
    if kind in TOKENS:
        calls.update({"fit-fraction": lambda: make().fit(bad(X, 0.5)), "transform-fraction": lambda: m.transform(bad(X, 2.25))})
    if kind in ("LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL"):
        calls["empty"] = lambda: m.transform(ssp.csr_matrix(hole))
    if kind != "LDA_GIBBS":
        calls.update({"empty-fit": lambda: make().fit(ssp.csr_matrix(hole)), "no-words": lambda: make().fit(zero)})
    if kind not in ("LDA_CVB0", "LDA_CVB"):
        calls["many-topics"] = lambda: make(n_components=256 + rng.randint(100)).fit(ds)
    names = sorted(calls)[case["part"]::3]
    rng.shuffle(names)
    for name in names:
        mon.seen(kind, name, D, T, K)
        models.reseed(2)
        with quiet():
            refused(mon, "%s:%s" % (name, kind), "%s with %s" % (name, kind), calls[name])
    mon.expect(np.array_equal(m.components_, before[0]), "state:" + kind, "a refused call changed the model", calls=names)
    if held:
        mon.expect(not models.changed(held, models.snapshot(m._model_state)), "state:" + kind, "a refused call changed the model", calls=names)
    mon.expect(sha(X.data, X.indices, X.indptr) == before[1], "data:" + kind, "a refused call changed the data", calls=names)
    models.reseed(5)
    mon.expect(np.array_equal(m.transform(other), answer), "answer:" + kind, "a refused call changed what the model answers", calls=names)
    mon.count("answers-compared")


def check_dataset(case, rng, mon):
    from sidetopics.model.common import DataSet
    D, T = case["docs"], case["words"]
    X = models.covering(rng, D, T, "topical", np.float64)
    off = [1, -1][case["i"] // 4 % 2]
    mon.seen("dataset", D, T, off)
    refused(mon, "dataset:feats", "features of other documents", lambda: DataSet(X, feats=np.ones((D + off, 2))))
    refused(mon, "dataset:links", "links of other documents", lambda: DataSet(X, links=ssp.csr_matrix((D + off, D))))
    refused(mon, "dataset:categories", "categories of other documents", lambda: DataSet(X, doc_categories=["a"] * (D + off)))
    refused(mon, "dataset:none", "no documents", lambda: DataSet(X[:0]))
    bad = X.copy()
    bad.data[-1] = [-1, np.nan, -np.inf, np.inf][case["i"] // 8 % 4]
    refused(mon, "dataset:counts", "a word count which is not one", lambda: DataSet(bad))
    refused(mon, "dataset:counts-dense", "a word count which is not one", lambda: DataSet(bad.toarray()))


def check_splits(case, rng, mon):
    D, T = case["docs"], case["words"]
    X = models.covering(rng, D, T, "topical", np.float64)
    ds = models.dataset(X)
    before = sha(X.data, X.indices, X.indptr)
    mon.seen("splits", D, T)
    refused(mon, "splits:links", "a link hold-out without links", lambda: ds.link_prediction_split())
    refused(mon, "splits:add-intercept", "an intercept without features", lambda: ds.add_intercept_to_feats_if_required() if ds.feats is not None else 1 / 0)
    refused(mon, "splits:order", "an order of documents which are not there", lambda: ds.reorder(np.arange(D) + D))
    mon.expect(sha(ds.words.data, ds.words.indices, ds.words.indptr) == before, "splits:changed", "a refused operation changed the data")


def check_kernels(case, rng, mon):
    se = __import__("sidetopics.util.sparse_elementwise", fromlist=["x"])
    D, T, K = case["docs"], case["words"], 3
    dtype = [np.float64, np.float32][case["i"] // 4 % 2]
    A = models.covering(rng, D, T, "topical", dtype)
    B, C, d = rng.rand(D, K).astype(dtype), rng.rand(K, T).astype(dtype), rng.rand(K).astype(dtype) + .5
    out = A.copy()
    before = sha(A.data, B, C, out.data)
    wrong = {
        "rows": (B[:-1].copy(), C), "rows-more": (np.vstack([B, B]), C), "columns": (B, C[:, :-1].copy()), "columns-more": (B, np.hstack([C, C])), "inner": (B[:, :2].copy(), C), "inner-more": (B, C[:2].copy()),
        "element-type": (B.astype(np.int64), C), "factor-type": (B, C.astype([np.float32, np.float64][case["i"] // 4 % 2])),
    }
    mon.seen("kernels", D, T, str(dtype))
    for name, (b, c) in wrong.items():
        for op in ("sparseScalarQuotientOfDot", "sparseScalarProductOfDot", "sparseScalarProductOfSafeLnDot"):
            refused(mon, "kernel:%s:%s" % (name, op), "%s of mismatched %s" % (op, name), lambda: getattr(se, op)(A, b, c, out=out))
        refused(mon, "kernel:%s:normed" % name, "a normalised quotient of mismatched %s" % name, lambda: se.sparseScalarQuotientOfNormedDot(A, b, c, d, out=out))
    refused(mon, "kernel:normalisers", "a quotient with too few normalisers", lambda: se.sparseScalarQuotientOfNormedDot(A, B, C, d[:-1].copy(), out=out))
    if A.nnz > 1:
        small = A[:-1].copy()
        for op in ("sparseScalarQuotientOfDot", "sparseScalarProductOfDot", "sparseScalarProductOfSafeLnDot"):
            refused(mon, "kernel:out:" + op, "%s with an output that is too small" % op, lambda: getattr(se, op)(A, B, C, out=small))
            refused(mon, "kernel:csc:" + op, "%s of a matrix which is not CSR" % op, lambda: getattr(se, op)(A.tocsc(), B, C))
            refused(mon, "kernel:fortran:" + op, "%s of a factor stored by column" % op, lambda: getattr(se, op)(A, np.asfortranarray(B), C))
    mon.expect(sha(A.data, B, C, out.data) == before, "kernel:changed", "a refused product wrote to its arguments or output")


def check_dmr(case, rng, mon):
    import sidetopics.model.dmr as dmr
    D, T, K = case["docs"], case["words"], 3
    X = models.covering(rng, D, T, "topical", np.int64)
    F = rng.randn(D, 2)
    ds = families.data("dmr", X, feats=F)
    models.reseed(case["i"])
    model, q = families.train("dmr", ds, K, 6)
    before = models.snapshot(model)
    mon.seen("dmr", D, T)
    wide = families.data("dmr", models.covering(rng, 8, T + 2, "topical", np.int64), feats=rng.randn(8, 2))
    thin = families.data("dmr", models.covering(rng, 8, T - 2, "topical", np.int64), feats=rng.randn(8, 2))
    refused(mon, "dmr:wider", "DMR with a wider vocabulary", lambda: dmr.newQueryState(wide, model))
    refused(mon, "dmr:narrower", "DMR with a narrower vocabulary", lambda: dmr.newQueryState(thin, model))
    n = K + [2, -1][case["i"] // 4 % 2]
    refused(mon, "dmr:topics-prior", "DMR with a prior over other topics", lambda: dmr.newModelAtRandom(ds, K, topicPrior=np.ones(n)))
    refused(mon, "dmr:words-prior", "DMR with a prior over other words", lambda: dmr.newModelAtRandom(ds, K, vocabPrior=np.ones(T + n - K)))
    refused(mon, "dmr:no-feats", "DMR without features", lambda: dmr.newModelAtRandom(models.dataset(ds.words), K))
    half = X.astype(np.float64)
    half.data[0] = 1.5
    refused(mon, "dmr:fraction", "DMR with fractions of words", lambda: dmr.newQueryState(models.dataset(half, feats=F), model))
    more = families.data("dmr", X, feats=rng.randn(D, 5))
    refused(mon, "dmr:features", "DMR with other features", lambda: dmr.query(more, model, dmr.newQueryState(more, model), dmr.newTrainPlan(4, thin=1)))
    mon.expect(not models.changed(before, models.snapshot(model)), "dmr:changed", "a refused call changed the model")


def check_family(case, rng, mon):
    D, T, K = case["docs"] + 10, case["words"], 3
    X = models.covering(rng, D, T, "topical", np.float64)
    name = ["ctm", "stm_yv", "mtm3", "lro_vb", "stm_yv_bohning"][case["i"] // 4 % 5]
    feats = rng.randn(D, 4) if name in families.FEATS else None
    links = ssp.csr_matrix((rng.rand(D, D) < .2).astype(np.float64)) if name in families.LINKS else None
    ds = families.data(name, X, feats=feats, links=links)
    models.reseed(case["i"])
    model, q = families.train(name, ds, K, 3)
    m = families.module(name)
    mon.seen("family", name, D, T)
    if feats is not None or links is not None:
        plain = families.data(name, X)
        refused(mon, "family:component:" + name, "%s without its side information" % name, lambda: families.train(name, plain, K, 3))
    before = models.snapshot(model)
    wide = families.data(name, models.covering(rng, D, T + 3, "topical", np.float64), feats=feats, links=links)

    def infer():
        s = m.newQueryState(wide, model)
        return m.query(wide, model, s, families.plan(name, 3))
    refused(mon, "family:wider:" + name, "%s with a wider vocabulary" % name, infer)
    mon.expect(not models.changed(before, models.snapshot(model)), "family:changed:" + name, "a refused call changed the model")
