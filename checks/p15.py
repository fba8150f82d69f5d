"""What the caller passes in - data, priors, topic distributions, rankings - is never modified."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, sha

META = dict(rule="distinct (operation, kind of model, storage, element type) calls after which every argument was compared byte by byte",
            min_events={"calls": 1200, "objects": 6000},
            assumptions=["operations documented to change their data set in place (pruning, conversion of element types, adding an intercept) are excluded"])
WHAT = ["facade", "facade", "module", "splits", "metrics", "family", "module", "construct"]


def cases(tier, seed):
    n = 1600 if tier == "quick" else 6400
    for i in range(n):
        yield dict(i=i, seed=seed, what=WHAT[i % len(WHAT)], kind=models.KINDS[(i // 8) % 6], corpus=gen.CORPUS_KINDS[(i // 3) % 8], storage=["csr", "dense", "csc", "unsorted", "coo"][(i // 7) % 5],
                   dtype=["float64", "int32", "float32", "int64"][(i // 5) % 4], docs=[20, 7][(i // 11) % 2], words=[15, 30][(i // 13) % 2], K=[3, 5][(i // 2) % 2], log=[0, 2][(i // 4) % 2])


class Watch:
    """every object the caller owns, and what it held when it was handed over"""

    def __init__(self, mon, case):
        self.mon, self.case, self.held = mon, case, {}

    def add(self, **objects):
        for name, o in objects.items():
            self.held[name] = (o, self.print(o))

    def print(self, o):
        if o is None:
            return None
        if hasattr(o, "doc_count") and hasattr(o, "words"):
            return tuple(self.print(getattr(o, f)) for f in ("words", "feats", "links", "word_dict", "doc_categories", "order")) + (o.doc_count, o.word_count)
        if ssp.issparse(o):
            if o.format == "coo":
                return ("coo", sha(o.row, o.col, o.data), o.shape, str(o.dtype))
            # a sorted copy of a row is the same matrix, but it is the caller's arrays that are watched
            return (o.format, sha(o.data, o.indices, o.indptr), o.shape, str(o.dtype))
        if isinstance(o, (list, tuple)):
            return repr(o)
        return sha(np.asarray(o))

    def after(self, call, only=None):
        self.mon.count("calls")
        self.mon.seen(call, self.case["kind"] if self.case["what"] in ("facade", "module") else "", self.case["storage"], self.case["dtype"])
        for name, (o, was) in self.held.items():
            self.mon.count("objects")
            self.mon.expect(self.print(o) == was, "modified:%s:%s" % (call, name), "%s modified the caller's %s" % (call, name), kind=self.case["kind"])


def run_case(case, mon):
    globals()["do_" + case["what"]](case, rng_of(case["i"], case["seed"], "p15"), mon, Watch(mon, case))


def matrices(case, rng):
    X = models.covering(rng, case["docs"], case["words"], case["corpus"], np.dtype(case["dtype"]))
    return X


def do_facade(case, rng, mon, w):
    L = models.lib()
    S = L.ScoreMethod
    kind = case["kind"]
    csr = matrices(case, rng)
    X = models.formats(csr, case["storage"], rng)
    Y = models.formats(models.covering(rng, 6, case["words"], "topical", np.dtype(case["dtype"])), case["storage"], rng)
    ds, ds2 = models.dataset(csr.copy()), models.dataset(models.covering(rng, 6, case["words"], "skewed", np.dtype(case["dtype"])))
    kw = {}
    given = case["i"] // 8 % 4
    fl = [np.float64, np.float32][case["i"] // 16 % 2] if kind.startswith("LDA_CVB") else np.float64
    if given % 2:
        kw["doc_topic_prior"] = (rng.rand(case["K"]) + 0.1).astype(fl)
    if given >= 2:
        # one weight per word for the admixtures, which say so; the others take any shape of theirs
        kw["topic_word_prior"] = (rng.rand(case["words"]) + 0.1).astype(fl) if kind in ("LDA_GIBBS",) else 0.3
    w.add(counts=X, more=Y, dataset=ds, dataset2=ds2, **{k: v for k, v in kw.items()})
    m = models.facade(kind, n_components=case["K"], iterations=6, query_iterations=4, log_frequency=case["log"], **kw)
    m.fit(ds, persist_query_state=True)
    w.after("fit")
    m.transform(ds, resume=True)
    w.after("resumed transform")
    m.fit(X)
    w.after("further fit")
    y = rng.dirichlet([0.5] * case["K"], size=ds2.doc_count) + 1e-6
    y1 = y[0].copy()
    w.add(topics=y, topics1=y1)
    t = m.transform(Y)
    w.after("transform")
    for method in (S.LogLikelihoodPoint, S.PerplexityPoint):
        m.score(ds2, y=y, method=method)
        w.after("score with topics")
    m.score(ds2, method=S.LogLikelihoodPoint)
    w.after("score")
    m.score(X, method=S.PerplexityPoint)
    w.after("score of counts")
    m.log_likelihood_score_point(ds2, y)
    w.after("per-document score")
    if kind in models.MIXTURES:
        m.log_likelihood_score_point(ds2, y1)
        w.after("per-document score with one prior")
    est, _ = ds.doc_completion_split()
    if (models.dense(est.words).sum(axis=1) > 0).all():
        m.score(ds, method=S.DocCompletionPerplexityPoint)
        w.after("document completion")
    c = m.copy()
    c.fit(ds2)
    w.after("copy's fit")
    m.fit_transform(ds)
    w.after("fit_transform")


def do_module(case, rng, mon, w):
    kind = case["kind"]
    mod = models.module(kind)
    ds = models.dataset(matrices(case, rng))
    ds2 = models.dataset(models.covering(rng, 5, case["words"], "topical", np.dtype(case["dtype"])))
    K, T = case["K"], case["words"]
    alpha, beta = rng.rand(K) + 0.1, 0.2
    dt = [np.float32, np.float64][case["i"] % 3 == 0] if kind.startswith("LDA_CVB") else np.float64
    alpha = alpha.astype(dt)
    w.add(dataset=ds, dataset2=ds2, topic_prior=alpha)
    kw = dict(dtype=dt) if kind != "LDA_GIBBS" else {}
    model = mod.newModelAtRandom(ds, K, alpha, beta, **kw)
    w.after("newModelAtRandom")
    q = mod.newQueryState(ds, model, False)
    w.after("newQueryState")
    pl = dict(iterations=5)
    if kind != "LDA_GIBBS":
        pl["logFrequency"] = case["log"]
    plan = mod.newTrainPlan(**pl)
    model, q = mod.train(ds, model, q, plan)[:2]
    w.after("train")
    model, q = mod.train(ds, model, q, plan)[:2]
    w.after("train again")
    model, q2 = mod.query(ds2, model, mod.newQueryState(ds2, model, False), plan)[:2]
    w.after("query")
    t = np.array(mod.topicDists(q2))
    p = np.array(mod.wordDists(model))
    w.after("distributions")
    if hasattr(mod, "log_likelihood"):
        mod.log_likelihood(ds2, model, q2)
        w.after("log_likelihood")
    if hasattr(mod, "log_likelihood_point"):
        w.add(override=t)
        mod.log_likelihood_point(ds2, model, q2, *([t] if kind == "MOM_GIBBS" else []))
        w.after("log_likelihood_point")
    if hasattr(mod, "log_likelihood_expected") and kind in ("LDA_CVB0", "MOM_VB"):
        mod.log_likelihood_expected(ds2, model, q2)
        w.after("log_likelihood_expected")
    if hasattr(mod, "var_bound") and kind in ("LDA_CVB0", "LDA_CVB", "MOM_VB", "LDA_VB_PYTHON_IMPL"):
        s = models.snapshot(q2), models.snapshot(model)
        mod.var_bound(ds2, model, q2)
        w.after("var_bound")
        mon.expect(not models.changed(s[0], models.snapshot(q2)) and not models.changed(s[1], models.snapshot(model)), "bound:states", "computing the bound changed a state")


def do_splits(case, rng, mon, w):
    D = case["docs"]
    W = models.formats(matrices(case, rng), "csr")
    F = [None, (rng.rand(D, 4) < 0.5).astype(np.float64), ssp.csr_matrix((rng.rand(D, 4) < 0.5).astype(np.int32))][case["i"] // 8 % 3]
    Lk = ssp.csr_matrix((rng.rand(D, D) < 0.4).astype(np.dtype(case["dtype"])))
    Lk = Lk.maximum(Lk.T).tocsr() if case["i"] // 24 % 2 else Lk
    cats = np.arange(D) % 3
    dic = np.array(["w%d" % t for t in range(case["words"])])
    w.add(words=W, feats=F, links=Lk, categories=cats, dictionary=dic)
    from sidetopics.model.common import DataSet
    ds = DataSet(W, feats=F, links=Lk, doc_categories=cats, word_dict=dic)
    w.add(dataset=ds)
    w.after("DataSet")
    folds = int(rng.randint(2, 5))
    for f in range(folds):
        ds.cross_valid_split(f, folds)
        w.after("cross-validation")
        ds.folded_link_prediction_split(2, f, folds)
        w.after("folded link split")
    ds.doc_completion_split(est_prop=0.4)
    w.after("document completion")
    ds.link_prediction_split(symmetric=bool(case["i"] // 24 % 2))
    w.after("link split")
    if F is not None and 0 < (models.dense(F)[:, 1] != 0).sum() < D:
        ds.split_on_feature([1])
        w.after("feature split")
    for deep in (False, True):
        c = ds.copy(deep=deep)
        w.after("copy")
        if deep:
            if case["i"] % 16 < 8:
                c.convert_to_dtype(np.float32)
            c.words.data[:] = 7
            c.links.data[:] = 9
            if F is not None:
                (c.feats.data if ssp.issparse(c.feats) else c.feats)[:] = 5
            w.after("changing a deep copy")
    ds.copy_with_changes(words=W)
    w.after("copy with changes")
    ds.words_with_min_freq(2)
    w.after("minimum frequency")
    ds.gensim_dictionary()
    w.after("dictionary")


def do_metrics(case, rng, mon, w):
    import sidetopics.model.evals as ev
    D, C = case["docs"], case["words"]
    E = rng.rand(D, C) < 0.3
    E[:, 0] |= ~E.any(axis=1)
    E = ssp.csr_matrix(E.astype(np.dtype(case["dtype"])))
    P = ssp.csr_matrix((rng.rand(D, C) * 0.9 + 0.05))
    if case["storage"] == "unsorted":
        E, P = gen.shuffled_indices(rng, E), gen.shuffled_indices(rng, P)
    at, groups = [1, 3, 5], [(1, 3), (3, 100)]
    w.add(expected=E, ranking=P, cutoffs=at, groups=groups)
    ev.mean_prec_rec_at(E, P, at=at)
    w.after("precision and recall")
    ev.mean_prec_rec_at(E, P, at=at, groups=groups)
    w.after("grouped precision and recall")
    ev.mean_reciprocal_rank(E, P)
    w.after("mean reciprocal rank")
    ev.mean_average_prec(E, P)
    w.after("mean average precision")
    import sidetopics.model.common as common
    drop = [0, 2]
    M = models.formats(E, "csr")
    w.add(matrix=M, columns=drop)
    common.dropcols_fancy(M, drop)
    common.dropcols_coo(M, drop)
    w.after("dropping columns")


def do_family(case, rng, mon, w):
    name = list(families.FAMILIES)[case["i"] // 8 % len(families.FAMILIES)]
    D = case["docs"] + 8
    X = models.covering(rng, D, case["words"], "topical", np.float64)
    F = ssp.csr_matrix(np.hstack([np.ones((D, 1)), (rng.rand(D, 3) < 0.5)]).astype(np.float64))
    Lk = ssp.csr_matrix((rng.rand(D, D) < 0.3).astype(np.float64))
    ds = families.data(name, X, F, Lk)
    w.add(dataset=ds)
    model, q = families.train(name, ds, 3, 6, 0 if name == "dmr" else case["log"])
    w.after(name + " train")
    mod = families.module(name)
    mod.log_likelihood(ds, model, q)
    w.after(name + " likelihood")
    if name != "lro_vb":
        mod.query(ds, model, mod.newQueryState(ds, model), families.plan(name, 5))
        w.after(name + " query")


def do_construct(case, rng, mon, w):
    """a data set made from counts in any storage holds those counts, and leaves the caller's as they were"""
    from sidetopics.model.common import DataSet
    csr = matrices(case, rng)
    for storage in ("csr", "csc", "coo", "dense", "unsorted"):
        X = models.formats(csr, storage, rng)
        Lk = models.formats(ssp.csr_matrix((rng.rand(case["docs"], case["docs"]) < 0.4).astype(np.dtype(case["dtype"]))), storage, rng)
        F = rng.rand(case["docs"], 3)
        w.held.clear()
        w.add(counts=X, links=Lk, feats=F)
        ds = DataSet(X, feats=F, links=Lk)
        w.after("DataSet of " + storage)
        mon.expect(ssp.issparse(ds.words) and ds.words.format == "csr", "construct:format", "words are not stored by row", storage=storage)
        mon.expect(ds.words.dtype == np.dtype(case["dtype"]), "construct:type", "the words' element type was changed", got=str(ds.words.dtype))
        mon.expect(np.array_equal(models.dense(ds.words), models.dense(X)), "construct:words", "the words are not those given", storage=storage)
        mon.expect(np.array_equal(models.dense(ds.links), models.dense(Lk)), "construct:links", "the links are not those given", storage=storage)
        mon.expect(np.array_equal(models.dense(ds.feats), F), "construct:feats", "the features are not those given", storage=storage)
        mon.expect(ds.doc_count == case["docs"] and abs(ds.word_count - models.dense(X).sum()) < 1e-6, "construct:counts", "documents or words are miscounted")
        c = ds.copy(deep=True)
        c.convert_to_dtype(np.float32)
        mon.expect(c.words.dtype == np.float32 and ds.words.dtype == np.dtype(case["dtype"]), "construct:convert", "converting a copy converts the original, or nothing")
        w.after("conversion of a copy")
