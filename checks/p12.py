"""Using a trained model (transform, score, read, copy) leaves what it learnt exactly as it was."""
import numpy as np
from vlib import gen, models
from vlib.core import rng_of, sha

META = dict(rule="distinct (kind of model, corpus, sequence of uses) histories after which the learnt state was compared byte by byte",
            min_events={"uses": 1500})
USES = ["transform", "transform-new", "transform-persist", "transform-resume", "transform-long", "score-y", "score-inferred", "score-perplexity", "score-completion",
        "score-state", "score-expected", "per-document", "components", "copy-use", "params", "failing"]


def cases(tier, seed):
    n = 540 if tier == "quick" else 2160
    for i in range(n):
        yield dict(i=i, seed=seed, kind=models.KINDS[i % 6], corpus=gen.CORPUS_KINDS[(i // 6) % 8], dtype=["float64", "int32", "float32", "int64"][(i // 5) % 4],
                   docs=[20, 6, 45][(i // 4) % 3], words=[18, 40][(i // 3) % 2], K=[3, 6][(i // 7) % 2], log=[0, 3][(i // 2) % 2], approx=(i // 9) % 4 == 3,
                   iters=[12, 2, 45][(i // 8) % 3], retrain=(i // 10) % 3 == 0)


def learnt(m):
    """everything a model learnt; the mean of the prior, in place of the prior, is the same prior to the models that do so"""
    return models.snapshot(m._model_state)


def run_case(case, mon):
    L = models.lib()
    S = L.ScoreMethod
    rng = rng_of(case["i"], case["seed"], "p12")
    kind = case["kind"]
    dt = np.dtype(case["dtype"])
    X = models.covering(rng, case["docs"], case["words"], case["corpus"], dt)
    X2 = models.covering(rng, max(2, case["docs"] // 2), case["words"], gen.CORPUS_KINDS[(case["i"] + 1) % 8], dt)
    ds, ds2 = models.dataset(X), models.dataset(X2)
    m = models.facade(kind, n_components=case["K"], iterations=case["iters"], query_iterations=5, log_frequency=case["log"], use_approximations=case["approx"], seed=case["i"])
    m.fit(ds, persist_query_state=True)
    if case["retrain"]:
        m.fit(ds2, persist_query_state=True)
    before = learnt(m)
    early = np.array(m.components_)
    # the inference left by training is resumed, without the model noticing
    m.transform(ds2 if case["retrain"] else ds, resume=True, persist_query_state=True)
    diff = models.changed(before, learnt(m))
    mon.expect(not diff, "learnt:resume-training", "the trained model was changed by inference resumed from training", fields=diff)
    mon.expect(np.array_equal(early, np.array(m.components_)), "components:resume-training", "the word distributions changed")
    comps = np.array(m.components_)
    # nothing inferred later may depend on what was inferred before
    models.reseed(4242)
    first = np.array(m.transform(models.dataset(X2)))
    y = np.maximum(rng.dirichlet([0.6] * case["K"], size=X2.shape[0]), 1e-9)
    history = []
    persisted = None
    for step in range(14):
        u = USES[rng.randint(len(USES))]
        if u in ("transform-resume", "score-state") and persisted is None:
            u = "transform-persist"
        history.append(u)
        mon.count("uses")
        if u == "transform":
            m.transform(ds)
            persisted = None
        elif u == "transform-new":
            m.transform(gen.corpus(rng, 4, case["words"], "uniform", dt))
            persisted = None
        elif u == "transform-persist":
            m.transform(ds2, persist_query_state=True)
            persisted = m.query_state_
        elif u == "transform-resume":
            m.transform(ds2, resume=True, persist_query_state=True)
            persisted = m.query_state_
        elif u == "transform-long":
            m.transform(ds2, iterations=30)
            persisted = None
        elif u == "score-y":
            m.score(ds2, y=y.copy(), method=S.LogLikelihoodPoint)
        elif u == "score-inferred":
            m.score(ds, method=S.LogLikelihoodPoint)
            persisted = m.query_state_
        elif u == "score-perplexity":
            m.score(ds2, method=S.PerplexityPoint)
            persisted = m.query_state_
        elif u == "score-completion":
            est, _ = ds.doc_completion_split()
            if (models.dense(est.words).sum(axis=1) > 0).all():
                m.score(ds, method=S.DocCompletionLogLikelihoodPoint)
                persisted = m.query_state_
        elif u == "score-state":
            a = models.snapshot(persisted)
            m.score(ds2, y_query_state=persisted, method=S.PerplexityPoint)
            mon.expect(not models.changed(a, models.snapshot(persisted)), "query-state", "scoring changed the query state it was given",
                       fields=models.changed(a, models.snapshot(persisted)))
        elif u == "score-expected":
            if kind in ("LDA_CVB0", "MOM_VB"):
                m.score(ds2, method=S.LogLikelihoodBoundOrSampled)
                persisted = m.query_state_
        elif u == "per-document":
            m.log_likelihood_score_point(ds2, y.copy())
        elif u == "components":
            c = m.components_
            if isinstance(c, np.ndarray) and c.flags.writeable:
                c[:] = 0.5          # what a caller does with the returned array is the caller's business
        elif u == "copy-use":
            c = m.copy()
            c.fit(ds2)
            c.transform(ds)
        elif u == "params":
            m.get_params()
        elif u == "failing":
            try:
                m.transform(ds, resume=True) if persisted is None else m.score(ds, y=y, y_query_state=persisted)
                mon.fail("failing", "misuse was accepted")
            except ValueError:
                pass
        after = learnt(m)
        diff = models.changed(before, after)
        if not mon.expect(not diff, "learnt:" + u, "the trained model was changed by being used", fields=diff, history=history):
            return
    mon.expect(np.array_equal(np.array(m.components_), comps), "components", "the word distributions changed", history=history)
    models.reseed(4242)
    again = np.array(m.transform(models.dataset(X2)))
    mon.expect(np.array_equal(first, again), "same-answer", "the same query with the same randomness has another answer after other uses",
               history=history, worst=float(np.abs(first - again).max()) if first.shape == again.shape else None)
    mon.seen(kind, case["corpus"], case["K"], tuple(sorted(set(history))), case["retrain"])
    # and training does change it
    m.fit(models.dataset(X2[:max(2, X2.shape[0] // 2)]))
    mon.expect(bool(models.changed(before, learnt(m))), "training", "further training changed nothing")
