"""Inference carried on from where it was left is inference never interrupted."""
import numpy as np
from vlib import gen, models
from vlib.core import rng_of

META = dict(rule="distinct (kind of model, corpus, split of the iterations) interrupted runs compared with uninterrupted ones",
            min_events={"resumed": 150},
            assumptions=["variational kinds only: a sampler's interruption is not meant to preserve its sample path",
                         "equality up to rounding, of at most some tens of iterations"])
KINDS = ["LDA_VB_PYTHON_IMPL", "MOM_VB", "LDA_CVB0", "LDA_CVB"]


def cases(tier, seed):
    n = 720 if tier == "quick" else 2880
    for i in range(n):
        yield dict(i=i, seed=seed, kind=KINDS[i % 4], what=["transform", "fit", "fit", "fit_transform"][(i // 4) % 4], corpus=gen.CORPUS_KINDS[(i // 5) % 8],
                   docs=[20, 5, 40][(i // 7) % 3], words=[18, 35][(i // 3) % 2], K=[3, 5][(i // 9) % 2], split=[[3, 4], [1, 1], [5, 1, 2], [1, 6], [2, 2, 2]][(i // 11) % 5],
                   dtype=["float64", "int32", "float32"][(i // 13) % 3], entry=["wrapped", "same"][(i // 2) % 2])


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p14")
    kind, split = case["kind"], case["split"]
    what = case["what"]
    if kind.startswith("LDA_CVB") and what != "transform":
        what = "transform"      # resuming CVB training counts the resumed documents a second time, by design of incremental training
    X = models.covering(rng, case["docs"], case["words"], case["corpus"], np.dtype(case["dtype"]))
    ds = models.dataset(X)
    f32 = kind.startswith("LDA_CVB")
    tol = dict(rtol=2e-2, atol=2e-3) if f32 else dict(rtol=1e-6, atol=1e-8)

    def make():
        return models.facade(kind, n_components=case["K"], iterations=6, query_iterations=4, seed=9 + case["i"])

    if what == "fit":
        m = make()
        m.fit(ds, iterations=split[0], persist_query_state=True)
        for j, n in enumerate(split[1:]):
            m.fit(ds, iterations=n, resume=True, persist_query_state=True)
            mon.count("resumed")
        whole = make()
        whole.fit(ds, iterations=sum(split), persist_query_state=True)
        mod = models.module(kind)
        mon.close(m.components_, whole.components_, "fit:components", "word distributions differ from those of an uninterrupted fit", **tol)
        mon.close(mod.topicDists(m.query_state_), mod.topicDists(whole.query_state_), "fit:topics", "topics differ from those of an uninterrupted fit", **tol)
        # it is the state that is resumed: starting over gives something else
        if kind == "LDA_VB_PYTHON_IMPL" and case["docs"] >= 20:
            other = make()
            other.fit(ds, iterations=split[0], persist_query_state=True)
            other.fit(ds, iterations=sum(split[1:]))
            mon.expect(not np.allclose(other.components_, m.components_, rtol=1e-9, atol=0), "fit:state-used", "resuming did not use the state it resumed")
    elif what == "transform":
        m = make()
        m.fit(ds)
        models.reseed(31)
        m.transform(ds, iterations=split[0], persist_query_state=True)
        for n in split[1:]:
            np.random.rand(7)     # the resumed inference has no use for randomness
            t = np.array(m.transform(ds, iterations=n, resume=True, persist_query_state=True))
            mon.count("resumed")
        whole = make()
        whole.fit(ds)
        models.reseed(31)
        w = np.array(whole.transform(ds, iterations=sum(split)))
        mon.close(t, w, "transform", "topics differ from those of an uninterrupted transform", **tol)
    else:
        # fit_transform is fit, then transform resuming the fit
        m = make()
        a = np.array(m.fit_transform(ds))
        b = make()
        b.fit(ds, persist_query_state=True)
        w = np.array(b.transform(ds, resume=True))
        mon.count("resumed")
        mon.close(a, w, "fit_transform", "fit_transform is not fit followed by a resumed transform", rtol=1e-9, atol=1e-12)
        mon.close(m.components_, b.components_, "fit_transform:components", "fit_transform learnt something else than fit", rtol=1e-9, atol=1e-12)
    # a query state is dropped unless it was asked for, and never resumed with other documents
    m = make()
    m.fit(ds)
    mon.expect(m.query_state_ is None, "dropped", "a query state nobody asked for was kept")
    m.fit(ds, persist_query_state=True)
    mon.expect(m.query_state_ is not None, "kept", "the query state asked for was not kept")
    for bad in (models.dataset(X), models.dataset(X[: max(1, X.shape[0] // 2)])):
        for fn in (m.transform, m.fit):
            q, s = models.snapshot(m.query_state_), models.snapshot(m._model_state)
            try:
                fn(bad, resume=True)
                mon.fail("other-documents", "resumed with documents the state does not belong to")
            except ValueError:
                mon.count("refused")
            mon.expect(not models.changed(q, models.snapshot(m.query_state_)) and not models.changed(s, models.snapshot(m._model_state)),
                       "refused:untouched", "a refused resumption changed the state")
    # so it is by every later call that does not ask for it
    for fn, kw in ((m.transform, {}), (m.fit, {}), (m.transform, dict(resume=True)), (m.fit, dict(resume=True))):
        m.fit(ds, persist_query_state=True)
        models.reseed(5)
        fn(ds, **kw)
        mon.expect(m.query_state_ is None, "dropped:later", "a query state was kept by a later call that did not ask for it")
        try:
            m.transform(ds, resume=True)
            mon.fail("dropped:resumed", "a state that was not asked for was resumed")
        except ValueError:
            mon.count("refused")
    mon.seen(kind, what, case["corpus"], case["docs"], tuple(split), case["dtype"])
