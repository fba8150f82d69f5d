"""Native code stays inside the memory it was given, reads nothing uninitialised and frees what it allocates."""
import ctypes
import sys
import numpy as np
from vlib import gen, models
from vlib.core import Monitor, rng_of, sha

META = dict(rule="distinct workloads driven through the natively compiled kernels with bounds checks (one build), address and undefined-behaviour sanitizers "
                 "(another) and poisoned allocations (the third)",
            variants=["plain", "bounds", "asan"], jobs=8, cap={"quick": 200, "thorough": 2400},
            min_events={"workloads:plain": 60, "workloads:bounds": 150, "workloads:asan": 150, "poison-pairs": 40, "leak-probes": 4},
            assumptions=["single-threaded execution: the kernels are sequential",
                         "the out-of-bounds build turns every typed-memoryview access of the .pyx sources into a checked one; the sanitizer build checks the unmodified sources"])
WHAT = ["kernels", "vec", "fit", "gibbs", "fit", "dmr", "vb_native", "kernels", "words", "fit"]
STATE = dict(variant="plain")
SKIP_POISON = ("vec",)


def start(spec, mon):
    STATE["variant"] = spec["variant"]

    def hook(u):        # an error nobody can catch: it was raised inside a native function that cannot pass it on
        where = getattr(u.object, "__name__", None) or repr(u.object)
        mon.fail("swallowed:%s" % type(u.exc_value).__name__, "an error inside native code was swallowed: %r in %s" % (u.exc_value, where))
    sys.unraisablehook = hook


def cases(tier, seed):
    n = 260 if tier == "quick" else 2600
    for i in range(n):
        what = WHAT[i % len(WHAT)]
        j = i // len(WHAT)
        yield dict(i=i, seed=seed, what=what, kind=models.KINDS[(i // 2) % 6], dtype=["int32", "float64", "float32", "int64"][j % 4],
                   corpus=gen.CORPUS_KINDS[(i // 3) % 8], docs=[7, 1, 23, 2, 40][(i // 7) % 5], words=[12, 1, 40, 3][(i // 5) % 4],
                   K=[3, 2, 16, 200][(i // 11) % 4])
    yield from (dict(i=n + i, seed=seed, what="leak", kind=k, dtype="float64", corpus="topical", docs=6, words=10, K=200)
                for i, k in enumerate(("LDA_CVB0", "LDA_CVB", "LDA_GIBBS", "LDA_CVB0", "LDA_CVB")))


def run_case(case, mon):
    v = STATE["variant"]
    mon.count("workloads:" + v)
    if v == "plain":
        if case["what"] == "leak":
            return
        return poison(case, mon)
    if case["what"] == "leak":
        if v == "asan":
            leak(case, mon)
        return
    workload(case)
    mon.seen(v, case["what"], case["kind"] if case["what"] == "fit" else "", case["dtype"], case["corpus"], case["docs"], case["words"], case["K"], case["i"])


class Ignoring(Monitor):
    """values are other properties' business"""

    def fail(self, *a, **k):
        pass


def workload(case):
    """-> hash of the results"""
    rng = rng_of(case["i"], case["seed"], "p06")
    np.random.seed(case["i"] + 1)
    models.reseed(case["i"] + 1)
    what = case["what"]
    if what in ("kernels", "vec"):
        import importlib
        mod = importlib.import_module("checks.p05" if what == "kernels" else "checks.p08")
        own = Ignoring()
        pool = list(mod.cases("quick", case["seed"] + 100))
        for c in (pool[(case["i"] * 37 + t) % len(pool)] for t in range(12)):
            mod.run_case(c, own)
        if what == "vec":
            return None
        return kernel_hash(rng)
    dt = np.dtype(case["dtype"])
    D, T, K = case["docs"], case["words"], case["K"]
    X = gen.corpus(rng, D, T, case["corpus"], dt)
    if what == "fit":
        m = models.facade(case["kind"], n_components=K, iterations=3, query_iterations=2, seed=1 + case["i"], log_frequency=case["i"] % 2)
        a = np.array(m.fit_transform(models.dataset(X), persist_query_state=True) if case["i"] % 4 else m.fit_transform(models.dataset(X)))
        X2 = gen.corpus(rng, [1, 9, 50][case["i"] % 3], T, gen.CORPUS_KINDS[(case["i"] + 2) % 8], dt)
        b = np.array(m.transform(models.dataset(X2)))
        s = m.score(models.dataset(X2), y=b)
        m.fit(models.dataset(X2))
        return sha(a, b, np.asarray(m.components_), np.float64(s))
    if what == "gibbs":
        import sidetopics.model.lda_gibbs as g
        X = X.astype(np.int32)
        ds = models.dataset(X)
        model = g.newModelAtRandom(ds, K, 0.5, 0.1)
        q = g.newQueryState(ds, model)
        w = np.array(q.w_list)
        model, q, _ = g.train(ds, model, q, g.newTrainPlan(7, burnIn=[0, 3][case["i"] % 2], thin=[1, 3, 2, 7][case["i"] % 4]))
        X2 = gen.corpus(rng, 5, T, "skewed", np.int32)
        ds2 = models.dataset(X2)
        q2 = g.newQueryState(ds2, model)
        _, q2 = g.query(ds2, model, q2, g.newTrainPlan(5, burnIn=1, thin=2))[:2]
        return sha(w, np.array(g.wordDists(model)), np.array(g.topicDists(q)), np.array(g.topicDists(q2)))
    if what == "dmr":
        import sidetopics.model.dmr as g
        feats = gen.feats(rng, D, 3, dense=bool(case["i"] % 2))
        ds = models.dataset(X.astype(np.uint16), feats=feats)
        K = min(K, 16)
        model = g.newModelAtRandom(ds, K, vocabPrior=0.1)
        q = g.newQueryState(ds, model)
        model, q, _ = g.train(ds, model, q, g.newTrainPlan(6, burnIn=1, thin=[1, 2, 5][case["i"] % 3]))
        q2 = g.newQueryState(ds, model)
        q2 = g.query(ds, model, q2, g.newTrainPlan(5, burnIn=1, thin=2))[1]
        return sha(np.array(model.weights), np.array(g.wordDists(model)), np.array(g.topicDists(q)), np.array(g.topicDists(q2)))
    if what == "vb_native":
        import sidetopics.model.lda_vb as g
        ds = models.dataset(X.astype(np.float32))
        model = g.newModelAtRandom(ds, min(K, 16), dtype=np.float32)
        q = g.newQueryState(ds, model)
        model, q, _ = g.train(ds, model, q, g.newTrainPlan(4, logFrequency=4))
        return sha(np.array(model.wordDists), np.array(q.topicDists))
    if what == "words":
        out = []
        import sidetopics.model.lda_cvb0 as a
        import sidetopics.model.lda_cvb as b
        empty = gen.corpus(rng, D, T, case["corpus"], dt, allow_empty_docs=True)
        for X in (X, gen.shuffled_indices(rng, X), gen.with_explicit_zeros(rng, X), empty):
            for m in (a, b):
                try:
                    W, lens = m.toWordList(X)
                except (ValueError, AssertionError):
                    continue
                lens = np.asarray(lens)
                out += [np.asarray(W)[d, :lens[d]] for d in range(len(lens))] + [lens]
        return sha(*out)
    raise ValueError(what)


def kernel_hash(rng):
    """every kernel once, on its own outputs: used to compare runs over differently poisoned memory"""
    import sidetopics.util.sparse_elementwise as se
    import sidetopics.util.sigmoid_utils as sg
    out = []
    for dt in (np.float64, np.float32):
        A = gen.corpus(rng, 30, 50, "topical", dt, allow_empty_docs=True)
        B, C, d = rng.rand(30, 20).astype(dt) + dt(0.1), rng.rand(20, 50).astype(dt) + dt(0.1), rng.rand(20).astype(dt) + dt(0.5)
        for f, args in ((se.sparseScalarQuotientOfDot, (A, B, C)), (se.sparseScalarProductOfDot, (A, B, C)), (se.sparseScalarProductOfSafeLnDot, (A, B, C)),
                        (se.sparseScalarQuotientOfNormedDot, (A, B, C, d))):
            out.append(np.array(f(*args).data))
        big = (rng.rand(200, 40).astype(dt) - dt(0.5)) * 9
        out += [np.float64(sg.selfSoftDot(big)), np.float64(sg.scaledSelfSoftDot(big, rng.rand(200))), np.float64(sg.scaledSelfSoftDot(big, rng.randint(1, 9, 200))),
                np.array(sg.rowwise_softmax(big)), np.array(sg.colwise_softmax(big)),
                np.float64(se.entropyOfDot(rng.dirichlet([1.] * 20, 30).astype(dt), rng.dirichlet([1.] * 50, 20).astype(dt))),
                np.float64(se.scaledSumOfLnOnePlusExp(rng.rand(200).astype(dt), big))]
    import sidetopics.util.vectrans as vt
    for dt in (np.float64, np.float32, np.int32):
        M = (rng.rand(60, 30) * 50).astype(dt)
        out.append(np.array(vt.vec_transpose(M, 6)))
    return sha(*out)


def poison(case, mon):
    """the result must be the same whatever freshly allocated memory happens to hold"""
    if case["what"] in SKIP_POISON:
        return
    libc = ctypes.CDLL(None)
    real_empty, real_empty_like = np.empty, np.empty_like

    def fill(a, how):
        if a.dtype.kind == "f":
            a.fill(np.nan if how else 0.5)
        elif a.dtype.kind in "iu":
            a.fill(3 if how else 0)
        return a

    got = []
    for how in (0, 1):
        libc.mallopt(-6, 0 if not how else 0x5a)       # M_PERTURB: new blocks are filled with the byte's complement
        np.empty = lambda *a, **k: fill(real_empty(*a, **k), how)
        np.empty_like = lambda *a, **k: fill(real_empty_like(*a, **k), how)
        try:
            got.append(workload(case))
        finally:
            np.empty, np.empty_like = real_empty, real_empty_like
            libc.mallopt(-6, 0)
    mon.count("poison-pairs")
    mon.expect(got[0] == got[1], "uninitialised:" + case["what"], "the result depends on what uninitialised memory holds")
    mon.seen("poison", case["what"], case["kind"] if case["what"] == "fit" else "", case["dtype"], case["corpus"], case["docs"], case["words"], case["K"])


def leak(case, mon):
    import gc
    size = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    size.restype = ctypes.c_size_t
    rng = rng_of(case["i"], "leak")
    mod = models.module(case["kind"])
    X = gen.corpus(rng, 6, 10, "topical", np.int32)
    ds = models.dataset(X)
    kw = dict() if case["kind"] == "LDA_GIBBS" or case["i"] % 2 else dict(dtype=np.float64)
    model = mod.newModelAtRandom(ds, 200, **kw)
    q = mod.newQueryState(ds, model)
    plan = mod.newTrainPlan(1, logFrequency=0) if case["kind"] != "LDA_GIBBS" else mod.newTrainPlan(2, burnIn=0, thin=1)
    model, q, _ = mod.train(ds, model, q, plan)
    growth, last = [], None
    for batch in range(4):
        for _ in range(20):
            r = mod.train(ds, model, q, plan)
            del r
        gc.collect()
        now = size()
        if last is not None:
            growth.append(now - last)
        last = now
    mon.count("leak-probes")
    each = 200 * (8 if kw else 4)
    mon.expect(min(growth) < 20 * each * 0.8, "leak:" + case["kind"], "native memory grows with every call", growth=growth)
    mon.seen("leak", case["kind"], str(kw))
