"""Collapsed variational Bayes: soft counts are conserved, belong to the tokens, and follow the published update."""
import numpy as np
from vlib import gen, models
from vlib.core import rng_of

META = dict(rule="distinct (kind, element type, corpus, history of training and querying) states whose counts were balanced, and sweeps replayed by a reference",
            min_events={"states": 500, "swept-tokens": 20000, "reference-sweeps": 60, "tokens": 400})
KINDS = ("LDA_CVB0", "LDA_CVB")


def cases(tier, seed):
    n = 1920 if tier == "quick" else 30000
    for i in range(n):
        yield dict(i=i, seed=seed, kind=KINDS[i % 2], dtype=["float64", "float32"][(i // 2) % 2], corpus=gen.CORPUS_KINDS[(i // 4) % 8],
                   docs=[6, 1, 15, 30][(i // 3) % 4], words=[10, 3, 25][(i // 5) % 3], K=[3, 2, 8][(i // 7) % 3],
                   words_type=["int32", "float64", "int64", "float32", "uint8"][(i // 9) % 5], prior=[(None, None), (0.1, 0.01), (1.5, 0.5), (0.7, 2.0)][(i // 6) % 4],
                   what=["history", "sweep", "token"][(i // 8) % 3])


def token_z(q, d):
    return np.asarray(q.z_dnk, dtype=np.float64)[d, :int(q.docLens[d])]


def balance(mon, X, q, f32, where, model_kt=None, model_k=None, extra=0.0):
    """the counts of a query state are those of its tokens (plus those of the model it was trained on top of)"""
    X = models.dense(X).astype(np.float64)
    D, T = X.shape
    lens = np.asarray(q.docLens)
    scale = X.sum() + extra + (0 if model_k is None else np.sum(model_k))
    tol = dict(rtol=0, atol=(3e-5 if f32 else 1e-9) * (10 + scale))
    tok = dict(rtol=0, atol=2e-3 if f32 else 1e-9)
    mon.count("states")
    mon.expect(np.array_equal(lens, X.sum(axis=1).astype(np.int64)), "lengths", "document lengths are not the number of tokens " + where)
    W = np.asarray(q.W_list)
    K = np.asarray(q.n_dk).shape[1]
    dk, kt = np.zeros((D, K)), np.zeros((K, T))
    for d in range(D):
        ids = W[d, :lens[d]]
        mon.expect(np.array_equal(np.bincount(ids, minlength=T)[:T], X[d]), "tokens", "the tokens of a document are not its words " + where)
        z = token_z(q, d)
        mon.close(z.sum(axis=1), np.ones(len(z)), "beliefs-sum", "the topic beliefs of a token do not add up to one " + where, **tok)
        mon.expect((z >= -1e-6).all(), "beliefs-sign", "a token's belief in a topic is negative " + where)
        dk[d] = z.sum(axis=0)
        np.add.at(kt.T, ids, z)
    if model_kt is not None:
        kt = kt + np.asarray(model_kt, dtype=np.float64)
    mon.close(q.n_dk, dk, "doc-counts", "topic counts of documents are not those of their tokens " + where, **tol)
    mon.close(q.n_kt, kt, "word-counts", "word counts of topics are not those of the tokens " + where, **tol)
    mon.close(q.n_k, kt.sum(axis=1), "topic-counts", "sizes of topics are not those of the tokens " + where, **tol)
    mon.close(np.asarray(q.n_dk, dtype=np.float64).sum(axis=1), X.sum(axis=1), "doc-total", "a document lost or gained tokens " + where, **tol)
    if "v_dk" in q._fields and model_kt is None:
        vd, vk = np.zeros((D, K)), np.zeros((K, T))
        for d in range(D):
            z = token_z(q, d)
            vd[d] = (z * (1 - z)).sum(axis=0)
            np.add.at(vk.T, W[d, :lens[d]], z * (1 - z))
        mon.close(q.v_dk, vd, "doc-variance", "topic variances of documents are not those of their tokens " + where, **tol)
        mon.close(q.v_kt, vk, "word-variance", "word variances of topics are not those of the tokens " + where, **tol)
        mon.close(q.v_k, vk.sum(axis=1), "topic-variance", "variances of topics are not those of the tokens " + where, **tol)


def sweep(kind, q, T, a, b, W, lens, model=None):
    """one sweep of the published update, in double precision, over copies"""
    n_dk, n_kt, n_k, z = (np.array(x, dtype=np.float64) for x in (q["n_dk"], q["n_kt"], q["n_k"], q["z_dnk"]))
    v_dk, v_kt, v_k = (np.array(q[f], dtype=np.float64) for f in ("v_dk", "v_kt", "v_k")) if kind == "LDA_CVB" else (None, None, None)
    for d in range(len(lens)):
        for n in range(lens[d]):
            t = W[d, n]
            old = z[d, n].copy()
            t1, t2, t3 = a + n_dk[d] - old, b + n_kt[:, t] - old, T * b + n_k - old
            new = t1 * t2 / t3
            if kind == "LDA_CVB":
                new = new * np.exp(np.maximum(-75.5, -v_dk[d] / (2 * t1 ** 2) - v_kt[:, t] / (2 * t2 ** 2) + v_k / (2 * t3 ** 2)))
            new /= new.sum()
            n_dk[d] += new - old
            n_kt[:, t] += new - old
            n_k += new - old
            if kind == "LDA_CVB":
                dv = new * (1 - new) - old * (1 - old)
                v_dk[d] += dv
                v_kt[:, t] += dv
                v_k += dv
            z[d, n] = new
    return dict(n_dk=n_dk, n_kt=n_kt, n_k=n_k, z_dnk=z, v_dk=v_dk, v_kt=v_kt, v_k=v_k)


def held(q):
    return {f: np.array(getattr(q, f)) for f in q._fields}


def skewed_state(rng, q, T, dt):
    """the same tokens, with sharp beliefs"""
    lens, W = np.asarray(q.docLens), np.asarray(q.W_list)
    D, N, K = np.asarray(q.z_dnk).shape
    z = rng.dirichlet([0.4] * K, size=(D, N)) * 0.98 + 0.02 / K
    z *= (np.arange(N)[None, :] < lens[:, None])[:, :, None]
    kt, vt = np.zeros((K, T)), np.zeros((K, T))
    for d in range(D):
        np.add.at(kt.T, W[d, :lens[d]], z[d, :lens[d]])
        np.add.at(vt.T, W[d, :lens[d]], (z * (1 - z))[d, :lens[d]])
    new = dict(z_dnk=z, n_dk=z.sum(axis=1), n_kt=kt, n_k=kt.sum(axis=1))
    if "v_dk" in q._fields:
        new.update(v_dk=(z * (1 - z)).sum(axis=1), v_kt=vt, v_k=vt.sum(axis=1))
    return q._replace(**{k: np.ascontiguousarray(v.astype(dt)) for k, v in new.items()})


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p16")
    mod = models.module(case["kind"])
    dt = np.dtype(case["dtype"])
    f32 = dt == np.float32
    wt = np.dtype(case["words_type"])
    a, b = case["prior"]
    K, T = case["K"], case["words"]

    def corpus(docs, kind):
        X = gen.corpus(rng, docs, T, kind, np.int64)
        X.data = np.minimum(X.data, 200)
        return X.astype(wt)

    X = corpus(case["docs"], case["corpus"])
    ds = models.dataset(X)
    model = mod.newModelAtRandom(ds, K, **({} if a is None else dict(topicPrior=np.full(K, a, dtype=dt), vocabPrior=b)), dtype=dt)
    q = mod.newQueryState(ds, model)
    balance(mon, X, q, f32, "before training")

    def plan(n):
        return mod.newTrainPlan(n, logFrequency=0)

    if case["what"] == "token":
        # the first token of a sweep sees the state as it was given, so its odds must be those of the update to within the
        # accuracy of the fast exponential; small corpora with sharp beliefs, where every term of the update matters
        for rep in range(12):
            X = corpus([1, 2, 1, 4][rep % 4], ["single", "wide", "single", "binary"][rep % 4])
            ds = models.dataset(X)
            m = mod.newModelAtRandom(ds, K, topicPrior=np.asarray(model.topicPrior, dtype=dt), vocabPrior=model.vocabPrior, dtype=dt)
            q = skewed_state(rng, mod.newQueryState(ds, m), T, dt)
            before, lens = held(q), np.asarray(q.docLens)
            want = sweep(case["kind"], before, T, float(np.mean(m.topicPrior)), float(m.vocabPrior), before["W_list"], [1])["z_dnk"][0, 0]
            q = mod.train(ds, m, q, plan(1))[1]
            got = np.asarray(q.z_dnk, dtype=np.float64)[0, 0]
            # rounding the sums a single-precision count is the difference of matters only to beliefs near nothing
            big = want > (1e-3 if case["kind"] == "LDA_CVB" else 1e-4)
            if case["kind"] == "LDA_CVB" and lens[0] == 1 or not big.any():
                continue
            odds = np.log(np.maximum(got[big], 1e-30) / want[big])
            lim = 0.13 if case["kind"] == "LDA_CVB" else 0.02 if f32 else 1e-7
            mon.count("tokens")
            mon.expect(lens[0] == 1 or np.ptp(odds) <= lim, "odds", "the odds of a token's topics are not those of the published update",
                       got=got, want=want)
    elif case["what"] == "sweep":
        before = held(q)
        ap, bp = float(np.mean(model.topicPrior)), float(model.vocabPrior)
        lens = np.asarray(q.docLens)
        small = int(lens.sum()) * K <= 12000
        for step in range(2 if small else 1):
            want = sweep(case["kind"], before, T, ap, bp, before["W_list"], lens)
            if step == 0:
                model, q, _ = mod.train(ds, model, q, plan(1))
            else:      # the model holds a copy of the counts now: carry on from the state before, on a new model
                fresh = mod.newModelAtRandom(ds, K, topicPrior=np.asarray(model.topicPrior) * np.ones(K, dtype=dt), vocabPrior=model.vocabPrior, dtype=dt)
                model, q, _ = mod.train(ds, fresh, q, plan(1))
            got = held(q)
            mon.count("reference-sweeps")
            mon.count("swept-tokens", int(lens.sum()))
            mask = np.arange(got["z_dnk"].shape[1])[None, :] < lens[:, None]
            diff = np.abs(got["z_dnk"].astype(np.float64) - want["z_dnk"])[mask]
            if case["kind"] == "LDA_CVB0":
                worst = 1e-9 if not f32 else 3e-3
                mon.expect(diff.max() <= worst, "update", "a sweep gives beliefs other than the published update", worst=float(diff.max()))
            else:      # its second-order term goes through a fast exponential that is good to about four per cent
                mon.expect(diff.max() <= 0.35 and diff.mean() <= 0.02, "update", "a sweep gives beliefs other than the published update",
                           worst=float(diff.max()), mean=float(diff.mean()))
            moved = np.abs(want["z_dnk"] - before["z_dnk"])[mask].mean()
            mon.count("moved", int(moved > 0.05))
            balance(mon, X, q, f32, "after a sweep")
            before = got
        # a query: the model's counts take part, and stay as they are
        X2 = corpus(4, "topical")
        ds2 = models.dataset(X2)
        q2 = mod.newQueryState(ds2, model)
        before = held(q2)
        for f in ("n_kt", "n_k", "v_kt", "v_k"):
            if f in before:
                before[f] = before[f] + np.asarray(getattr(model, f))
        lens2 = np.asarray(q2.docLens)
        want = sweep(case["kind"], before, T, float(np.mean(model.topicPrior)), float(model.vocabPrior), before["W_list"], lens2)
        q2 = mod.query(ds2, model, q2, plan(1))[1]
        mask = np.arange(np.asarray(q2.z_dnk).shape[1])[None, :] < lens2[:, None]
        diff = np.abs(np.asarray(q2.z_dnk, dtype=np.float64) - want["z_dnk"])[mask]
        mon.count("reference-sweeps")
        lim = (0.35, 0.02) if case["kind"] == "LDA_CVB" else (3e-3, 1e-3) if f32 else (1e-9, 1e-9)
        mon.expect(diff.max() <= lim[0] and diff.mean() <= lim[1], "query-update", "a query's sweep gives beliefs other than the published update",
                   worst=float(diff.max()), mean=float(diff.mean()))
        balance(mon, X2, q2, f32, "after a query", extra=4 * float(np.sum(model.n_k)))
    else:
        model, q, _ = mod.train(ds, model, q, plan(1 + case["i"] % 7))
        balance(mon, X, q, f32, "after training")
        total = models.dense(X).astype(np.float64).sum(axis=0)
        mass = dict(rtol=0, atol=(3e-5 if f32 else 1e-9) * (10 + 3 * total.sum()))
        mon.close(np.asarray(model.n_kt, dtype=np.float64).sum(axis=0), total, "model-words", "the model's word counts are not the training corpus's", **mass)
        for step in range(3):
            X2 = corpus([3, 12, 1][step], gen.CORPUS_KINDS[(case["i"] + step) % 8])
            ds2 = models.dataset(X2)
            q2 = mod.newQueryState(ds2, model)
            balance(mon, X2, q2, f32, "of a new query")
            if (case["i"] + step) % 2:
                old_kt, old_k = np.array(model.n_kt), np.array(model.n_k)
                model, q2, _ = mod.train(ds2, model, q2, plan(2))
                total = total + models.dense(X2).astype(np.float64).sum(axis=0)
                mass["atol"] += (3e-5 if f32 else 1e-9) * X2.sum() * 3
                balance(mon, X2, q2, f32, "after more training", old_kt, old_k)
            else:
                q2 = mod.query(ds2, model, q2, plan(3))[1]
                balance(mon, X2, q2, f32, "after a query", extra=4 * float(np.sum(model.n_k)))
            kt = np.asarray(model.n_kt, dtype=np.float64)
            mon.close(kt.sum(axis=0), total, "model-words", "the model's word counts are not those of all it was trained on", **mass)
            mon.close(model.n_k, kt.sum(axis=1), "model-topics", "the model's topic sizes are not those of its words", **mass)
            mon.count("histories")
    mon.seen(case["kind"], case["dtype"], case["corpus"], case["docs"], T, K, case["words_type"], case["prior"], case["what"])
