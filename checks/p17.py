"""The Gibbs samplers sample the posterior they say they do, and their averages are those of their samples."""
import itertools
import numpy as np
import scipy.special as fns
from vlib import gen, models
from vlib.core import rng_of

META = dict(rule="distinct (sampler, tiny corpus, priors) chains whose visits were compared with the posterior computed by enumeration, and samples balanced",
            min_events={"chains": 60, "sweeps": 100000, "balanced": 60},
            assumptions=["long-run frequencies are compared at five to six standard errors with an allowance for the chain's memory, so small biases go unseen"])
WHAT = ["lda", "lda_query", "mom", "mom_query", "dmr", "balance", "dmr_query", "dmr_balance", "lda", "gradient"]


def cases(tier, seed):
    n = 160 if tier == "quick" else 1100
    for i in range(n):
        yield dict(i=i, seed=seed, what=WHAT[i % len(WHAT)], K=[2, 3][(i // 10) % 2], a=[0.5, 0.1, 2.0, "asym"][(i // 3) % 4], b=[0.1, 1.0, 0.5, 3.0][(i // 7) % 4],
                   sweeps=12000 if tier == "quick" else 40000)


def tiny(rng, docs, words, tokens, whole=True):
    """docs x words counts with the given number of tokens altogether, every document with one at least"""
    X = np.zeros((docs, words), dtype=np.int64)
    for j in range(tokens):
        X[j % docs if j < docs else rng.randint(docs), rng.randint(words)] += 1
    return X


def dirmult(counts, prior):
    """log of the Dirichlet-multinomial of a sequence with these counts"""
    counts, prior = np.asarray(counts, dtype=np.float64), np.asarray(prior, dtype=np.float64)
    return fns.gammaln(prior.sum()) - fns.gammaln(prior.sum() + counts.sum(axis=-1)) + (fns.gammaln(prior + counts) - fns.gammaln(prior)).sum(axis=-1)


def lda_posterior(X, K, alpha, beta=None, phi=None):
    """exact posterior over assignments of all tokens; alpha is D x K. -> [(z tuple, probability)], docs, words of the tokens"""
    D, T = X.shape
    docs = [d for d in range(D) for t in range(T) for _ in range(X[d, t])]
    words = [t for d in range(D) for t in range(T) for _ in range(X[d, t])]
    out, zs = [], []
    for z in itertools.product(range(K), repeat=len(docs)):
        dk, kt = np.zeros((D, K)), np.zeros((K, T))
        for d, t, k in zip(docs, words, z):
            dk[d, k] += 1
            kt[k, t] += 1
        l = sum(dirmult(dk[d], alpha[d]) for d in range(D))
        l += dirmult(kt, beta).sum() if phi is None else sum(np.log(phi[k, t]) for k, t in zip(z, words))
        out.append((dk, kt))
        zs.append(l)
    p = np.exp(np.array(zs) - np.max(zs))
    return out, p / p.sum()


def compare(mon, mech, what, exact_states, p, visits, total, memory=12.0, **detail):
    """visits: {state key: count}; exact_states: keys in the order of p"""
    agg = {}
    for k, q in zip(exact_states, p):
        agg[k] = agg.get(k, 0.0) + q
    mon.count("states-compared", len(agg))
    odd = set(visits) - set(agg)
    mon.expect(not odd, mech + ":support", what + " visited a state that is not one", odd=len(odd))
    worst, where = 0.0, None
    for k, q in agg.items():
        f = visits.get(k, 0) / float(total)
        se = np.sqrt(max(q * (1 - q), 1.0 / total) * memory / total)
        if abs(f - q) / se > worst:
            worst, where = abs(f - q) / se, (f, q)
    mon.expect(worst <= 6.0, mech + ":frequencies", what + " does not visit states as often as the posterior says", worst=worst, seen_and_exact=where, **detail)


def key(a):
    return np.asarray(a, dtype=np.int64).tobytes()


def prior(case, rng, K):
    return np.full(K, case["a"]) if case["a"] != "asym" else np.array([0.2, 1.0, 2.5][:K])


def thin_memory(series):
    """autocorrelation allowance from the chain itself: integrated time of its slowest observed coordinate"""
    s = np.asarray(series, dtype=np.float64)
    s = s - s.mean(axis=0)
    tau = 1.0
    n = len(s)
    for j in range(s.shape[1]):
        v = (s[:, j] ** 2).mean()
        if v < 1e-12:
            continue
        t = 1.0
        for lag in range(1, min(400, n // 8)):
            c = (s[:-lag, j] * s[lag:, j]).mean() / v
            if c < 0.03:
                break
            t += 2 * c
        tau = max(tau, t)
    return tau


def summaries(dk, kt=None):
    """states x functions of a state that do not depend on the topics' labels, and the counts themselves"""
    dk = np.asarray(dk, dtype=np.float64)
    parts = [dk.reshape(len(dk), -1), np.einsum("sdk,sek->sde", dk, dk).reshape(len(dk), -1), (dk.sum(axis=1) ** 2).sum(axis=1)[:, None]]
    if kt is not None:
        kt = np.asarray(kt, dtype=np.float64)
        parts += [kt.reshape(len(kt), -1), np.einsum("skt,sku->stu", kt, kt).reshape(len(kt), -1), np.einsum("skt,sdk->sdt", kt, dk).reshape(len(kt), -1)]
    return np.concatenate(parts, axis=1)


def moments(mon, mech, what, exact_values, p, series, **detail):
    """long-run means of functions of the state against their exact expectations, with the chain's own autocorrelation"""
    n = len(series)
    mean = p.dot(exact_values)
    sd = np.sqrt(np.maximum(p.dot((exact_values - mean) ** 2), 0))
    worst = (0.0, None)
    for j in np.flatnonzero(sd > 1e-6):
        tau = max(1.0, thin_memory(series[:, j:j + 1]))
        z = abs(series[:, j].mean() - mean[j]) / (sd[j] * np.sqrt(1.3 * tau / n) + 1.0 / n)
        if z > worst[0]:
            worst = (z, (int(j), float(series[:, j].mean()), float(mean[j]), tau))
    mon.count("moments-compared", int((sd > 1e-6).sum()))
    mon.expect(worst[0] <= 6.0, mech + ":moments", what + " is biased: a long-run mean is not its expectation", worst=worst, **detail)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p17")
    models.reseed(case["i"] + 17 * case["seed"])
    np.random.seed(case["i"] + 3)
    K = case["K"]
    what = case["what"]
    mon.seen(what, K, case["a"], case["b"], case["i"])
    globals()["do_" + what](case, rng, K, mon)


def to_kt(w, z, K, T):
    kt = np.zeros((K, T), dtype=np.int64)
    np.add.at(kt, (z, w), 1)
    return kt


def do_lda(case, rng, K, mon):
    import sidetopics.model.lda_gibbs as g
    T = 3
    X = tiny(rng, [1, 2, 3][case["i"] % 3], T, 6 if K == 2 else 4)
    ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.int32)))
    alpha = prior(case, rng, K)
    beta = np.full(T, case["b"])
    if case["i"] // 20 % 2:
        beta = beta * np.array([0.3, 1.0, 3.0])
    states, p = lda_posterior(X, K, [alpha] * len(X), beta)
    keys = [key(dk) + key(kt) for dk, kt in states]
    model = g.newModelAtRandom(ds, K, alpha.copy(), beta.copy())
    q = g.newQueryState(ds, model)
    docs = np.repeat(np.arange(len(X)), X.sum(axis=1))
    plan = g.newTrainPlan(1, burnIn=0, thin=1)
    visits, series = {}, []
    n = case["sweeps"]
    for s in range(n + 50):
        model, q, _ = g.train(ds, model, q, plan)
        w, z = np.asarray(q.w_list), np.asarray(q.z_list).astype(np.int64)
        if s < 50:
            continue
        dk = np.zeros((len(X), K), dtype=np.int64)
        np.add.at(dk, (docs, z), 1)
        kt = to_kt(w, z, K, T)
        k = key(dk) + key(kt)
        visits[k] = visits.get(k, 0) + 1
        series.append(np.concatenate([dk.ravel(), kt.ravel()]))
        if s % 97 == 0:      # one sample's averages are those of its counts
            mon.close(g.topicDists(q), (dk + alpha) / (dk.sum(axis=1)[:, None] + alpha.sum()), "lda:theta", "topics are not those of the sample's counts")
            mon.close(g.wordDists(model), (kt + beta) / (kt.sum(axis=1)[:, None] + beta.sum()), "lda:phi", "word distributions are not those of the sample's counts")
            mon.expect(np.array_equal(np.bincount(w, minlength=T), X.sum(axis=0)), "lda:words", "words were lost")
    mon.count("sweeps", n)
    mon.count("chains")
    compare(mon, "lda", "the LDA sampler", keys, p, visits, n, memory=1.5 * thin_memory(series), X=X)
    S = np.array(series)
    DK = len(X) * K
    moments(mon, "lda", "the LDA sampler", summaries(np.array([dk for dk, _ in states]), np.array([kt for _, kt in states])), p,
            summaries(S[:, :DK].reshape(-1, len(X), K), S[:, DK:].reshape(-1, K, T)), X=X, alpha=alpha, beta=beta)


def do_lda_query(case, rng, K, mon):
    import sidetopics.model.lda_gibbs as g
    T = 4
    train = models.dataset(gen.corpus(rng, 12, T, "topical", np.int32))
    alpha = prior(case, rng, K)
    model = g.newModelAtRandom(train, K, alpha.copy(), 0.5)
    model, _, _ = g.train(train, model, g.newQueryState(train, model), g.newTrainPlan(30, burnIn=10, thin=3))
    phi = np.asarray(g.wordDists(model))
    X = tiny(rng, 2, T, 7 if K == 2 else 5)
    ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.int32)))
    n = case["sweeps"] * 5
    _, q = g.query(ds, model, g.newQueryState(ds, model), g.newTrainPlan(n, burnIn=50, thin=1))[:2]
    got = np.asarray(g.topicDists(q))
    for d in range(len(X)):
        states, p = lda_posterior(X[d:d + 1], K, [alpha], phi=phi)
        theta = np.array([(dk[0] + alpha) / (dk[0].sum() + alpha.sum()) for dk, _ in states])
        mean = p.dot(theta)
        sd = np.sqrt(np.maximum(p.dot((theta - mean) ** 2), 1e-12))
        se = sd * np.sqrt(40.0 / n) + 2e-5
        mon.expect((np.abs(got[d] - mean) <= 5 * se).all(), "lda_query:mean", "the topics inferred are not the posterior mean", got=got[d], exact=mean, se=se, X=X[d])
    mon.count("sweeps", n)
    mon.count("chains")


def mom_posterior(X, K, alpha, beta=None, phi=None):
    D, T = X.shape
    keys, ls = [], []
    for z in itertools.product(range(K), repeat=D):
        m = np.eye(K, dtype=np.int64)[list(z)]
        l = dirmult(m.sum(axis=0), alpha)
        if phi is None:
            l += dirmult(m.T.dot(X), np.ones(T) * beta).sum()
        else:
            l += sum((X[d] * np.log(phi[z[d]])).sum() for d in range(D))
        keys.append(m)
        ls.append(l)
    p = np.exp(np.array(ls) - max(ls))
    return keys, p / p.sum()


def do_mom(case, rng, K, mon):
    import sidetopics.model.mom_gibbs as g
    T, D = 3, 5 if K == 2 else 4
    X = tiny(rng, D, T, 10)
    ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.float64)))
    alpha = prior(case, rng, K)
    states, p = mom_posterior(X, K, alpha, case["b"])
    model = g.newModelAtRandom(ds, K, alpha.copy(), case["b"])
    q = g.newQueryState(ds, model, False)
    plan = g.newTrainPlan(1, burnIn=0, thinning=1, logFrequency=0)
    visits, series = {}, []
    n = case["sweeps"] // 2
    for s in range(n + 50):
        model, q, _ = g.train(ds, model, q, plan)
        m = np.asarray(q.topicDists)
        if s < 50:
            continue
        mon.expect(((m == 0) | (m == 1)).all() and (m.sum(axis=1) == 1).all(), "mom:assignment", "a sampled document is not in exactly one component")
        k = key(m)
        visits[k] = visits.get(k, 0) + 1
        series.append(m.ravel().copy())
    mon.count("sweeps", n)
    mon.count("chains")
    compare(mon, "mom", "the mixture's sampler", [key(s) for s in states], p, visits, n, memory=1.5 * thin_memory(series), X=X)
    moments(mon, "mom", "the mixture's sampler", summaries(np.array(states)), p, summaries(np.array(series).reshape(-1, D, K)), X=X, alpha=alpha)


def do_mom_query(case, rng, K, mon):
    import sidetopics.model.mom_gibbs as g
    T, D = 4, 4
    train = models.dataset(models.covering(rng, 12, T, "topical", np.float64))
    alpha = prior(case, rng, K)
    model = g.newModelAtRandom(train, K, alpha.copy(), 0.7)
    model, _, _ = g.train(train, model, g.newQueryState(train, model, False), g.newTrainPlan(5, burnIn=0, thinning=1, logFrequency=0))
    phi = np.asarray(g.wordDists(model))
    X = tiny(rng, D, T, 7)
    ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.float64)))
    n = case["sweeps"]
    _, q = g.query(ds, model, g.newQueryState(ds, model, False), g.newTrainPlan(n, burnIn=50, thinning=1, logFrequency=0))[:2]
    got = np.asarray(g.topicDists(q))
    states, p = mom_posterior(X, K, alpha, phi=phi)
    S = np.array(states, dtype=np.float64)
    mean = np.tensordot(p, S, 1)
    se = np.sqrt(np.maximum(mean * (1 - mean), 1e-6) * 30.0 / n) + 1.0 / n
    mon.expect((np.abs(got - mean) <= 5 * se).all(), "mom_query:mean", "the components inferred are not the posterior probabilities", got=got, exact=mean)
    # as many samples as planned: components that words do not tell apart
    flat = model._replace(wordDists=np.full((K, T), 1. / T), topicPrior=np.full(K, 5.))
    many = models.dataset(gen.ssp.csr_matrix(np.ones((30, T))))
    for its, burn, thin, taken in ((120, 115, 1, (4, 5)), (200, 100, 20, (4, 5)), (60, 20, 20, (1, 2)), (90, 87, 1, (2, 3))):
        plan = g.newTrainPlan(its, burnIn=burn, thinning=thin, logFrequency=0)
        got = np.asarray(g.topicDists(g.query(many, flat, g.newQueryState(many, flat, False), plan)[1]))
        fits = [S for S in taken if np.abs(got * S - np.rint(got * S)).max() < 1e-6]
        mon.expect(bool(fits), "mom_query:samples", "what is inferred is not the mean of the samples planned after burning in", plan=(its, burn, thin), got=got[:3])
    mon.count("sweeps", n)
    mon.count("chains")


def dmr_start(case, rng, K, X, F=2):
    import sidetopics.model.dmr as g
    feats = np.ones((len(X), F))
    feats[:, 1:] = rng.randint(0, 3, size=(len(X), F - 1))
    if case["i"] % 2 == 0:
        feats = gen.ssp.csr_matrix(feats)
    ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.uint16)), feats=feats)
    beta = np.full(X.shape[1], case["b"])
    model = g.newModelAtRandom(ds, K, vocabPrior=beta.copy())
    w = (rng.rand(K, F) - 0.5) * 2
    model.weights[:, :] = w
    alpha = np.exp(models.dense(feats).dot(w.T))
    return g, ds, model, beta, alpha


def do_dmr(case, rng, K, mon):
    X = tiny(rng, [1, 2, 3][case["i"] % 3], 3, 6 if K == 2 else 4)
    g, ds, model, beta, alpha = dmr_start(case, rng, K, X)
    states, p = lda_posterior(X, K, alpha, beta)
    n = case["sweeps"] * 5
    model, q, _ = g.train(ds, model, g.newQueryState(ds, model), g.newTrainPlan(n + 50, burnIn=50, thin=1, weightUpdateInterval=n + 100))
    S = np.asarray(model.n_dk_samples).astype(np.int64)
    mon.expect(S.shape == (len(X), K, n), "dmr:samples", "the number of samples kept is not what was planned", got=S.shape, want=n)
    mon.expect((S.sum(axis=1) == X.sum(axis=1)[:, None]).all(), "dmr:balance", "a sample's topic counts do not add up to the document's length")
    visits = {}
    for s in range(S.shape[2]):
        k = key(S[:, :, s])
        visits[k] = visits.get(k, 0) + 1
    compare(mon, "dmr", "the regression sampler", [key(dk) for dk, _ in states], p, visits, n,
            memory=1.5 * thin_memory(S.reshape(-1, S.shape[2]).T[:8000]), X=X)
    moments(mon, "dmr", "the regression sampler", summaries(np.array([dk for dk, _ in states])), p, summaries(np.moveaxis(S, 2, 0)), X=X, alpha=alpha)
    want = ((S + alpha[:, :, None]) / (X.sum(axis=1)[:, None] + alpha.sum(axis=1)[:, None])[:, :, None]).mean(axis=2)
    mon.close(g.topicDists(q), want, "dmr:theta", "topics are not the mean over the samples", rtol=1e-6)
    kt = np.array([kt for _, kt in states])
    phi = np.tensordot(p, (kt + beta) / (kt.sum(axis=2)[:, :, None] + beta.sum()), 1)
    got = np.asarray(g.wordDists(model))
    mon.expect((np.abs(got - phi) <= 0.03 + 8.0 / np.sqrt(n)).all(), "dmr:phi", "word distributions are not the posterior mean", got=got, exact=phi)
    mon.count("sweeps", n)
    mon.count("chains")


def do_dmr_query(case, rng, K, mon):
    train = tiny(rng, 10, 4, 80)
    g, ds, model, beta, _ = dmr_start(case, rng, K, train)
    model, _, _ = g.train(ds, model, g.newQueryState(ds, model), g.newTrainPlan(30, burnIn=10, thin=2, weightUpdateInterval=1000))
    phi = np.asarray(g.wordDists(model))
    w = np.array(model.weights)
    X = tiny(rng, 3, 4, 8 if K == 2 else 6)
    feats = np.ones((3, 2))
    feats[:, 1] = [0, 1, 3]
    q_ds = models.dataset(gen.ssp.csr_matrix(X.astype(np.uint16)), feats=feats)
    alpha = np.exp(feats.dot(w.T))
    n = case["sweeps"] * 5
    _, q = g.query(q_ds, model, g.newQueryState(q_ds, model), g.newTrainPlan(n + 50, burnIn=50, thin=1))[:2]
    got = np.asarray(g.topicDists(q))
    for d in range(3):
        states, p = lda_posterior(X[d:d + 1], K, [alpha[d]], phi=phi)
        theta = np.array([(dk[0] + alpha[d]) / (dk[0].sum() + alpha[d].sum()) for dk, _ in states])
        mean = p.dot(theta)
        sd = np.sqrt(np.maximum(p.dot((theta - mean) ** 2), 1e-12))
        mon.expect((np.abs(got[d] - mean) <= 5 * (sd * np.sqrt(40.0 / n) + 2e-5)).all(), "dmr_query:mean", "the topics inferred are not the posterior mean",
                   got=got[d], exact=mean, X=X[d])
    mon.close(model.weights, w, "dmr_query:weights", "inference changed the regression weights", rtol=0, atol=0)
    mon.count("sweeps", n)
    mon.count("chains")


def do_balance(case, rng, K, mon):
    """larger corpora: every sample is an assignment of the same tokens"""
    import sidetopics.model.lda_gibbs as g
    T = 30
    K = [3, 12, 255][case["i"] // 10 % 3]
    for kind in gen.CORPUS_KINDS:
        X = gen.corpus(rng, 20, T, kind, np.int32)
        ds = models.dataset(X)
        alpha = 0.05 + rng.rand(K)
        beta = 0.05 + rng.rand(T)
        model = g.newModelAtRandom(ds, K, alpha.copy(), beta.copy())
        q = g.newQueryState(ds, model)
        lens = np.asarray(X.sum(axis=1)).ravel()
        docs = np.repeat(np.arange(20), lens)
        dsums, ksums = np.zeros((20, K)), np.zeros((K, T))
        for s in range(6):
            model, q, _ = g.train(ds, model, q, g.newTrainPlan(1, burnIn=0, thin=1))
            w, z = np.asarray(q.w_list), np.asarray(q.z_list).astype(np.int64)
            back = np.zeros((20, T), dtype=np.int64)
            np.add.at(back, (docs, w), 1)
            mon.expect((back == models.dense(X)).all(), "balance:tokens", "the sampler's tokens are not the documents' words")
            mon.expect((z < K).all(), "balance:topics", "a token is assigned to a topic that does not exist")
            dk, kt = np.zeros((20, K)), to_kt(w, z, K, T)
            np.add.at(dk, (docs, z), 1)
            mon.close(g.topicDists(q), (dk + alpha) / (lens[:, None] + alpha.sum()), "balance:theta", "topics are not those of the sample's counts")
            mon.close(g.wordDists(model), (kt + beta) / (kt.sum(axis=1)[:, None] + beta.sum()), "balance:phi", "word distributions are not those of the sample's counts")
            mon.count("balanced")
        # how many samples a plan takes, and what they are the mean of
        its, burn, thin = int(rng.randint(1, 12)), int(rng.randint(0, 5)), int(rng.randint(1, 4))
        model = g.newModelAtRandom(ds, K, alpha.copy(), beta.copy())
        q = g.newQueryState(ds, model)
        plan = g.newTrainPlan(its, burnIn=burn, thin=thin)
        model, q, _ = g.train(ds, model, q, plan)
        mon.expect(model.numSamples == its // min(thin, its) and q.numSamples == model.numSamples, "balance:samples", "the number of samples is not what was planned",
                   got=model.numSamples, its=its, burn=burn, thin=thin)
        mon.close(np.asarray(q.topicSum).sum(axis=1), np.full(20, float(model.numSamples)), "balance:sum", "the samples' topics do not add up to their number", rtol=1e-9)


def do_dmr_balance(case, rng, K, mon):
    for kind in ("topical", "skewed", "wide", "binary"):
        X = models.dense(gen.corpus(rng, 15, 12, kind, np.int64))
        g, ds, model, beta, alpha = dmr_start(case, rng, K, X, F=3)
        its, thin = int(rng.randint(4, 20)), int(rng.randint(1, 4))
        burn = int(rng.randint(0, 3))
        model, q, _ = g.train(ds, model, g.newQueryState(ds, model), g.newTrainPlan(its, burnIn=burn, thin=thin, weightUpdateInterval=[2, 5, 100][case["i"] % 3]))
        S = np.asarray(model.n_dk_samples).astype(np.int64)
        used = model.numSamples
        mon.expect(used >= 1, "dmr:samples", "no samples were taken", its=its, burn=burn, thin=thin)
        if used < 1:
            continue
        mon.expect(used == (its - burn) // min(thin, its - burn) == S.shape[2], "dmr:samples", "the number of samples is not what was planned", its=its, burn=burn, thin=thin, got=used)
        lens = X.sum(axis=1)
        theta_sum = np.asarray(g.topicDists(q)) * used
        if case["i"] % 3 == 2:   # one set of weights throughout
            want = ((S[:, :, :used] + alpha[:, :, None]) / (lens[:, None] + alpha.sum(axis=1)[:, None])[:, :, None]).sum(axis=2)
            mon.close(theta_sum, want, "dmr:theta", "topics are not the mean over the samples", rtol=1e-6)
        mon.expect((S[:, :, :used].sum(axis=1) == X.sum(axis=1)[:, None]).all(), "dmr:balance", "a sample's topic counts do not add up to the document's length")
        mon.expect(np.isfinite(model.weights).all(), "dmr:weights", "regression weights are not finite")
        models.is_distribution(mon, g.topicDists(q), (15, K), "dmr:topics", "topics")
        models.is_distribution(mon, g.wordDists(model), (K, 12), "dmr:words", "word distributions")
        mon.count("balanced")


def do_gradient(case, rng, K, mon):
    """the regression's gradient is that of its objective, the objective is the expected log joint, and updates improve it"""
    import sidetopics.model.dmr as g
    for rep in range(6):
        D, F, S = [3, 20, 1][rep % 3], [1, 2, 6][rep // 2], [1, 4][rep % 2]
        X = (rng.rand(D, F) < 0.6) * rng.randint(1, 3, size=(D, F)).astype(np.float64)
        X[:, 0] = 1
        if (case["i"] // 10 + rep) % 2:
            X = gen.ssp.csr_matrix(X)
        n = rng.randint(0, 12, size=(D, K, S + 2)).astype(np.uint16)
        W = (rng.rand(K, F) - 0.5) * 2
        sigma = [0.01, 1.0, 5.0][rep % 3]
        k = int(rng.randint(K))
        w = (rng.rand(F) - 0.5) * 2
        before = W.copy()
        f = lambda v: float(g.objective(v, k, W, S, n, X, sigma))
        got = np.asarray(g.gradient(w, k, W, S, n, X, sigma), dtype=np.float64).ravel()
        h = 1e-5
        fd = np.array([(f(w + h * e) - f(w - h * e)) / (2 * h) for e in np.eye(F)])
        mon.close(got, fd, "gradient", "the gradient is not that of the objective", rtol=2e-4, atol=2e-3)
        full = before.copy()
        full[k] = w
        alpha = np.exp(models.dense(X).dot(full.T))
        used = n[:, :, :S].astype(np.float64)
        want = sum(fns.gammaln(alpha[d].sum()) - np.mean([fns.gammaln(alpha[d].sum() + used[d, :, s].sum()) for s in range(S)])
                   + np.mean([fns.gammaln(alpha[d, k] + used[d, k, s]) for s in range(S)]) - fns.gammaln(alpha[d, k]) for d in range(D))
        want += -0.5 / sigma * (w ** 2).sum()
        other = w * 0.5 + 0.1      # up to what does not depend on the weights
        a2 = full.copy()
        a2[k] = other
        alpha2 = np.exp(models.dense(X).dot(a2.T))
        want2 = sum(fns.gammaln(alpha2[d].sum()) - np.mean([fns.gammaln(alpha2[d].sum() + used[d, :, s].sum()) for s in range(S)])
                    + np.mean([fns.gammaln(alpha2[d, k] + used[d, k, s]) for s in range(S)]) - fns.gammaln(alpha2[d, k]) for d in range(D))
        want2 += -0.5 / sigma * (other ** 2).sum()
        mon.close(f(other) - f(w), want - want2, "objective", "the objective is not the expected log joint", rtol=1e-6, atol=1e-6)
        mon.close(W, before, "objective:pure", "evaluating the objective changed the weights", rtol=0, atol=0)
        new = W.copy()
        g.updateWeights(n, S, X, new)
        mon.expect(all(g.objective(new[j], j, W, S, n, X, g.Sigma) <= g.objective(W[j], j, W, S, n, X, g.Sigma) + 1e-6 for j in range(K)),
                   "update:improves", "an update of the weights makes the objective worse")
        mon.count("gradients")
