"""Each iteration of variational learning is the update its method defines: a plain re-implementation runs beside."""
import numpy as np
import scipy.sparse as ssp
from scipy.special import digamma
from vlib import families, gen, models
from vlib.core import rng_of, quiet

META = dict(rule="distinct (kind, corpus, storage, priors, topics, batch size, schedule) whose every update was compared with a re-implementation",
            min_events={"updates": 2000, "parameters": 4000, "inferences": 500},
            assumptions=["priors and topics are moderate, so that neither side rounds to nothing"])
KINDS = ["vb", "svb", "mom", "svb"]
LOGISTIC = ["ctm", "stm_yv", "ctm_bohning", "stm_uv_vecy_bohning", "ctm_grad_arb"]   # whose topics are a soft-max of what is learnt of documents


def cases(tier, seed):
    n = 960 if tier == "quick" else 6400
    for i in range(n):
        yield dict(i=i, seed=seed, what=KINDS[i % 4], corpus=gen.CORPUS_KINDS[(i // 4) % 8], layout=["sorted", "shuffled", "zeros"][(i // 5) % 3],
                   docs=[9, 25, 4, 14][(i // 8) % 4], words=[11, 30, 6][(i // 3) % 3], K=[3, 2, 6][(i // 7) % 3], prior=["scalar", "vector", "none"][(i // 9) % 3],
                   dtype=["float64", "int32"][(i // 11) % 2], batch=[1, 3, 4, 14, 40][(i // 2) % 5], delay=[0.6, 0.0, 8.0, 1.0][(i // 6) % 4], forget=[0.6, 0.9, 0.5][(i // 10) % 3])
    for i in range(n // 3):
        yield dict(i=i, seed=seed, what=LOGISTIC[i % 5], corpus=gen.CORPUS_KINDS[(i // 5) % 8], layout=["sorted", "shuffled", "zeros"][(i // 2) % 3],
                   docs=[9, 25, 5, 14][(i // 8) % 4], words=[11, 30, 7][(i // 3) % 3], K=[3, 2, 6][(i // 7) % 3], before=[1, 0, 3][(i // 4) % 3], feats=["dense", "sparse"][(i // 11) % 2])


def soft(x, axis):
    x = np.exp(x - x.max(axis=axis, keepdims=True))
    return x / x.sum(axis=axis, keepdims=True)


class VB:
    """Latent Dirichlet allocation by variational Bayes: Blei et al. 2003, and Hoffman et al. 2010 from mini-batches"""

    def __init__(self, W, alpha, eta, lam, gamma):
        self.W, self.alpha, self.eta, self.lam = W, alpha, eta, lam.copy()
        self.n = W.sum(axis=1)
        self.share = (gamma - alpha) / self.n[:, None]

    def assign(self, d, elog):
        z = soft(elog + digamma(self.alpha + self.n[d] * self.share[d])[:, None], 0)   # K x T
        self.share[d] = (z * self.W[d]).sum(axis=1) / self.n[d]
        return z * self.W[d]

    def elog(self):
        return digamma(self.lam) - digamma(self.lam.sum(axis=1))[:, None]

    def sweep(self, learn=True):
        elog, new = self.elog(), np.zeros(self.lam.shape)
        for d in range(len(self.W)):
            new += self.assign(d, elog)
        if learn:
            self.lam = self.eta + new

    def batches(self, iterations, size, delay, forget):
        d = -1
        D = len(self.W)
        for t in range(iterations * (D // size + 1)):
            elog, new = self.elog(), np.zeros(self.lam.shape)
            for _ in range(size):
                d = (d + 1) % D
                new += self.assign(d, elog)
            rho = max(1.0, t + delay) ** -forget
            self.lam = (1 - rho) * self.lam + rho * (self.eta + new * D / size)

    def gamma(self):
        return self.alpha + self.n[:, None] * self.share


def run_case(case, mon):
    if case["what"] in LOGISTIC:
        return logistic(case, mon)
    rng = rng_of(case["i"], case["seed"], "p29")
    W = models.dense(models.covering(rng, case["docs"], case["words"], case["corpus"], np.float64)).astype(float)
    X = ssp.csr_matrix(W.astype(case["dtype"]))
    if case["layout"] == "shuffled":
        X = gen.shuffled_indices(rng, X)
    elif case["layout"] == "zeros":
        X = gen.with_explicit_zeros(rng, X)
    K, T, D = case["K"], W.shape[1], W.shape[0]
    kind = "MOM_VB" if case["what"] == "mom" else "LDA_VB_PYTHON_IMPL"
    m = models.module(kind)
    kw = {}
    if case["prior"] != "none":
        kw["topicPrior"] = float(rng.uniform(.2, 3)) if case["prior"] == "scalar" else rng.uniform(.2, 3, size=K)
        kw["vocabPrior"] = float(rng.uniform(.05, 1)) if case["prior"] == "scalar" or rng.rand() < .5 else rng.uniform(.05, 1, size=T)
    ds = models.dataset(X)
    np.random.seed(case["i"])
    with quiet():
        model = m.newModelAtRandom(ds, K, dtype=np.float64, **kw)
        q = m.newQueryState(ds, model, False)
    if "topicPrior" in kw:
        mon.close(np.broadcast_to(model.topicPrior, (K,)), np.broadcast_to(kw["topicPrior"], (K,)), "prior", "the prior over topics is not the one given", rtol=1e-12)
        mon.close(np.broadcast_to(model.vocabPrior, (T,)), np.broadcast_to(kw["vocabPrior"], (T,)), "prior", "the prior over words is not the one given", rtol=1e-12)
    mon.seen(case["what"], case["corpus"], case["layout"], D, T, K, case["prior"], case["dtype"], case["batch"] if case["what"] == "svb" else 0, case["delay"], case["forget"])
    (mixture if case["what"] == "mom" else admixture)(case, mon, rng, m, ds, W, model, q)


def admixture(case, mon, rng, m, ds, W, model, q):
    alpha = np.array(np.broadcast_to(model.topicPrior, (case["K"],)), float)
    eta = np.array(np.broadcast_to(model.vocabPrior, (W.shape[1],)), float)
    twin = VB(W, alpha, eta, np.array(model.wordDists), np.array(q.topicDists))
    tol = dict(rtol=1e-6, atol=1e-9)
    for step, iterations in enumerate([1, 1, int(rng.randint(2, 5))]):
        with quiet():
            if case["what"] == "vb":
                plan = m.newTrainPlan(iterations=iterations, logFrequency=int(rng.randint(0, 3)))
            else:
                plan = m.newTrainPlan(iterations=iterations, batchSize=case["batch"], rate_delay=case["delay"], forgetting_rate=case["forget"])
            model, q = m.train(ds, model, q, plan)[:2]
        if case["what"] == "vb":
            for _ in range(iterations):
                twin.sweep()
        else:
            twin.batches(iterations, case["batch"], case["delay"], case["forget"])
        mon.count("updates", iterations)
        mon.count("parameters", 2)
        a = mon.close(np.asarray(model.wordDists), twin.lam, "words:" + case["what"], "what is learnt of words is not what the updates give", step=step, **tol)
        b = mon.close(np.asarray(q.topicDists), twin.gamma(), "topics:" + case["what"], "what is learnt of documents is not what the updates give", step=step, **tol)
        if not (a and b):
            return
        p = np.asarray(m.wordDists(model))
        mon.close(p, twin.lam / twin.lam.sum(axis=1)[:, None], "read:words", "the word distributions are not the means of what was learnt", **tol)
        g = twin.gamma()
        mon.close(np.asarray(m.topicDists(q)), g / g.sum(axis=1)[:, None], "read:topics", "the topic distributions are not the means of what was learnt", **tol)
    # documents not learnt from
    V = models.dense(models.covering(rng, max(3, len(W) // 2), W.shape[1], case["corpus"], np.float64)).astype(float)
    ds2 = models.dataset(ssp.csr_matrix(V.astype(case["dtype"])))
    with quiet():
        q2 = m.newQueryState(ds2, model, False)
    ask = VB(V, alpha, eta, np.array(model.wordDists), np.array(q2.topicDists))
    for iterations in (1, 3):
        with quiet():
            model, q2 = m.query(ds2, model, q2, m.newTrainPlan(iterations=iterations, logFrequency=0))[:2]
        for _ in range(iterations):
            ask.sweep(learn=False)
        mon.count("inferences")
        if not mon.close(np.asarray(q2.topicDists), ask.gamma(), "inferred", "what is inferred of documents is not what the updates give", **tol):
            return


def mixture(case, mon, rng, m, ds, W, model, q):
    """mixture of multinomials by variational Bayes, with Dirichlet posteriors of topics and words"""
    alpha = np.array(np.broadcast_to(model.topicPrior, (case["K"],)), float)
    eta = np.array(np.broadcast_to(model.vocabPrior, (W.shape[1],)), float)
    a, lam = np.array(model.corpusTopicDistParam), np.array(model.wordDistParam)

    def answer(V):
        return soft(V @ (digamma(lam) - digamma(lam.sum(axis=1))[:, None]).T + digamma(a) - digamma(a.sum()), 1)
    tol = dict(rtol=1e-6, atol=1e-9)
    before = np.array(q.topicDists)
    for step in range(4):
        with quiet():
            model, q = m.train(ds, model, q, m.newTrainPlan(iterations=1, logFrequency=int(rng.randint(0, 2))))[:2]
        r = answer(W)
        if np.abs(r - before).sum() < 0.02 * r.size:    # it may have stopped
            break
        a, lam, before = alpha + r.sum(axis=0), eta + r.T @ W, r
        mon.count("updates")
        mon.count("parameters", 3)
        ok = mon.close(np.asarray(q.topicDists), r, "topics:mom", "the topics of documents are not what the update gives", step=step, **tol) \
            and mon.close(np.asarray(model.wordDistParam), lam, "words:mom", "what is learnt of words is not what the update gives", step=step, **tol) \
            and mon.close(np.asarray(model.corpusTopicDistParam), a, "weights:mom", "the weights of topics are not what the update gives", step=step, **tol)
        if not ok:
            return
        mon.close(np.asarray(m.wordDists(model)), lam / lam.sum(axis=1)[:, None], "read:words", "the word distributions are not the means of what was learnt", **tol)
        mon.close(np.asarray(m.corpusTopicDist(model)), a / a.sum(), "read:weights", "the distribution over topics is not the mean of what was learnt", **tol)
    a, lam = np.array(model.corpusTopicDistParam), np.array(model.wordDistParam)
    V = models.dense(models.covering(rng, max(3, len(W) // 2), W.shape[1], case["corpus"], np.float64)).astype(float)
    ds2 = models.dataset(ssp.csr_matrix(V.astype(case["dtype"])))
    for iterations in (1, 4):
        with quiet():
            q2 = m.query(ds2, model, m.newQueryState(ds2, model, False), m.newTrainPlan(iterations=iterations, logFrequency=0))[1]
        mon.count("inferences")
        mon.close(np.asarray(q2.topicDists), answer(V), "inferred:mom", "the topics inferred are not what the update gives", **tol)


def logistic(case, mon):
    """models whose documents have a normal distribution before a soft-max: the words of topics, given the topics of the
    iteration before, and the regression of these on features"""
    name = case["what"]
    rng = rng_of(case["i"], case["seed"], "p29", name)
    W = models.dense(models.covering(rng, case["docs"], case["words"], case["corpus"], np.float64)).astype(float)
    X = ssp.csr_matrix(W)
    if case["layout"] == "shuffled":
        X = gen.shuffled_indices(rng, X)
    elif case["layout"] == "zeros":
        X = gen.with_explicit_zeros(rng, X)
    D, K, F = len(W), case["K"], 4
    feats = None
    if name in families.FEATS:
        feats = np.where(rng.rand(D, F) < 0.6, rng.rand(D, F), 0.)
        feats[:, 0] = 1.
    m = families.module(name)
    ds = families.data(name, X, feats=None if feats is None else ssp.csr_matrix(feats))
    mon.seen(name, case["corpus"], case["layout"], D, W.shape[1], K, case["before"])
    np.random.seed(case["i"])
    with quiet():
        model, q = families.start(name, ds, K)
        if case["before"]:
            model, q = m.train(ds, model, q, families.plan(name, case["before"]))[:2]
    for step in range(3):
        old = {f: np.array(v) for f, v in list(zip(model._fields, model)) + list(zip(q._fields, q)) if isinstance(v, np.ndarray)}
        words = np.array(families.word_dists(name, model))
        prior = np.array(model.vocabPrior)
        with quiet():
            model, q = m.train(ds, model, q, families.plan(name, 1))[:2]
        e = np.exp(old["means"] - old["means"].max(axis=1)[:, None])
        with np.errstate(all="ignore"):
            ratio = np.where(W > 0, W / (e @ words), 0)
        if not np.isfinite(ratio).all():
            return
        want = words * (e.T @ ratio) + prior
        want /= want.sum(axis=1)[:, None]
        mon.count("updates")
        mon.count("parameters")
        if not mon.close(np.asarray(families.word_dists(name, model)), want, "words:" + name, "the words of topics are not those their shares in the documents give", rtol=1e-6, atol=1e-9, step=step):
            return
        if name in ("ctm_bohning", "ctm_grad_arb"):
            mon.count("parameters")
            mon.close(np.asarray(model.topicMean), old["means"].mean(axis=0), "mean:" + name, "the mean over documents is not their mean", rtol=1e-7, atol=1e-10, step=step)
        if feats is not None:
            V, Y, A = (np.asarray(getattr(model, f)) for f in "VYA")
            fv, lfv = model.fv, model.lfv
            spread = np.linalg.inv(np.eye(len(V)) / lfv + V @ V.T / fv)
            mon.count("parameters", 2)
            mon.close(Y, old["A"] @ V.T @ spread / fv, "latent:" + name, "the latent factors are not those the weights of features give", rtol=1e-5, atol=1e-7, step=step)
            ridge = (Y @ V / fv + (feats.T @ old["means"]).T) @ np.linalg.inv(feats.T @ feats + np.eye(F) / fv)
            mon.close(A, ridge, "regression:" + name, "the weights of features are not the regression on the topics of documents", rtol=1e-5, atol=1e-7, step=step)
