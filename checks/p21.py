"""Models of correlated topics, features and links report distributions, and the likelihood and answers their definitions give."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, quiet, Inconclusive

META = dict(rule="distinct (family, corpus, topics, plan) trained, whose distributions, likelihoods, bounds and answers for documents were compared with their definitions",
            min_events={"trainings": 150, "likelihoods": 500, "permutations": 100, "optima": 50, "strong": 100},
            assumptions=["families which cannot be trained at all at the pinned commit (ctm_bohning_fast, mtm, mtm2, rtm, self_lda, stm_uv_vec_y_bohning, the online variant) are not covered"])
NAMES = [n for n in families.FAMILIES]
BOHNING = ("ctm_bohning", "ctm_grad_arb", "stm_yv_bohning", "stm_uv_vecy_bohning")


def cases(tier, seed):
    n = 396 if tier == "quick" else 1980
    for i in range(n):
        yield dict(i=i, seed=seed, name=NAMES[i % 9], corpus=gen.CORPUS_KINDS[(i // 9) % 8], K=[3, 2, 5][(i // 4) % 3], docs=[40, 25][(i // 5) % 2], words=[25, 60][(i // 7) % 2],
                   iterations=[11, 31][(i // 6) % 2], log=[0, 1, 5][(i // 9) % 3], fast=bool((i // 9) % 2), feats=["dense", "sparse"][(i // 3) % 2])


def softmax(m):
    e = np.exp(m - m.max(axis=1)[:, None])
    return e / e.sum(axis=1)[:, None]


def topics_of(name, q):
    """the definition: what every likelihood of the family mixes its words with"""
    if name == "lro_vb":
        import sidetopics.model.lda_vb_python as lda
        return np.asarray(lda.topicDists(q.ldaQuery))
    if name == "dmr":
        return np.asarray(families.module(name).topicDists(q))
    return softmax(np.asarray(q.outMeans if name == "mtm3" else q.means))


def likelihood(name, X, theta, phi, q, links):
    X = models.dense(X).astype(np.float64)
    mix = theta.dot(phi)
    ll = (X[X > 0] * np.log(mix[X > 0])).sum()
    if name == "mtm3":
        L = models.dense(links).astype(np.float64)
        to = softmax(np.asarray(q.inMeans).T)    # each topic's distribution over the documents
        p = theta.dot(to)
        ll += (L[L > 0] * np.log(p[L > 0])).sum()
    return ll


def rows(state, order, n):
    """the state of the documents in another order"""
    vals = {}
    for f in state._fields:
        v = getattr(state, f)
        vals[f] = v[order].copy() if isinstance(v, np.ndarray) and v.ndim and len(v) == n else v
    return type(state)(**vals)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p21")
    name, K, D, T = case["name"], case["K"], case["docs"], case["words"]
    m = families.module(name)
    X = models.covering(rng, D, T, case["corpus"], np.float64)
    F = np.hstack([np.ones((D, 1)), (rng.rand(D, 3) < .5) * 1.0])
    if name == "dmr":
        feats = F
    else:
        feats = ssp.csr_matrix(F)
    L = (rng.rand(D, D) < .15) * 1.0
    L[np.arange(D), (np.arange(D) + 1) % D] = 1.0
    L = ssp.csr_matrix(L)
    pick = lambda idx: families.data(name, X[idx], feats=feats[idx] if name in families.FEATS else None, links=ssp.csr_matrix(L[idx][:, idx]) if name in families.LINKS else None)
    everything = np.arange(D)
    ds = pick(everything)
    models.reseed(case["i"])
    extra = {} if name == "dmr" else dict(fastButInaccurate=case["fast"] and name.startswith("ctm"))
    with quiet():
        model, q = families.start(name, ds, K)
        out = m.train(ds, model, q, families.plan(name, case["iterations"], 0 if name == "dmr" else case["log"], **extra))
    model, q = out[0], out[1]
    mon.count("trainings")
    mon.seen(name, case["corpus"], K, D, T, case["iterations"], case["log"], case["fast"], case["feats"])

    # what is learnt are distributions
    phi = families.word_dists(name, model)
    models.is_distribution(mon, phi, (K, T), "words:" + name, "word distributions", 1e-9, 0.0)
    theta = topics_of(name, q)
    models.is_distribution(mon, theta, (D, K), "topics:" + name, "topic distributions", 1e-9, 0.0)
    if hasattr(m, "topicDists"):
        mon.close(m.topicDists(q), theta, "topicDists:" + name, "the topic distributions reported are not those of the model", rtol=1e-9)
    want = likelihood(name, X, theta, phi, q, L)
    got = m.log_likelihood(ds, model, q)
    mon.close(got, want, "likelihood:" + name, "the log-likelihood is not that of its definition", rtol=1e-8)
    mon.count("likelihoods")
    flat = likelihood(name, X, np.full((D, K), 1.0 / K), phi, q, L) if name != "mtm3" else None
    if hasattr(m, "var_bound") and name != "dmr":
        with quiet():
            bound = m.var_bound(ds, model, q)
        mon.expect(np.all(np.isfinite(bound)), "bound:" + name, "the bound is not finite", got=bound)
        report = out[2]
        if case["log"] and (case["iterations"] - 1) % case["log"] == 0 and name != "lro_vb" and len(report[0]) and report[0][-1] == case["iterations"] - 1:
            mon.close(report[1][-1], bound, "reported-bound:" + name, "the bound reported for the last iteration is not the bound", rtol=1e-7)
            mon.close(report[2][-1], got, "reported-likelihood:" + name, "the likelihood reported for the last iteration is not the likelihood", rtol=1e-7)
            mon.expect(np.array_equal(report[0], np.arange(0, case["iterations"], case["log"])), "reported-iterations:" + name, "the report does not list the iterations that were planned")
            mon.count("reports")

    # answers for documents, the same whatever their order, leave the model alone
    held = models.snapshot(model)
    sub = rng.permutation(D)[:15]
    plan = families.plan(name, 40, 0, **extra)
    some = pick(sub)
    models.reseed(case["i"] + 1)
    with quiet():
        fresh = m.newQueryState(some, model)
        first = rows(fresh, np.arange(15), 15)
        answer = m.query(some, model, fresh, plan)
    mon.expect(not models.changed(held, models.snapshot(model)) and not models.changed(held, models.snapshot(answer[0])), "model-changed:" + name, "inference changed the model")
    t2 = topics_of(name, answer[1])
    models.is_distribution(mon, t2, (15, K), "query-topics:" + name, "inferred topic distributions", 1e-9, 0.0)
    with quiet():
        got = m.log_likelihood(some, model, answer[1])
    mon.close(got, likelihood(name, X[sub], t2, phi, answer[1], L[sub][:, sub]), "query-likelihood:" + name, "the log-likelihood of new documents is not that of its definition", rtol=1e-8)
    mon.count("likelihoods")
    if name not in ("dmr", "lro_vb", "mtm3"):
        order = rng.permutation(15)
        with quiet():
            other = m.query(pick(sub[order]), model, rows(first, order, 15), plan)
        mon.close(topics_of(name, other[1]), t2[order], "order:" + name, "documents in another order have other topics", rtol=1e-6, atol=1e-9)
        mon.count("permutations")

    # the training documents, forgotten and inferred anew, are explained about as well
    if flat is not None and name != "lro_vb":
        with quiet():
            back = m.query(ds, model, m.newQueryState(ds, model), families.plan(name, 60, 0, **extra))[1]
            again = m.log_likelihood(ds, model, back)
        mon.expect(np.isfinite(again) and (again >= flat or want - flat < 0.02 * abs(flat)), "explains:" + name, "inferred topics explain the training documents less well than equal ones", got=again, flat=flat, trained=want)
        mon.count("likelihoods")
        if name in BOHNING and not extra["fastButInaccurate"]:
            optimum(case, mon, m, ds, X, F, model, back, phi, families.plan(name, 100, 0))
            # another prior than those which training arrives at
            B = rng.randn(K, K)
            other = {"sigT": B.dot(B.T) / K + 0.3 * np.eye(K)}
            if hasattr(model, "topicMean"):
                other["topicMean"] = rng.randn(K)
            optimum(case, mon, m, ds, X, F, model._replace(**other), back, phi, families.plan(name, 100, 0))
        if name != "dmr":
            # a prior that outweighs any words is all there is to say
            strong = model._replace(sigT=np.eye(K) * 1e-9)
            if name.startswith("ctm"):
                strong = strong._replace(topicMean=rng.randn(K))
                mu = np.tile(strong.topicMean, (D, 1))
            else:
                strong = strong._replace(A=rng.randn(*np.shape(model.A)))
                mu = F.dot(strong.A.T)
            with quiet():
                t3 = topics_of(name, m.query(ds, strong, m.newQueryState(ds, strong), families.plan(name, 40, 0, **extra))[1])
            mon.close(t3, softmax(mu), "prior:" + name, "topics differ from those of a prior which outweighs the words", rtol=0, atol=1e-4)
            mon.count("strong")


def optimum(case, mon, m, ds, X, F, model, q, phi, plan):
    """inference, carried on, ends where the gradient of log p(words | means) + log N(means) is zero"""
    name = case["name"]
    X = models.dense(X)
    n = X.sum(axis=1)
    prec = np.linalg.inv(np.asarray(model.sigT))
    mu = np.asarray(model.topicMean)[None, :] if hasattr(model, "topicMean") else F.dot(np.asarray(model.A).T)

    def gradient(means):
        th = softmax(means)
        V = th * ((X / th.dot(phi)).dot(phi.T))
        return V - n[:, None] * th - (means - mu).dot(prec)

    def joint(means):
        d = means - mu
        return (X * np.log(softmax(means).dot(phi))).sum() - 0.5 * (d.dot(prec) * d).sum()
    from scipy.optimize import minimize
    shape = np.asarray(q.means).shape
    start = np.abs(gradient(mu + np.zeros(shape))).max()
    got = [joint(np.asarray(q.means))]
    for _ in range(4):
        with quiet():
            q = m.query(ds, model, q, plan)[1]
        got.append(joint(np.asarray(q.means)))
    mon.expect(all(b >= a - 1e-7 * abs(a) for a, b in zip(got, got[1:])), "ascent:" + name, "inferring for longer makes the means less likely", joint=got)
    x = np.asarray(q.means).copy()
    for _ in range(5):
        r = minimize(lambda v: -joint(v.reshape(shape)), x.ravel(), jac=lambda v: -gradient(v.reshape(shape)).ravel(), method="L-BFGS-B", options=dict(maxiter=3000, maxfun=9000, ftol=1e-15, gtol=1e-9, maxcor=30))
        x = r.x.reshape(shape)
    best = joint(x)
    if np.abs(gradient(x)).max() > 1e-4 * max(1.0, start):
        raise Inconclusive("the optimum was not found")
    at = type(q)(**{f: (x.copy() if f == "means" else getattr(q, f)) for f in q._fields})
    with quiet():
        stays = np.asarray(m.query(ds, model, at, plan)[1].means)
    mon.close(joint(stays), best, "optimum:" + name, "inference leaves the optimum of the means' posterior", rtol=1e-6)
    mon.close(softmax(stays), softmax(x), "optimum-topics:" + name, "inference leaves the optimum of the means' posterior", rtol=0, atol=2e-3)
    mon.count("optima")
