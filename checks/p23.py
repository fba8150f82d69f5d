"""Copies of models: equal to what they copy, and independent of it ever after."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, quiet

META = dict(rule="distinct (model, prior, corpus, history) of models and copies whose independence was observed after every operation",
            min_events={"copies": 300, "probes": 2000, "steps": 300, "answers": 150},
            assumptions=["the inferred state a facade keeps for resuming is documented to be shared by its copies, and is not compared"])
NAMES = list(models.KINDS) + list(families.FAMILIES) + ["tfidf", "similar"]


def cases(tier, seed):
    n = 765 if tier == "quick" else 3060
    for i in range(n):
        yield dict(i=i, seed=seed, what="state", name=NAMES[i % 17], corpus=gen.CORPUS_KINDS[(i // 17) % 8], K=[3, 2, 5][(i // 5) % 3],
                   prior=["scalar", "vector", "none"][(i // 2) % 3], trained=bool((i // 17) % 4 != 1))
    for i in range(n // 3):
        yield dict(i=i, seed=seed, what="facade", name=models.KINDS[i % 6], corpus=gen.CORPUS_KINDS[(i // 6) % 8], K=[3, 2, 5][(i // 5) % 3],
                   prior=["scalar", "vector", "none"][(i // 2) % 3], steps=6)


def leaves(v, path=""):
    """(path, array) of every array within a model"""
    if isinstance(v, np.ndarray):
        yield path, v
    elif ssp.issparse(v):
        yield path, v.data
    elif hasattr(v, "_fields"):
        for f in v._fields:
            yield from leaves(getattr(v, f), path + "." + f)
    elif isinstance(v, (list, tuple)):
        for i, o in enumerate(v):
            yield from leaves(o, "%s[%d]" % (path, i))


def scribble(mon, name, mine, yours, who):
    """writes over every array of one model; the other must not change"""
    before = models.snapshot(yours)
    for path, a in leaves(mine):
        if a.dtype.kind not in "fiu" or not a.size or not a.flags.writeable:
            continue
        held = a.copy()
        a.ravel()[...] = 0
        a += 3
        mon.count("probes")
        mon.expect(not models.changed(before, models.snapshot(yours)), "shared:" + name, "writing to an array of %s changes the other" % who, array=path)
        a[...] = held


def priors(case, rng, T):
    if case["prior"] == "none":
        return None, None
    if case["prior"] == "scalar":
        return 0.4, 0.2
    return rng.uniform(.2, .8, case["K"]), rng.uniform(.05, .3, T)


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p23", case["what"])
    T = 20
    X, Y = (models.covering(rng, 24, T, case["corpus"], np.float64) for _ in range(2))
    (facade if case["what"] == "facade" else state)(case, mon, rng, X, Y, T)


def fresh_model(case, m, ds, rng, T):
    name, K = case["name"], case["K"]
    if name in models.KINDS:
        a, b = priors(case, rng, T)
        if b is None:
            b = 0.1
        kw = dict(dtype=np.float64)
        if name == "LDA_GIBBS":
            kw = {}
        if isinstance(b, np.ndarray) and name.startswith("LDA_CVB"):
            b = float(b[0])
        model = m.newModelAtRandom(ds, K, topicPrior=a, vocabPrior=b, **kw)
        q = m.newQueryState(ds, model, False)
        return model, q
    if name in ("tfidf", "similar"):
        model = m.newModelAtRandom(ds, K, method=m.TF_IDF if name == "tfidf" else m.LDA, dtype=np.float64)
        return model, m.newQueryState(ds, model)
    return families.start(name, ds, K)


def plan(case, m, n):
    name = case["name"]
    if name in models.SAMPLERS:
        return m.newTrainPlan(n + 4, burnIn=2, **{"thin" if name == "LDA_GIBBS" else "thinning": 1})
    if name in models.KINDS or name in ("tfidf", "similar"):
        return m.newTrainPlan(n)
    return families.plan(name, n)


def state(case, mon, rng, X, Y, T):
    name = case["name"]
    D = X.shape[0]
    F = np.hstack([np.ones((D, 1)), (rng.rand(D, 3) < .5) * 1.0])
    L = (rng.rand(D, D) < .2) * 1.0
    L[np.arange(D), (np.arange(D) + 1) % D] = 1
    L = ssp.csr_matrix(L)
    if name in models.KINDS:
        m = models.module(name)
        make = lambda W: models.dataset(W.astype(np.int32 if name in ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS") else np.float64))
    elif name in ("tfidf", "similar"):
        import sidetopics.model.sim_based_rec as m
        make = lambda W: models.dataset(W, links=L)
    else:
        m = families.module(name)
        make = lambda W: families.data(name, W, feats=(F if name == "dmr" else ssp.csr_matrix(F)) if name in families.FEATS else None, links=L if name in families.LINKS else None)
    one, two = make(X), make(Y)
    models.reseed(case["i"])
    with quiet():
        model, q = fresh_model(case, m, one, rng, T)
        if case["trained"]:
            out = m.train(one, model, q, plan(case, m, 9))
            model, q = out[0], out[1]
        held = models.snapshot(model)
        copy = m.newModelFromExisting(model)
    mon.count("copies")
    mon.seen(name, case["corpus"], case["K"], case["prior"], case["trained"])
    mon.expect(type(copy) is type(model), "type:" + name, "the copy of a model is not a model of its kind")
    mon.expect(not models.changed(held, models.snapshot(copy)), "unequal:" + name, "the copy of a model differs from it", fields=models.changed(held, models.snapshot(copy)))
    mon.expect(not models.changed(held, models.snapshot(model)), "purity:" + name, "copying a model changed it")
    scribble(mon, name, copy, model, "the copy")
    scribble(mon, name, model, copy, "the original")
    mon.expect(not models.changed(held, models.snapshot(model)) and not models.changed(held, models.snapshot(copy)), "restored:" + name, "the probe did not restore the models")
    # the copy is trained on, by other documents
    with quiet():
        fresh = m.newQueryState(two, copy, False) if name in models.KINDS else m.newQueryState(two, copy)
        again = m.train(two, copy, fresh, plan(case, m, 7))
    mon.count("steps")
    mon.expect(not models.changed(held, models.snapshot(model)), "trained:" + name, "training the copy changed the original", fields=models.changed(held, models.snapshot(model)))
    # and the original, from where it was, as a second copy
    with quiet():
        other = m.newModelFromExisting(model)
        print_ = models.snapshot(again[0])
        answers = []
        for which in (model, other):
            models.reseed(case["i"] + 1)
            fresh = m.newQueryState(one, which, False) if name in models.KINDS else m.newQueryState(one, which)
            answers.append(m.train(one, which, fresh, plan(case, m, 5)))
    mon.count("copies")
    mon.count("answers")
    a, b = dict(leaves(answers[0][0])), dict(leaves(answers[1][0]))
    mon.expect(set(a) == set(b), "diverges:" + name, "a model and its copy, trained the same way, differ in kind")
    for path in set(a) & set(b):
        if a[path].dtype.kind in "fiu":    # the same up to the rounding of sums, which depends on where arrays lie
            mon.close(a[path], b[path], "diverges:" + name, "a model and its copy, trained the same way, differ", rtol=1e-6, atol=1e-8, array=path)
    mon.expect(not models.changed(print_, models.snapshot(again[0])), "trained-original:" + name, "training the original changed its copy")


def look(tm):
    """what a facade shows"""
    p = {k: (tuple(np.ravel(v)) if isinstance(v, np.ndarray) else v) for k, v in tm.get_params().items()}
    return repr(sorted(p.items(), key=lambda kv: kv[0])), np.array(tm.components_)


def facade(case, mon, rng, X, Y, T):
    kind = case["name"]
    a, b = priors(case, rng, T)
    if isinstance(b, np.ndarray) and kind.startswith("LDA_CVB"):
        b = float(b[0])
    kw = {}
    if kind in models.SAMPLERS:
        kw = dict(burn_in=2, thin=1)
    wt = np.int32 if kind in ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS") else np.float64
    data = [models.dataset(W.astype(wt)) for W in (X, Y)]
    probe = models.dataset(Y[:6].astype(wt))

    def answer(tm):
        np.random.seed(7)
        models.reseed(7)
        return np.asarray(tm.transform(probe))
    first = models.facade(kind, n_components=case["K"], doc_topic_prior=a, topic_word_prior=b, iterations=9, seed=case["i"], **kw)
    first.fit(data[0])
    all_ = [first]
    shown = [look(first)]
    told = [answer(first)]
    for step in range(case["steps"]):
        i = int(rng.randint(len(all_)))
        op = ["copy", "fit", "score", "transform", "copy", "fit_transform", "param"][int(rng.randint(7))] if step else "copy"
        tm = all_[i]
        touched = i
        if op == "copy":
            new = tm.copy()
            mon.count("copies")
            all_.append(new)
            shown.append(look(new))
            told.append(answer(new))
            mon.expect(shown[-1][0] == shown[i][0], "params:" + kind, "the copy has other parameters", got=shown[-1][0], want=shown[i][0])
            mon.close(shown[-1][1], shown[i][1], "components:" + kind, "the copy has other word distributions", rtol=0, atol=0)
            mon.close(told[-1], told[i], "answers:" + kind, "the copy gives other answers", rtol=1e-8, atol=1e-12)
            touched = None
        elif op == "fit":
            tm.fit(data[int(rng.randint(2))], iterations=5)
        elif op == "fit_transform":
            tm.fit_transform(data[int(rng.randint(2))])
        elif op == "score":
            tm.score(data[1])
        elif op == "transform":
            tm.transform(data[1])
        elif op == "param":
            tm.set_params(iterations=int(rng.randint(5, 12)))
        mon.count("steps")
        mon.seen(kind, case["prior"], step, op, len(all_))
        for j, t in enumerate(all_):
            if j == touched and op not in ("score", "transform"):
                shown[j], told[j] = look(t), answer(t)
                continue
            now = look(t)
            mon.expect(now[0] == shown[j][0], "other-params:" + kind, "%s of one model changed the parameters of another" % op)
            mon.close(now[1], shown[j][1], "other-components:" + kind, "%s of one model changed the word distributions of another" % op, rtol=0, atol=0)
            mon.close(answer(t), told[j], "other-answers:" + kind, "%s of one model changed the answers of another" % op, rtol=1e-8, atol=1e-12)
            mon.count("answers")
