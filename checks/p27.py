"""Reports of progress are passive, and true."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, families
from vlib.core import rng_of, quiet
from checks.p23 import leaves

META = dict(rule="distinct (model, corpus, topics, iterations, interval of reports) trained with and without reports, from the same start with the same draws",
            min_events={"twins": 500, "reports": 200, "arrays": 1500, "early-stops": 5, "values": 500},
            assumptions=["training may stop early where reports show no more progress, which is only done after at least 20 iterations; its result is then compared with training for as long without reports"])
NAMES = list(models.KINDS) + list(families.FAMILIES) + ["facade:" + k for k in models.KINDS]


def cases(tier, seed):
    n = 40 * len(NAMES) if tier == "quick" else 200 * len(NAMES)
    for i in range(n):
        r = i // len(NAMES)
        yield dict(i=i, seed=seed, name=NAMES[i % len(NAMES)], corpus=gen.CORPUS_KINDS[r % 8], K=[3, 2, 5][(i // 5) % 3],
                   iterations=[12, 1, 7, 20, 150, 16, 2][r % 7], log=[1, 5, 3, 10, 4, 50][(i // 3) % 6], debug=bool(r % 5 == 3))


def same(mon, name, a, b, msg, mech, **kw):
    a, b = dict(leaves(a)), dict(leaves(b))
    mon.expect(set(a) == set(b), mech + ":" + name, msg + " (in kind)", **kw)
    for path in sorted(set(a) & set(b)):
        if a[path].dtype.kind in "fiu" and not path.endswith("expMeans"):    # a scratch space
            mon.count("arrays")
            f32 = a[path].dtype == np.float32
            mon.close(a[path], b[path], mech + ":" + name, msg, rtol=2e-3 if f32 else 1e-5, atol=2e-3 if f32 else 1e-7, array=path, **kw)


def agree(a, b):
    a, b = dict(leaves(a)), dict(leaves(b))
    return all(a[p].shape == b[p].shape and np.allclose(a[p], b[p], rtol=1e-4, atol=1e-6) for p in a if a[p].dtype.kind in "fiu")


def report_of(name, out):
    r = out[2] if len(out) > 2 else None
    if r is None or not isinstance(r, (tuple, list)) or len(r) != 3:
        return None
    return [np.asarray(x).ravel() for x in r]


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p27")
    name = case["name"]
    X = models.covering(rng, 24, 18, case["corpus"], np.float64)
    if name.startswith("facade:"):
        return facade(case, mon, rng, name[7:], X)
    D = X.shape[0]
    F = ssp.csr_matrix(np.hstack([np.ones((D, 1)), (rng.rand(D, 3) < .5) * 1.0]))
    L = (rng.rand(D, D) < .2) * 1.0
    L[np.arange(D), (np.arange(D) + 1) % D] = 1
    L = ssp.csr_matrix(L)
    kind = name in models.KINDS
    if kind:
        m = models.module(name)
        ds = models.dataset(X.astype(np.int32 if name in ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS") else np.float64))
    else:
        m = families.module(name)
        ds = families.data(name, X, feats=F if name in families.FEATS else None, links=L if name in families.LINKS else None)

    def plan(n, log, debug=False):
        if name == "LDA_GIBBS":
            return m.newTrainPlan(n + 2, burnIn=1, thin=1, logFrequency=log, debug=debug)
        if name == "MOM_GIBBS":
            return m.newTrainPlan(n, burnIn=1, thinning=1, logFrequency=log, debug=debug)
        if kind:
            return m.newTrainPlan(n, logFrequency=log, debug=debug)
        return families.plan(name, n, log, debug=debug)

    def go(n, log, debug=False):
        models.reseed(case["i"])
        np.random.seed(case["i"] + 11)
        with quiet():
            if kind:
                kw = {} if name == "LDA_GIBBS" else dict(dtype=np.float64)
                model = m.newModelAtRandom(ds, case["K"], **kw)
                q = m.newQueryState(ds, model, debug)
            else:
                model, q = families.start(name, ds, case["K"])
            return m.train(ds, model, q, plan(n, log, debug))
    n, log = case["iterations"], case["log"]
    if name == "MOM_GIBBS" or n < 20:
        log = min(log, 5)
    debug = case["debug"] and n <= 20
    with_ = go(n, log, debug)
    mon.seen(name, case["corpus"], case["K"], n, log, case["debug"])
    report = report_of(name, with_)
    last = None
    if report is not None and len(report[0]) and name not in ("lro_vb", "LDA_GIBBS", "dmr"):
        its, bounds, likes = report
        mon.count("reports")
        mon.expect(len(its) == len(bounds) == len(likes), "lengths:" + name, "a report lists as many bounds and likelihoods as iterations", got=[len(x) for x in report])
        mon.expect((np.diff(its) >= 0).all() and its[0] >= 0 and its[-1] < n + (name == "MOM_GIBBS"), "iterations:" + name, "the iterations reported were not planned", got=its, planned=n)
        mon.expect(np.isfinite(likes.astype(np.float64)).all() and np.isfinite(bounds.astype(np.float64)).all(), "finite:" + name, "a reported value is not finite", bounds=bounds, likes=likes)
        last = int(its[-1])
    without = go(n, 0)
    if n <= 20:
        same(mon, name, with_[0], without[0], "reporting progress changes what is learnt", "model", n=n, log=log)
        same(mon, name, with_[1], without[1], "reporting progress changes what is inferred", "inferred", n=n, log=log)
    elif not agree(with_[0], without[0]):   # it may have stopped early, after what it last reported
        ends = [] if last is None or last < 20 else [last + 1]
        mon.expect(any(agree(with_[0], go(k, 0)[0]) for k in ends), "early:" + name, "training with reports is neither what was planned nor training for the iterations it reported", last=last, n=n, log=log)
        mon.count("early-stops")
    mon.count("twins")
    if last is not None and name != "MOM_GIBBS" and n <= 20:    # what is reported is what training for as long gives
        for j in sorted({0, len(its) // 2, len(its) - 1}):
            model, q = with_[:2] if its[j] == n - 1 else go(int(its[j]) + 1, 0)[:2]
            for what, value in (("likelihood", likes[j]), ("bound", bounds[j])):
                f = getattr(m, {"likelihood": "log_likelihood", "bound": "var_bound"}[what], None)
                if f is not None:
                    with quiet():
                        want = float(f(ds, model, q))
                    mon.count("values")
                    mon.close(float(value), want, "true:%s:%s" % (what, name), "the %s reported for an iteration is not that of training for as long" % what, rtol=1e-5, atol=1e-5, iteration=int(its[j]), n=n, log=log)
    # inference
    if n <= 20:
        answers = []
        for l in (log, 0):
            models.reseed(case["i"] + 3)
            np.random.seed(case["i"] + 12)
            with quiet():
                model = with_[0]
                q = m.newQueryState(ds, model, False) if kind else m.newQueryState(ds, model)
                answers.append(m.query(ds, model, q, plan(n, l, debug and l > 0))[1])
        same(mon, name, answers[0], answers[1], "reporting progress changes the answers", "answers", n=n, log=log)
        mon.count("twins")


def facade(case, mon, rng, kind, X):
    n, log = min(case["iterations"], 20), min(case["log"], 5)
    ds = models.dataset(X.astype(np.int32 if kind in ("LDA_CVB0", "LDA_CVB", "LDA_GIBBS") else np.float64))
    kw = dict(burn_in=2, thin=1) if kind in models.SAMPLERS else {}
    got = []
    for l in (log, 0):
        np.random.seed(case["i"])
        with quiet():
            tm = models.facade(kind, n_components=case["K"], iterations=n + 3, log_frequency=l, seed=case["i"], **kw)
            tm.fit(ds)
            np.random.seed(case["i"] + 1)
            models.reseed(case["i"] + 1)
            got.append((np.array(tm.components_), np.asarray(tm.transform(ds))))
            if l:
                metrics = tm.fit_metrics_
        mon.seen("facade", kind, l, n)
    f32 = kind.startswith("LDA_CVB")
    mon.close(got[0][0], got[1][0], "facade-model:" + kind, "reporting progress changes what is learnt", rtol=2e-3 if f32 else 1e-5, atol=2e-3 if f32 else 1e-7)
    mon.close(got[0][1], got[1][1], "facade-answers:" + kind, "reporting progress changes the answers", rtol=2e-3 if f32 else 1e-5, atol=2e-3 if f32 else 1e-7)
    mon.count("twins")
    if metrics is not None and any(v is not None for v in metrics):
        sizes = {len(np.atleast_1d(v)) for v in metrics if v is not None}
        mon.expect(len(sizes) == 1, "metrics:" + kind, "the metrics of an epoch differ in length", got=sizes)
        mon.count("reports")
