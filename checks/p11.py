"""Whatever is fitted, transformed or read from a topic model is a set of probability distributions."""
import numpy as np
from vlib import gen, models
from vlib.core import Monitor, rng_of

META = dict(rule="distinct (kind of model, corpus, count type, matrix format, configuration) models whose outputs were inspected",
            min_events={"distributions": 900},
            assumptions=["every document has at least one word: the models reject others"])
DTYPES = ["int32", "float64", "int64", "float32", "uint16", "int16"]
CONFIGS = [dict(), dict(doc_topic_prior=0.3), dict(topic_word_prior=0.05), dict(doc_topic_prior=2, topic_word_prior=2), dict(iterations=1),
           dict(iterations=120, log_frequency=7), dict(doc_topic_prior="vector"), dict(use_approximations=True), dict(n_components=2), dict(n_components=30),
           dict(debug=True), dict(query_iterations=1), dict(doc_topic_prior=0.01), dict(topic_word_prior=np.float32(0.4)), dict(iterations=7, query_iterations=40),
           dict(log_frequency=1, iterations=12), dict(topic_word_prior=1, doc_topic_prior=1), dict(batchSize=4), dict(burn_in=3, thin=2), dict(perp_tolerance=1e-9), dict(n_components=200, iterations=4, query_iterations=3), dict(topic_word_prior=0.0005), dict(topic_word_prior=0.0002, doc_topic_prior=0.001),
           dict(topic_word_prior=30, doc_topic_prior=50), dict(batchSize=200, iterations=1, rate_delay=0.1), dict(batchSize=5, rate_delay=0.0, iterations=3),
           dict(batchSize=9, rate_delay=64, forgetting_rate=0.9), dict(batchSize=1, iterations=2)]


def cases(tier, seed):
    n = 960 if tier == "quick" else 3840
    for i in range(n):
        yield dict(i=i, seed=seed, kind=models.KINDS[i % 6], cfg=(i // 6) % len(CONFIGS), corpus=gen.CORPUS_KINDS[(i // 7) % 8], dtype=DTYPES[(i // 11) % 6],
                   docs=[24, 1, 5, 60, 130][(i // 5) % 5], words=[20, 4, 70][(i // 13) % 3], fmt=["csr", "dense", "csc", "coo", "unsorted"][(i // 3) % 5],
                   entry=["fit_transform", "fit+transform", "copy"][(i // 17) % 3])
    for i, kind in enumerate(UNUSABLE * 2):
        yield dict(i=10 ** 6 + i, seed=seed, kind=kind, cfg=0, corpus="topical", dtype=["float64", "int32"][i // 2], docs=24, words=20, fmt="csr", entry="fit_transform")


UNUSABLE = ("LDA_VB", "LDA_SVB")          # see known_findings.jsonl: offered, but cannot be fitted
TINY_LIMIT = ("LDA_CVB", "MOM_GIBBS")     # see known_findings.jsonl: priors below a thousandth underflow in these two


def run_case(case, mon):
    kw = CONFIGS[case["cfg"]]
    tiny = max(isinstance(kw.get(p), float) and kw[p] < 0.001 for p in ("doc_topic_prior", "topic_word_prior"))
    if case["kind"] in UNUSABLE:
        try:
            return scenario(case, mon)
        except (TypeError, ValueError) as e:
            return mon.fail("unusable:" + case["kind"], "this kind of model cannot be fitted: %s" % e)
    if not (tiny and case["kind"] in TINY_LIMIT):
        return scenario(case, mon)
    own = Monitor()
    try:
        scenario(case, own)
    except ValueError as e:
        own.fail("crash", str(e))
    for k, n in own.events.items():
        mon.count(k, n)
    mon.distinct |= own.distinct
    if own.violations:
        mon.fail("tiny-priors:" + case["kind"], "with priors below 0.001: " + own.violations[0]["msg"])


def scenario(case, mon):
    rng = rng_of(case["i"], case["seed"], "p11")
    kind = case["kind"]
    kw = dict(CONFIGS[case["cfg"]])
    K = kw.setdefault("n_components", 4)
    kw.setdefault("iterations", 15)
    if isinstance(kw.get("doc_topic_prior"), str):
        kw["doc_topic_prior"] = 0.1 + rng.rand(K)
    if "thin" in kw and kind != "LDA_GIBBS":
        kw.pop("thin"), kw.pop("burn_in")
    X = gen.corpus(rng, case["docs"], case["words"], case["corpus"], np.dtype(case["dtype"]))
    given = models.formats(X, case["fmt"], rng)
    m = models.facade(kind, seed=3 + case["i"], **kw)
    tol = 2e-4 if kind in ("LDA_CVB0", "LDA_CVB") else 1e-6
    D, T = X.shape

    def dist(P, shape, what):
        mon.count("distributions", P.shape[0] if np.ndim(P) == 2 else 1)
        models.is_distribution(mon, P, shape, what.split()[0], what, tol=tol, neg=1e-5 if tol > 1e-5 else 0.0)

    if case["entry"] == "fit_transform":
        dist(m.fit_transform(given), (D, K), "fit_transform output")
    else:
        r = m.fit(given)
        mon.expect(r is m, "fit-returns", "fit must return the model itself")
        if case["entry"] == "copy":
            c = m.copy()
            dist(c.components_, (K, T), "copied word distributions")
            dist(c.transform(given), (D, K), "copied model's output")
    dist(m.transform(given), (D, K), "transform output")
    comps = np.asarray(m.components_)
    dist(comps, (K, T), "components output")
    # documents never seen, of other sizes, with words never seen
    unseen = gen.corpus(rng, [1, 3, 17][case["i"] % 3], case["words"], gen.CORPUS_KINDS[(case["i"] + 3) % 8], np.dtype(case["dtype"]))
    dist(m.transform(unseen), (unseen.shape[0], K), "unseen documents' topics")
    dist(m.components_, (K, T), "components after a query")
    if case["i"] % 4 == 1:      # more training on the same documents
        ds = models.dataset(X)
        m.fit(ds, persist_query_state=True)
        m.fit(ds, resume=True, persist_query_state=True)
        dist(m.components_, (K, T), "resumed word distributions")
        dist(m.transform(ds, resume=True), (D, K), "resumed topics")
        mon.count("resumed")
    if case["i"] % 3 == 0:      # further training, on other documents
        m.fit(unseen)
        dist(m.components_, (K, T), "retrained word distributions")
        dist(m.transform(given), (D, K), "retrained model's output")
        mon.count("retrained")
    if kind not in models.SAMPLERS and case["docs"] >= 24 and case["cfg"] in (0, 1, 14) and case["corpus"] == "topical":
        mon.expect(np.ptp(comps, axis=0).max() > 1e-6, "components-differ", "every topic has the same words after training on a topical corpus")
    mon.seen(kind, case["cfg"], case["corpus"], case["dtype"], D, T, case["fmt"], case["entry"])
