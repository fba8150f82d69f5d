"""The evaluation program: what it prints and files is true of held-out data, and its inputs are untouched."""
import contextlib, importlib, io, os, pickle, re, shutil, sys, tempfile
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models, build
from vlib.core import rng_of, sha, quiet

META = dict(rule="distinct (model, evaluation, folds, kept folds, numeric types, corpus) run through the evaluation program",
            min_events={"runs": 60, "folds": 120, "files": 120, "scores": 300, "helpers": 100}, cap={"thorough": 3000},
            assumptions=["the models, evaluations and numeric types which the program can run at all (see DESIGN.md)",
                         "likelihoods and link probabilities themselves are those of the models' own functions, which other properties decide"])

PERP = [("ctm_bouchard", "f8:f8"), ("ctm_bohning", "f8:f8"), ("stm_yv_bohning", "f8:f8"), ("stm_yv_bouchard", "f8:f8"),
        ("lda_cvb", "f8:f8 f4:f4 i4:f8"), ("lda_cvb0", "f8:f8 f4:f4 i4:f8"), ("lda_vb", "f8:f8 f8 i4:f8"), ("lda_svb", "f8:f8"), ("lda_gibbs", "f8:f8 i4:f8 u2:f8"),
        ("mom_em", "f8:f8 i4:f8"), ("mom_gibbs", "f8:f8 i4:f8"), ("dmr", "f8:f8 u2:f8"), ("lro_vb", "f8:f8"), ("sim_lda_vb", "f8:f8"), ("sim_tfidf", "f8:f8")]
LINKED = ["mtm2_vb", "lro_vb", "sim_lda_vb", "sim_tfidf"]
LINK_EVALS = ["meanavgprec_all", "meanprecrec_all", "lro_meanprecrec_all"]
TAGGED = ["ctm_bohning", "stm_yv_bohning"]
FEATS = ("stm_yv_bohning", "stm_yv_bouchard", "dmr")
NEED_LINKS = LINKED
GROUPS = [(0, 3), (3, 5), (5, 10), (10, 1000)]
MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]


def cases(tier, seed):
    n = 96 if tier == "quick" else 960
    for i in range(n):
        if i % 8 == 7:
            yield dict(i=i, seed=seed, what="helpers")
        elif i % 8 in (2, 5):
            j = i // 8 * 2 + (i % 8 == 5)
            ev = (LINK_EVALS + ["lro_meanprecrec_featsplit"])[j % 4]
            model = LINKED[(j // 4 + j) % 4]
            if ev == "lro_meanprecrec_featsplit" and not model.startswith("sim"):
                model = "sim_tfidf" if j % 8 < 4 else "sim_lda_vb"
            yield dict(i=i, seed=seed, what="links", model=model, ev=ev, folds=[3, 2, 4][j % 3], dtype="f8:f8", keep=[0, 0, 2][j % 3])
        elif i % 8 == 6:
            j = i // 8
            yield dict(i=i, seed=seed, what="tags", model=TAGGED[j % 2], ev="tag_prec_at_m", folds=[3, 2][j // 2 % 2], dtype="f8:f8", keep=[0, 0, 1][j % 3])
        else:
            j = i // 8 * 5 + {0: 0, 1: 1, 3: 2, 4: 3}.get(i % 8, 4)
            model, dts = PERP[j % 15]
            dts = dts.split()
            folds = [3, 1, 2, 5][(j // 15 + j) % 4]
            if model == "mtm2_vb":
                folds = 1
            yield dict(i=i, seed=seed, what="perplexity", model=model, ev="perplexity", folds=folds, dtype=dts[(j // 15) % len(dts)],
                       keep=[0, 2, 0, 1][(j // 3) % 4] if folds > 2 else 0, twice=bool(j % 2))


def program():
    path = os.path.join(build.REPO, "sidetopics")
    if path not in sys.path:
        sys.path.insert(0, path)
    return importlib.import_module("sidetopics.run.__main__")


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p24")
    where = tempfile.mkdtemp(prefix="verif_p24_")
    try:
        if case["what"] == "helpers":
            return helpers(rng, mon)
        inside(case, rng, mon, where)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def tokens(text):
    return [float(v) for v in re.findall(r"-?\d+\.\d+|-?\d+|nan|inf", text)]


def listing(where):
    out = {}
    for f in sorted(os.listdir(where)):
        p = os.path.join(where, f)
        if os.path.isfile(p):
            out[f] = open(p, "rb").read()
    return out


def inside(case, rng, mon, where):
    main = program()
    model, ev, folds = case["model"], case["ev"], case["folds"]
    D, T, K = int(rng.randint(24, 50)), int(rng.randint(14, 40)), int(rng.randint(2, 5))
    X = ssp.csr_matrix(models.covering(rng, D, T, "topical", np.float64))
    X.data += rng.randint(0, 2, len(X.data))
    X = X.tolil()
    short = rng.choice(D, int(rng.randint(0, 4)), replace=False)          # to be pruned: fewer than three distinct words
    for d in short:
        X[d] = 0
        X[d, rng.choice(T, int(rng.randint(1, 3)), replace=False)] = rng.randint(1, 5)
    X = X.tocsr().astype(np.float64)
    F = (rng.rand(D, 4) < .5).astype(np.float64)
    F[::4, :3], F[1::4, int(rng.randint(3))] = 0, 1                       # documents for training whatever features are held out, and some to be held out
    F[2, :3] = F[6, :3] = F[10, :3] = F[14, :3] = 1
    F = ssp.csr_matrix(F)
    L = (rng.rand(D, D) < .3).astype(np.float64)
    np.fill_diagonal(L, 0)
    L[np.arange(D), (np.arange(D) + 1) % D] = 1
    L = ssp.csr_matrix(L)
    words = ["#w%d" % t if t % 3 else "w%d" % t for t in range(T)]
    for n, v in (("w", X), ("f", F), ("l", L), ("dict", words)):
        with open(os.path.join(where, n), "wb") as f:
            pickle.dump(v, f)
    limit = int(rng.randint(20, D)) if rng.rand() < .25 else 0
    iters = int(rng.choice([3, 8, 12]))
    has_feats = model in FEATS or ev.endswith("featsplit")
    has_links = model in NEED_LINKS
    mask = "a:0,b:2,c:1"

    def go(out):
        os.mkdir(os.path.join(where, out))
        args = ["-m", model, "-k", str(K), "-p", "2", "-q", "2", "-w", where + "/w", "-v", ev, "-o", where + "/" + out, "-i", str(iters), "-j", "6", "-f", str(folds), "-t", case["dtype"],
                "--word-dict", where + "/dict"]
        args += ["-x", where + "/f"] if has_feats else []
        args += ["-c", where + "/l"] if has_links else []
        args += ["--truncate-folds", str(case["keep"])] if case["keep"] else []
        args += ["--limit-to", str(limit)] if limit else []
        args += ["--feats-mask", mask] if ev.endswith("featsplit") else []
        args += ["--tag-recall-opts", "0:-1,0.5"] if ev == "tag_prec_at_m" else []
        models.reseed(case["i"])
        text = io.StringIO()
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            files = main.run(args)
        return files, text.getvalue()

    before = listing(where)
    files, text = go("out")
    mon.count("runs")
    mon.expect(listing(where) == before, "inputs", "the input files have changed", changed=[f for f in before if listing(where).get(f) != before[f]])
    mon.expect("Abandoning" not in text, "abandoned:" + model, "a fold was abandoned", text=text[-600:])
    mon.seen("ran", model, ev, folds, case["keep"], case["dtype"], bool(limit))

    # The documents, by definition
    n = limit if limit else D
    kept = np.where(np.asarray((X[:n] > 0).sum(axis=1)).ravel() >= 3)[0]
    want = {"perplexity": folds, "lro_meanprecrec_featsplit": 3}.get(ev, folds)
    if ev != "meanavgprec_all" and not ev.endswith("featsplit") and case["keep"]:
        want = min(want, case["keep"])
    mon.expect(isinstance(files, list) and len(files) == want, "files", "not one file for every fold which was run", got=len(files or []), want=want)
    mon.expect(len(set(files)) == len(files) and sorted(os.path.basename(f) for f in files) == sorted(os.listdir(where + "/out")) and all(os.path.dirname(f) == where + "/out" for f in files),
               "files", "the files in the directory are not those which are returned", got=sorted(os.listdir(where + "/out"))[:5])
    saved = []
    for f in files:
        with open(f, "rb") as h:
            saved.append(pickle.load(h))
        mon.count("files")
    order = None
    for s in saved:
        mon.expect(len(s) == 7, "content", "a file has not seven parts", got=len(s))
        o = np.asarray(s[0])
        mon.expect(np.array_equal(np.sort(o), kept), "order", "the order is no arrangement of the documents which are long enough", got=len(o), want=len(kept))
        mon.expect(order is None or np.array_equal(o, order), "order", "the order differs between folds")
        order = o
        mon.expect(len(s[1]) == len(s[2]) == len(s[3]) and all(0 <= t <= iters + 1 for t in s[1]), "report", "a report does not match the iterations asked for", got=[len(p) for p in s[1:4]], iters=list(s[1])[:5])
        mon.expect(s[4].K == K, "topics", "a model has not as many topics as asked for", got=s[4].K, want=K)
    if not saved:
        return
    from sidetopics.model.common import DataSet
    dt_in = main.parse_dtypes(case["dtype"])[0]
    W = X[:n][order].astype(dt_in)
    G = F[:n][order].astype(dt_in) if has_feats else None
    if G is not None and not np.any(np.ptp(G.toarray(), axis=0) == 0):
        G = None if ev.endswith("featsplit") else ssp.hstack((G, np.ones((G.shape[0], 1)))).tocsr()
    Lk = L[:n, :n][order][:, order].astype(dt_in) if has_links else None
    with quiet():
        # the program's own pipeline for features, so that only their rows matter
        data = DataSet.from_files(where + "/w", where + "/f" if has_feats else None, where + "/l" if has_links else None, limit=limit)
        data.convert_to_dtype(dt_in)
        data.prune_and_shuffle(min_unique_word_count=3, min_link_count=0)
        data.add_intercept_to_feats_if_required()
    mon.expect(np.array_equal(models.dense(data.words), W.toarray()), "data", "the documents are not those of the input file in the order recorded")
    if Lk is not None:
        mon.expect(np.array_equal(models.dense(data.links), Lk.toarray()), "data", "the links are not those of the input file in the order recorded")
    if has_feats:
        mon.expect(np.array_equal(models.dense(data.feats)[:, :4], F[:n][order].toarray()), "data", "the features are not those of the input file in the order recorded")
    mdl = sys.modules[type(saved[0][4]).__module__]
    globals()[case["what"]](case, mon, main, mdl, data, saved, text, dict(W=W, folds=folds, mask=mask, K=K, T=T))

    if case.get("twice") and model != "dmr":
        files2, text2 = go("again")
        pick = lambda t: [l for l in t.splitlines() if l.startswith(("Fold", "Total", "Train-set", "Mean", "|"))]
        mon.expect(pick(text) == pick(text2), "repeat", "the same command gives other results", one=pick(text)[-2:], two=pick(text2)[-2:])
        mon.count("repeats")


def perp(ll, count):
    return float(np.exp(-ll / count))


def near(got, want, decimals=3, rtol=2e-4):
    return len(got) == len(want) and all(abs(g - w) <= 0.51 * 10 ** -decimals + rtol * abs(w) for g, w in zip(got, want))


def perplexity(case, mon, main, mdl, data, saved, text, k):
    lines = text.splitlines()
    folds, N = case["folds"], k["W"].shape[0]
    if folds == 1:
        model, tops = saved[0][4:6]
        with quiet():
            ll = mdl.log_likelihood(data, model, tops)
        got = [tokens(l)[-1] for l in lines if l.startswith("Train-set")]
        mon.count("folds")
        mon.count("scores", 2)
        mon.expect(near(got, [ll, perp(ll, k["W"].sum())]), "score", "the likelihood and perplexity reported are not those of the model filed", got=got, want=[ll, perp(ll, k["W"].sum())])
        return
    reports = [l for l in lines if l.startswith("Fold ")]
    mon.expect(len(reports) == len(saved), "folds", "not one report for every fold", got=len(reports), want=len(saved))
    size = -(-N // folds)
    sums, seen = np.zeros(4), []
    for f, (line, s) in enumerate(zip(reports, saved)):
        held = np.arange(f * size, (f + 1) * size) % N
        rest = np.array([d for d in range(N) if d not in set(held)])
        seen += list(held)
        # the split of the program, and the one by definition
        with quiet():
            train, query = data.cross_valid_split(f, folds)
            mon.expect(np.array_equal(models.dense(query.words), k["W"][held].toarray()), "split", "the documents held out are not those of this fold")
            mon.expect(sorted(map(tuple, models.dense(train.words))) == sorted(map(tuple, k["W"][rest].toarray())), "split", "the documents of training are not all but those held out")
            est, ev = query.doc_completion_split()
            tll = mdl.log_likelihood(train, s[4], s[5])
            qll = mdl.log_likelihood(ev, s[4], s[6])
        tc, qc = train.word_count, ev.word_count
        if data.feats is None:
            mon.expect(abs(est.word_count + qc - k["W"][held].sum()) < 1e-6, "split", "the two halves of the documents held out do not add up")
        got = [float(v) for v in re.findall(r"Perplexity:\s+(\S+)", line)]
        mon.count("folds")
        mon.count("scores", 2)
        mon.expect(near(got, [perp(tll, tc), perp(qll, qc)]), "score", "the perplexities reported for a fold are not those of the model filed for it", got=got, want=[perp(tll, tc), perp(qll, qc)], fold=f)
        sums += [tll, tc, qll, qc]
    if len(saved) == folds and N % folds == 0:
        mon.expect(sorted(seen) == list(range(N)), "split", "not every document is held out once", got=len(set(seen)), want=N)
    total = [l for l in lines if l.startswith("Total")]
    got = [[float(v) for v in re.findall(r"(?:Likelihood|Perplexity):\s+(\S+)", l)] for l in total]
    want = [[sums[0], perp(sums[0], sums[1])], [sums[2], perp(sums[2], sums[3])]]
    mon.count("scores", 4)
    mon.expect(len(got) == 2 and near(got[0], want[0]) and near(got[1], want[1]), "total", "the totals are not those over the folds", got=got, want=want)


def table(lines):
    """rows of a printed table: group -> (count, values)"""
    out = {}
    for l in lines:
        v = tokens(l)
        out[(int(v[0]), int(v[1]))] = (int(v[2]), v[3:])
    return out


def tables(text):
    """every table printed, as (title, rows)"""
    lines, out, i = text.splitlines(), [], 0
    while i < len(lines):
        if lines[i].rstrip().endswith(("Precision", "Recall")) and i + 2 < len(lines) and lines[i + 1].startswith("| Group"):
            j = i + 3
            while j < len(lines) and lines[j].startswith("| "):
                j += 1
            out.append(("Recall" if "Recall" in lines[i] else "Precision", table(lines[i + 3:j])))
            i = j
        else:
            i += 1
    return out


def ranking(mon, text, expect, folds, maps, final=True):
    """expect: per fold (expected links, predicted probabilities)"""
    from sidetopics.model import evals
    got, at = tables(text), 0
    combined = {"Precision": {}, "Recall": {}}
    rr, ap, docs = 0., 0., 0
    mrrs, mps = [], []
    for e, p in expect:
        with quiet():
            precs, recs, counts = evals.mean_prec_rec_at(e, p, at=MS, groups=GROUPS)
            mrrs.append(evals.mean_reciprocal_rank(e, p))
            mps.append(evals.mean_average_prec(e, p))
        rr, ap, docs = rr + mrrs[-1] * e.shape[0], ap + mps[-1] * e.shape[0], docs + e.shape[0]
        for title, vals in (("Precision", precs), ("Recall", recs)):
            mon.expect(at < len(got) and got[at][0] == title, "table", "a table is missing", want=title, got=[g[0] for g in got])
            rows = got[at][1]
            at += 1
            for g in GROUPS:
                mon.count("scores")
                mon.expect(g in rows and rows[g][0] == counts[g] and near(rows[g][1], list(vals[g])), "table", "a table does not report the precision or recall of the links held out", group=g,
                           got=rows.get(g), want=(counts[g], list(vals[g])), title=title)
                w = combined[title].setdefault(g, [0, np.zeros(len(MS))])
                w[0] += counts[g]
                w[1] += counts[g] * np.asarray(vals[g])
    if final:
        for title in ("Precision", "Recall"):
            mon.expect(at < len(got) and got[at][0] == title, "table", "the final table is missing", want=title)
            rows = got[at][1]
            at += 1
            for g in GROUPS:
                c, s = combined[title][g]
                mon.count("scores")
                mon.expect(rows[g][0] == c and near(rows[g][1], list(s / max(c, 1))), "combined", "the final table is not the average over the folds, weighted by documents", group=g, got=rows.get(g), want=(c, list(s / max(c, 1))))
    mon.expect(at == len(got), "table", "more tables than folds", got=len(got), want=at)
    value = lambda l: float(l.split(":")[-1])
    mine = [value(l) for l in text.splitlines() if l.startswith("Mean reciprocal-rank")]
    mon.expect(near(mine, mrrs + [rr / docs], 6), "reciprocal", "the reciprocal ranks are not those of the links held out", got=mine, want=mrrs + [rr / docs])
    mine = [value(l) for l in text.splitlines() if l.lower().startswith(("mean average precision", "mean average-precision"))]
    mon.expect(near(mine, mps + ([ap / docs] if maps else []), 6), "average", "the average precisions are not those of the links held out", got=mine, want=mps + [ap / docs])
    mon.count("scores", 2 * len(mrrs))


def links(case, mon, main, mdl, data, saved, text, k):
    ev = case["ev"]
    trains = [float(l.split("is")[-1]) for l in text.splitlines() if l.startswith("Training perplexity")]
    mon.expect(len(trains) == len(saved), "folds", "not one training for every fold", got=len(trains), want=len(saved))
    expect, tps = [], []
    for f, s in enumerate(saved):
        model, tops = s[4:6]
        with quiet():
            if ev == "lro_meanprecrec_all":
                train, query, docs = data.folded_link_prediction_split(main.MinLinkCountEval, f, case["folds"])
                low = mdl.min_link_probs(model, tops, tops, query.links, docs)
                probs = mdl.link_probs(model, tops, tops, low, docs)
                held = query.links[docs, :]
                mon.expect(abs(((train.links + query.links) - data.links)[docs, :]).sum() < 1e-9, "split", "links of training and those held out do not add up to all links")
            elif ev.endswith("featsplit"):
                mask = [int(m.split(":")[1]) for m in k["mask"].split(",")][f:]
                train, query, _ = data.split_on_feature(mask)
                G = models.dense(data.feats)
                mon.expect(train.doc_count == int((G[:, mask].sum(axis=1) == 0).sum()) and query.doc_count == int((G[:, mask[0]] > 0).sum()), "split", "documents are not divided by their features",
                           got=(train.doc_count, query.doc_count))
                if case["model"] == "sim_tfidf":
                    _, qt = mdl.query(query, model, mdl.newQueryState(query, model), mdl.newTrainPlan(5))
                    low = mdl.min_link_probs(model, tops, qt, query.links)
                    probs = mdl.link_probs(model, tops, qt, low)
                    held = query.links
                else:
                    probs = held = None
            else:
                train, query = data.link_prediction_split(symmetric=False)
                low = mdl.min_link_probs(model, tops, tops, query.links)
                probs = mdl.link_probs(model, tops, tops, low)
                held = query.links
                mon.expect(abs((train.links + query.links) - data.links).sum() < 1e-9, "split", "links of training and those held out do not add up to all links")
            ll = mdl.log_likelihood(train, model, tops)
        tps.append(perp(ll, train.word_count))
        expect.append((held, probs))
        mon.count("folds")
    mon.expect(near(trains, tps, 2), "score", "the perplexity of training is not that of the model filed", got=trains, want=tps)
    if any(p is None for _, p in expect):
        return
    if ev == "meanavgprec_all":
        from sidetopics.model import evals
        got = [tokens(l)[-1] for l in text.splitlines() if l.startswith("Fold ") and "Average" in l]
        with quiet():
            want = [evals.mean_average_prec(e, p) for e, p in expect]
        mon.count("scores", len(want))
        mon.expect(near(got, want), "average", "the average precisions are not those of the links held out", got=got, want=want)
    else:
        ranking(mon, text, expect, case["folds"], ev != "meanprecrec_all")


def tags(case, mon, main, mdl, data, saved, text, k):
    """only what does not depend on the topics of the documents held out, which are not filed"""
    trains = [float(l.split("is")[-1]) for l in text.splitlines() if l.startswith("Training perplexity")]
    counts = []
    for f, s in enumerate(saved):
        with quiet():
            train, query = data.cross_valid_split(f, case["folds"])
            ll = mdl.log_likelihood(train, s[4], s[5])
        mon.count("folds")
        mon.count("scores")
        mon.expect(near([trains[f]], [perp(ll, train.word_count)], 2), "score", "the perplexity of training is not that of the model filed", got=trains[f], want=perp(ll, train.word_count))
    got = tables(text)
    mon.expect(len(got) == 2 * len(saved) + 2, "table", "not two tables for every fold and two in the end", got=len(got))
    for t in (0, 1):
        for g in GROUPS:
            c = sum(rows[g][0] for _, rows in got[t:-2:2])
            s = sum(rows[g][0] * np.asarray(rows[g][1]) for _, rows in got[t:-2:2])
            mon.count("scores")
            mon.expect(got[-2 + t][1][g][0] == c and near(got[-2 + t][1][g][1], list(s / max(1, c)), 3, 1e-3) or np.allclose(got[-2 + t][1][g][1], s / max(1, c), atol=1.1e-3), "combined",
                       "the final table is not the average over the folds, weighted by documents", got=got[-2 + t][1][g], want=(c, list(s / max(1, c))))


class Faulty:
    """a kind of model which fails in the given stages of the given folds"""
    def __init__(self, real, faults):
        self._real, self._faults, self._fold, self._seen, self.finished = real, faults, -1, {}, []

    def __getattr__(self, name):
        return getattr(self._real, name)

    def _maybe(self, stage):
        if self._faults.get(self._fold) == stage:
            raise ValueError("planned failure")

    def newModelFromExisting(self, model):
        self._fold += 1
        self._seen = {}
        return self._real.newModelFromExisting(model)

    def train(self, *args):
        self._maybe("train")
        return self._real.train(*args)

    def query(self, *args):
        self._maybe("query")
        return self._real.query(*args)

    def log_likelihood(self, data, *args):
        first = not self._seen
        self._maybe("train-likelihood" if first else "query-likelihood")
        v = self._real.log_likelihood(data, *args)
        self._seen["train" if first else "query"] = float(np.sum(v)), float(data.word_count)
        if not first:
            self.finished.append((self._fold, self._seen["train"], self._seen["query"]))
        return v


def faults(rng, mon):
    """totals and files when some folds fail"""
    main = program()
    from sidetopics.model import lda_cvb0, lda_vb_python, mom_em
    for real in (lda_cvb0, lda_vb_python, mom_em):
        D, T, K = int(rng.randint(20, 40)), 12, 3
        data = models.dataset(rng.poisson(2, (D, T)) + (np.arange(T) % 3 == 0))
        folds = int(rng.randint(3, 7))
        keep = int(rng.choice([-1, 1, 2]))
        bad = {int(f): str(rng.choice(["train", "train-likelihood", "query", "query-likelihood"])) for f in rng.choice(folds, int(rng.randint(1, folds - 1)), replace=False)}
        models.reseed(int(rng.randint(999)))
        where = tempfile.mkdtemp(prefix="verif_p24_")
        text = io.StringIO()
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
                m = Faulty(real, bad)
                sample = real.newModelAtRandom(data, K)
                plan = real.newTrainPlan(3, logFrequency=0)
                files = main.cross_val_and_eval_perplexity(data, m, sample, plan, plan, folds, keep, where)
            filed = len(os.listdir(where))
        finally:
            shutil.rmtree(where, ignore_errors=True)
        good = [f for f in range(folds) if f not in bad][:keep if keep > 0 else folds]
        mon.count("faults", len(bad))
        mon.count("helpers")
        mon.expect([f[0] for f in m.finished] == good, "fault:folds", "a fold that fails takes others with it", got=[f[0] for f in m.finished], want=good, bad=bad, keep=keep)
        mon.expect(len(files) == filed == len(good), "fault:files", "not one file for each fold that did not fail", got=[len(files), filed], want=len(good))
        lines = text.getvalue().splitlines()
        mon.expect(len([l for l in lines if l.startswith("Fold ")]) == len(good), "fault:reports", "not one report for each fold that did not fail")
        got = [[float(v) for v in re.findall(r"(?:Likelihood|Perplexity):\s+(\S+)", l)] for l in lines if l.startswith("Total")]
        sums = [np.sum([f[1 + i] for f in m.finished], axis=0) for i in (0, 1)]
        want = [[s[0], perp(s[0], s[1])] for s in sums]
        mon.expect(len(got) == 2 and near(got[0], want[0]) and near(got[1], want[1]), "fault:total", "the totals are not those of the folds that did not fail", got=got, want=want, bad=bad, keep=keep)


def helpers(rng, mon):
    faults(rng, mon)
    main = program()
    # division of documents by words
    for _ in range(6):
        D, T = int(rng.randint(1, 40)), int(rng.randint(2, 40))
        X = ssp.csr_matrix(rng.poisson(1.0, (D, T)).astype(rng.choice([np.float64, np.float32, np.int32])))
        if rng.rand() < .3:
            X = gen.with_explicit_zeros(rng, X)
        if rng.rand() < .3:
            X = gen.shuffled_indices(rng, X)
        cols = [int(c) for c in rng.choice(T, int(rng.randint(0, T + 1)), replace=False)]
        prob = float(rng.choice([0, 1, .5, .25, .999999999]))
        before = sha(X.data, X.indices, X.indptr)
        left, right = main.soft_split_on_indices(X, cols if rng.rand() < .5 else set(cols), np.random.RandomState(int(rng.randint(99))), prob)
        mon.count("helpers")
        mon.expect(sha(X.data, X.indices, X.indptr) == before, "divide", "dividing a matrix changes it")
        a, b, x = left.toarray(), right.toarray(), X.toarray()
        mon.expect(np.array_equal(a + b, x) and not np.any((a != 0) & (b != 0)), "divide", "the parts of a matrix do not add up to it, entry by entry")
        other = [t for t in range(T) if t not in cols]
        mon.expect(not b[:, other].any(), "divide", "words which were not selected have been moved")
        if prob > .9999:
            mon.expect(not a[:, cols].any(), "divide", "words have not been moved although all were to be")
        if prob == 0:
            mon.expect(not b.any(), "divide", "words have been moved although none were to be")
        n = int((x[:, cols] > 0).sum())
        if prob in (.5, .25) and n > 60:
            moved = int((b[:, cols] > 0).sum())
            mon.expect(abs(moved - n * prob) < 6 * np.sqrt(n * prob * (1 - prob)) + 1, "divide", "not the proportion of words asked for is moved", got=moved, of=n, prob=prob)
    # averages of averages
    for _ in range(4):
        parts, fold = [], int(rng.randint(1, 6))
        avg = cnt = None
        for _ in range(fold):
            c = {g: int(rng.choice([0, 1, 5, 17])) for g in GROUPS}
            v = {g: [float(x) for x in rng.rand(3)] if c[g] else [0.0] * 3 for g in GROUPS}
            parts.append((v, c))
            hold = repr((avg, cnt, v, c))
            new = main.combine_map(avg, cnt, v, c)
            mon.expect(repr((avg, cnt, v, c)) == hold, "average-map", "combining averages changes them")
            avg, cnt = new
            mon.count("helpers")
        for g in GROUPS:
            total = sum(c[g] for _, c in parts)
            want = sum(c[g] * np.asarray(v[g]) for v, c in parts) / max(total, 1)
            mon.expect(cnt[g] == total and np.allclose(avg[g], want, atol=1e-12), "average-map", "combined averages are not weighted by the number of documents", got=(cnt[g], avg[g]), want=(total, list(want)))
    # the most popular words
    for _ in range(4):
        D, T = 20, 30
        X = ssp.csr_matrix(rng.poisson(2.0, (D, T)).astype(np.float64))
        sel, count = [int(t) for t in rng.permutation(T)[:rng.randint(1, T)]], int(rng.choice([1, 5, 50]))
        got = main.popular_indices(models.dataset(X + ssp.csr_matrix(np.ones((D, T)))), sel, count)
        total = (X.toarray() + 1).sum(axis=0)
        mon.count("helpers")
        best = sorted((total[t] for t in sel), reverse=True)[:count]
        mon.expect(len(set(got)) == len(got) and set(got) <= set(sel) and [total[t] for t in got] == best, "popular", "not the most popular words, most popular first", got=[total[t] for t in got], want=best)
    # clipping
    M = ssp.csr_matrix(rng.poisson(1.5, (8, 9)).astype(np.float64))
    hold = sha(M.data)
    mon.expect(np.array_equal(main.csr_clip(M, 0, 1).toarray(), np.clip(M.toarray(), 0, 1)) and sha(M.data) == hold, "clip", "clipping a matrix")
    # numeric types
    for text, want in (("f4", (np.float32, np.float32)), ("F8:i4", (np.float64, np.int32)), ("u2:f64", (np.uint16, np.float64)), (" f32 : F64 ", (np.float32, np.float64))):
        mon.expect(main.parse_dtypes(text) == want, "types", "numeric types are misread", got=str(main.parse_dtypes(text)), text=text)
        mon.count("helpers")
    # names of files
    names = [os.path.basename(main.newModelFile(m, k, p, f, "/x")) for m in ("a/b", "c-d") for k in (2, 12) for p in (None, 0, 3) for f in (None, 0, 1, 11)]
    mon.expect(len(set(names)) == len(names) and all("/" not in n and "-" not in n for n in names), "names", "different models or folds share the name of a file", names=names[:6])
    mon.count("helpers")
