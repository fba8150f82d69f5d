"""Ranking metrics equal their definitions."""
import numpy as np
import scipy.sparse as ssp
from vlib.core import rng_of, sha

META = dict(rule="distinct (graph, cut-offs, groups) rankings whose metrics were recomputed from the definitions",
            min_events={"rankings": 200, "documents": 1500},
            assumptions=["scores are distinct within a row: the rank of ties is unspecified",
                         "every document has an expected link for the mean average precision, whose treatment of others is not specified"])


def cases(tier, seed):
    n = 1600 if tier == "quick" else 6400
    for i in range(n):
        yield dict(i=i, seed=seed, docs=int([1, 4, 9, 25, 40][i % 5]), cols=int([5, 12, 40, 150][(i // 5) % 4]), expected=[0.1, 0.3, 0.7][(i // 3) % 3],
                   retrieved=["all", "superset", "partial"][(i // 2) % 3], at=[[1], [1, 3, 10], [5, 2], [100], 4, None][(i // 7) % 6],
                   groups=[None, [[1, 2], [3, 5]], [[1, 3], [4, 1000]], [[2, 2]]][(i // 4) % 4], order=["sorted", "shuffled"][(i // 11) % 2])


def run_case(case, mon):
    import sidetopics.model.evals as ev
    rng = rng_of(case["i"], case["seed"], "p09")
    D, C = case["docs"], case["cols"]
    exp = rng.rand(D, C) < case["expected"]
    lacking = case["i"] % 3 == 0
    for d in range(D):
        if not exp[d].any():
            exp[d, rng.randint(C)] = True
    none = np.zeros(D, dtype=bool)
    if lacking and D > 2:
        none[rng.randint(0, D, size=max(1, D // 6))] = True
        exp[none] = False
    score = np.zeros((D, C))
    for d in range(D):
        score[d] = (rng.permutation(C) + 1) / float(C) * [1.0, 1e-4, 100.0][case["i"] % 3]
        if case["retrieved"] == "superset":
            score[d, (rng.rand(C) < 0.4) & ~exp[d]] = 0
        elif case["retrieved"] == "partial":
            score[d, rng.rand(C) < 0.4] = 0
        if not score[d].any():
            score[d, 0] = 1
        if case["retrieved"] == "partial" and case["i"] % 4 == 1 and rng.rand() < 0.2:
            score[d] = 0                     # nothing at all was retrieved
    E, S = ssp.csr_matrix(exp.astype(np.int32)), ssp.csr_matrix(score)
    if case["i"] % 5 == 4:                   # log-probabilities rank as probabilities do
        S.data = np.log(S.data) - 5
    if case["i"] % 7 == 3:
        S = S.astype(np.float32)
    if case["i"] % 5 == 2:                   # how often, or how strongly, a link was made does not matter
        E.data = rng.randint(1, 9, size=len(E.data)).astype(np.int32)
    E = E.astype([np.int32, np.float64, np.int64, bool][case["i"] % 4])
    if case["order"] == "shuffled":
        from vlib import gen
        E, S = gen.shuffled_indices(rng, E), gen.shuffled_indices(rng, S)
    before = sha(E, S)
    mon.count("rankings")
    mon.count("documents", D)
    ranked = [[j for j in np.argsort(-score[d]) if score[d, j] > 0] for d in range(D)]

    # precision / recall at m
    groups = None if case["groups"] is None else [tuple(g) for g in case["groups"]]
    given = None if groups is None else list(groups)
    kw = {}
    if case["at"] is not None:
        kw["at"] = case["at"]
    if groups is not None:
        kw["groups"] = groups
    precs, recs, counts = ev.mean_prec_rec_at(E, S, **kw)
    ms = [100] if case["at"] is None else (case["at"] if isinstance(case["at"], list) else [case["at"]])
    mon.expect(groups == given, "groups-argument", "the caller's list of groups was modified", got=groups)
    for g in [ev.AllGroups] + (given or []):
        docs = [d for d in range(D) if exp[d].any() and (g == ev.AllGroups or g[0] <= exp[d].sum() <= g[1])]
        mon.expect(counts[g] == len(docs), "group-count", "wrong number of documents in a group", group=g, got=counts[g], want=len(docs))
        for i, m in enumerate(ms):
            p = [len(set(ranked[d][:m]) & set(np.where(exp[d])[0])) / float(m) for d in docs]
            r = [len(set(ranked[d][:m]) & set(np.where(exp[d])[0])) / float(exp[d].sum()) for d in docs]
            mon.close(precs[g][i], np.mean(p) if docs else 0, "precision", "precision at m is wrong", m=m, group=g)
            mon.close(recs[g][i], np.mean(r) if docs else 0, "recall", "recall at m is wrong", m=m, group=g)

    # reciprocal rank: over the expected links that were ranked
    rr = [1.0 / (ranked[d].index(j) + 1) for d in range(D) for j in np.where(exp[d])[0] if j in ranked[d]]
    if rr or case["i"] % 2:
        mon.close(ev.mean_reciprocal_rank(E, S), np.mean(rr) if rr else 0, "mrr", "mean reciprocal rank is wrong")
    # average precision: documents without links may count, and what was not retrieved is worth no more than were it last
    ap, aps = [], []
    for d in range(D):
        want = set(np.where(exp[d])[0])
        found = [len(want & set(ranked[d][:ranked[d].index(j) + 1])) / (ranked[d].index(j) + 1.0) for j in want if j in ranked[d]]
        last = len(found) / float(max(1, len(ranked[d])))
        if want:
            ap.append(sum(found) / len(want))
            aps.append((sum(found) + (len(want) - len(found)) * last) / len(want))
    if ap:
        got = ev.mean_average_prec(E, S)
        allowed = [sum(v) / float(n) for v in (ap, aps) for n in (D, len(ap))]
        mon.expect(any(abs(got - v) < 1e-9 for v in allowed), "map:any", "mean average precision follows no definition", got=got, allowed=allowed)
    if not none.any() and case["retrieved"] != "partial":
        ap = []
        for d in range(D):
            want = set(np.where(exp[d])[0])
            ap.append(np.mean([len(want & set(ranked[d][:ranked[d].index(j) + 1])) / (ranked[d].index(j) + 1.0) for j in want]))
        mon.close(ev.mean_average_prec(E, S), np.mean(ap), "map", "mean average precision is wrong")
        best = ssp.csr_matrix(exp * (2 + rng.rand(D, C)) + rng.rand(D, C) * 0.5)
        mon.close(ev.mean_average_prec(E, best), 1.0, "map:perfect", "a perfect ranking must score one")
    mon.expect(sha(E, S) == before, "inputs", "an argument was modified")
    # perplexity is exp(-likelihood per token)
    n = int(rng.randint(1, 10 ** 6))
    ll = -rng.rand() * n * 10
    mon.close(ev.perplexity_from_like(ll, n), np.exp(-ll / n), "perplexity", "perplexity is wrong", rtol=1e-10)
    from sidetopics.model.common import DataSet
    ds = DataSet(ssp.csr_matrix(rng.randint(1, 5, size=(D, C))), debug=True)
    tokens = ds.words.sum()
    mon.close(ev.perplexity_from_like(ll / n * tokens, ds), np.exp(-ll / n), "perplexity:dataset", "perplexity of a data-set is wrong", rtol=1e-10)
    mon.close(ev.word_perplexity(lambda d, mo, q: -2.5 * tokens, None, None, ds), np.exp(2.5), "perplexity:words", "perplexity of words is wrong", rtol=1e-10)
    mon.seen(D, C, case["expected"], case["retrieved"], str(case["at"]), str(case["groups"]), case["order"])
