"""Link hold-out: links are never lost, invented, changed or present on both sides."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen
from vlib.core import rng_of, sha
from vlib.data import dense

META = dict(rule="distinct (graph shape, density, symmetry, dtype, split kind) hold-outs checked link by link",
            min_events={"random_splits": 100, "folded_splits": 100, "links_checked": 5000})


def cases(tier, seed):
    rng = rng_of("p03", seed)
    n = 1440 if tier == "quick" else 5760
    for i in range(n):
        yield dict(i=i, seed=seed, docs=int([2, 5, 12, 30, 61][i % 5]), rect=int([0, 0, 3, -1][(i // 5) % 4]),
                   density=[0.03, 0.15, 0.5, 0.9][(i // 3) % 4], dtype=["int32", "float64", "float32", "int64"][(i // 2) % 4],
                   mode=["symmetric", "plain", "folded"][i % 3], diagonal=bool((i // 4) % 2), folds=int([2, 3, 5, 4, 10][(i // 6) % 5]),
                   minimum=int([1, 2, 3, 5, 8][(i // 7) % 5]), split_seed=int(rng.randint(1, 2 ** 31 - 1)),
                   layout=["sorted", "shuffled"][(i // 3) % 2])


def run_case(case, mon):
    from sidetopics.model.common import DataSet
    rng = rng_of(case["i"], case["seed"], "links")
    docs = case["docs"]
    cols = docs if case["mode"] == "symmetric" or case["rect"] == 0 else max(1, docs + case["rect"])
    L = gen.links(rng, docs, cols, case["density"], dtype=np.dtype(case["dtype"]), symmetric=case["mode"] == "symmetric",
                  diagonal=case["diagonal"] or cols != docs)
    if case["layout"] == "shuffled":
        L = gen.shuffled_indices(rng, L)
    X = gen.corpus(rng, docs, 12, "uniform")
    F = gen.feats(rng, docs, 3)
    order = rng.permutation(1000)[:docs] if case["i"] % 3 else None
    cats = ["c%d" % c for c in rng.randint(0, 4, docs)]
    ds = DataSet(X, feats=F, links=L, doc_categories=list(cats), order=None if order is None else order.copy(), debug=True)
    order = np.arange(docs) if order is None else order
    before = sha(L, X, F)
    full = dense(L).astype(np.float64)
    if case["mode"] != "folded":
        sym = case["mode"] == "symmetric"
        a_ds, b_ds = ds.link_prediction_split(symmetric=sym, seed=case["split_seed"])
        a, b = dense(a_ds.links).astype(np.float64), dense(b_ds.links).astype(np.float64)
        mon.count("random_splits")
        mon.expect(a.shape == full.shape and b.shape == full.shape, "shape", "the graph changed shape")
        mon.expect(np.array_equal(a + b, full), "conserved", "the two sides do not add up to the graph", where=np.argwhere(a + b != full)[:5])
        mon.expect(not ((a != 0) & (b != 0)).any(), "disjoint", "a link is on both sides")
        if sym:
            mon.expect(np.array_equal(a, a.T) and np.array_equal(b, b.T), "symmetric", "a side of a symmetric split is not symmetric")
            n = (np.tril(full) != 0).sum()
            na = (np.tril(a) != 0).sum()
        else:
            n, na = (full != 0).sum(), (a != 0).sum()
        mon.expect(abs(2 * na - n) <= 1, "halves", "the sides are not halves", left=int(na), total=int(n))
        mon.expect(a_ds.links.dtype == L.dtype and b_ds.links.dtype == L.dtype, "dtype", "link dtype changed")
        a2, b2 = ds.link_prediction_split(symmetric=sym, seed=case["split_seed"])
        mon.expect(np.array_equal(dense(a2.links), dense(a_ds.links)), "repeatable", "same seed, different split")
        if n > 60:
            a3, _ = ds.link_prediction_split(symmetric=sym, seed=case["split_seed"] ^ 1)
            mon.expect(not np.array_equal(dense(a3.links), dense(a_ds.links)), "seeded", "another seed split a large graph identically")
        parts = (a_ds, b_ds)
    else:
        held = np.zeros(full.shape, dtype=int)
        subset0 = None
        parts = ()
        for fold in range(case["folds"]):
            a_ds, b_ds, subset = ds.folded_link_prediction_split(case["minimum"], fold, case["folds"])
            a, b = dense(a_ds.links).astype(np.float64), dense(b_ds.links).astype(np.float64)
            mon.count("folded_splits")
            n_out = (full != 0).sum(axis=1)
            want_sub = [d for d in range(docs) if n_out[d] >= case["minimum"]]
            mon.expect(list(subset) == want_sub, "subset", "wrong documents were reported as split", got=list(subset), want=want_sub)
            s = np.array(want_sub, dtype=int)
            rest = np.array(sorted(set(range(docs)) - set(want_sub)), dtype=int)
            mon.expect(np.array_equal((a + b)[s], full[s]), "conserved", "links of a split document were lost, made or changed", fold=fold)
            mon.expect(not ((a[s] != 0) & (b[s] != 0)).any(), "disjoint", "a link is on both sides", fold=fold)
            mon.expect(((b[s] != 0).sum(axis=1) == n_out[s] // case["folds"]).all(), "fold-size",
                       "the held-out share of a document is not one fold", fold=fold)
            mon.expect(np.array_equal(a[rest], full[rest]), "small-docs", "a document below the minimum lost training links", fold=fold)
            h = np.zeros(full.shape, dtype=int)
            h[s] = (b[s] != 0)
            held += h
            parts = (a_ds, b_ds)
        mon.expect(held.max(initial=0) <= 1, "once", "a link is held out in two folds")
        even = [d for d in range(docs) if (full[d] != 0).sum() >= case["minimum"] and (full[d] != 0).sum() % case["folds"] == 0]
        if even:
            mon.expect((held[even] == (full[even] != 0)).all(), "every", "a link of an evenly divisible document is never held out")
            mon.count("evenly_divided_docs", len(even))
    for p in parts:
        mon.expect(np.array_equal(dense(p.words), dense(X)) and np.array_equal(dense(p.feats), dense(F)), "words", "words or features changed")
        mon.expect(np.array_equal(p.order, order), "order", "the split forgot which documents it is about", got=p.order, want=order)
        mon.expect(list(p.doc_categories) == cats, "categories", "the categories of documents changed")
    mon.expect(sha(L, X, F) == before, "source", "splitting changed the source data")
    mon.count("links_checked", int((full != 0).sum()))
    # undirected / binary conversions
    if cols == docs:
        u = DataSet(X, links=L.copy(), debug=True)
        u.convert_to_undirected_graph()
        ul = dense(u.links)
        mon.expect(np.array_equal(ul, ul.T) and np.array_equal(ul != 0, (full != 0) | (full.T != 0)), "undirected",
                   "the undirected graph is not the union of both directions")
        u.convert_to_binary_link_matrix()
        mon.expect(np.array_equal(dense(u.links), (ul != 0).astype(float)), "binary", "binary links are not 0/1 of the links")
    mon.seen(case["mode"], docs, cols, case["density"], case["dtype"], case["diagonal"], case["folds"], case["minimum"], case["layout"])
