"""Document completion: every token of a document goes to exactly one side, and documents stay paired."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen
from vlib.core import rng_of, sha
from vlib.data import dense

META = dict(rule="distinct (corpus kind, dtype, shape, proportion, minimum, seed) splits checked cell by cell",
            min_events={"splits": 150, "cells": 20000})
DTYPES = ["int32", "int64", "float32", "float64", "uint16", "int16", "uint8"]


def cases(tier, seed):
    rng = rng_of("p02", seed)
    n = 1440 if tier == "quick" else 5760
    for i in range(n):
        yield dict(i=i, seed=seed, kind=gen.CORPUS_KINDS[i % 8], dtype=DTYPES[(i // 8) % 7], docs=int([1, 2, 7, 30, 80, 200][i % 6]),
                   words=int([3, 10, 40, 150][(i // 2) % 4]), prop=[0.5, 0.3, 0.1, 0.7, 0.9, 0.95, 0.5, 0.5][(i // 3) % 8],
                   minimum=[0, 0, 1, 2, 3][(i // 5) % 5], split_seed=int(rng.randint(1, 2 ** 31 - 1)) if i % 3 else None,
                   layout=["sorted", "shuffled", "sorted", "zeros"][(i // 7) % 4], cats=["list", None, "array"][i % 3])


def run_case(case, mon):
    from sidetopics.model.common import DataSet
    rng = rng_of(case["i"], case["seed"], "data")
    dt = np.dtype(case["dtype"])
    kind = case["kind"]
    X = gen.corpus(rng, case["docs"], case["words"], kind, dtype=np.int64)
    X.data = np.minimum(X.data, 250).astype(np.int64)
    if case["i"] % 4 == 3 and X.nnz:     # some words that occur very often
        top = {"uint8": 255, "int16": 2 ** 15 - 1, "uint16": 2 ** 16 - 1, "int32": 2 ** 31 - 1, "float32": 2 ** 24}.get(case["dtype"], 2 ** 40)
        some = rng.rand(X.nnz) < 0.2
        X.data[some] = (top * rng.uniform(0.3, 1, size=some.sum())).astype(np.int64)
    X = ssp.csr_matrix(X.astype(dt))
    if case["layout"] == "shuffled":
        X = gen.shuffled_indices(rng, X)
    elif case["layout"] == "zeros":
        X = gen.with_explicit_zeros(rng, X)
    D = X.shape[0]
    cats = None if case["cats"] is None else [["cat-%d" % d] for d in range(D)]
    if case["cats"] == "array":
        cats = np.array(["cat-%d" % d for d in range(D)])
    order = np.random.RandomState(case["i"]).permutation(10 * D)[:D]
    L = gen.links(rng, D, dtype=np.float64) if case["minimum"] == 0 and case["i"] % 2 else None
    vocab = np.array(["w%d" % w for w in range(X.shape[1])])
    ds = DataSet(X, links=L, word_dict=vocab, doc_categories=cats, order=order.copy(), debug=True)
    full = dense(X).astype(np.float64)
    before = sha(X)
    kw = dict(est_prop=case["prop"], min_unique_word_count=case["minimum"])
    if case["split_seed"] is not None:
        kw["seed"] = case["split_seed"]
    np.random.seed(case["i"])
    state = np.random.get_state()[1].copy()
    if case["minimum"] > 0:
        # the rows that survive, from the unrestricted split with the same seed
        e0, q0 = ds.doc_completion_split(est_prop=case["prop"], **({"seed": kw["seed"]} if "seed" in kw else {}))
        keep = np.where(((dense(e0.words) != 0).sum(axis=1) >= case["minimum"]) & ((dense(q0.words) != 0).sum(axis=1) >= case["minimum"]))[0]
        if len(keep) == 0:
            try:
                ds.doc_completion_split(**kw)
                mon.fail("empty", "a split without documents was returned")
            except AssertionError:
                mon.count("rejected")
            return
    else:
        keep = np.arange(D)
    est, qry = ds.doc_completion_split(**kw)
    a, b = dense(est.words), dense(qry.words)
    mon.count("splits")
    mon.count("cells", X.nnz)
    mon.expect(a.shape == b.shape == (len(keep), X.shape[1]), "shape", "wrong shape", got=[a.shape, b.shape], want=[len(keep), X.shape[1]])
    if a.shape != (len(keep), X.shape[1]) or b.shape != a.shape:
        return
    a, b = a.astype(np.float64), b.astype(np.float64)
    mon.expect(np.array_equal(a + b, full[keep]), "conserved", "the two sides do not add up to the document",
               where=np.argwhere(a + b != full[keep])[:5])
    mon.expect((a >= 0).all() and (b >= 0).all(), "negative", "a side holds a negative count", low=[a.min(), b.min()])
    mon.expect(np.array_equal(a, np.round(a)) and np.array_equal(b, np.round(b)), "whole", "a side holds a fractional token")
    mon.expect(est.words.dtype == dt and qry.words.dtype == dt, "dtype", "the count type changed", got=[str(est.words.dtype), str(qry.words.dtype)])
    if cats is not None:
        want = [cats[k] if isinstance(cats, np.ndarray) else cats[k] for k in keep]
        mon.expect(list(map(str, est.doc_categories)) == list(map(str, want)) and list(map(str, qry.doc_categories)) == list(map(str, want)),
                   "categories", "categories do not belong to the retained documents")
    for side in (est, qry):
        mon.expect(np.array_equal(side.order, order[keep]), "order", "a side records other documents than those it has", got=side.order, want=order[keep])
        mon.expect(list(side.word_dict) == list(vocab), "dictionary", "a side has another vocabulary")
        mon.expect(L is None and side.links is None or L is not None and np.array_equal(dense(side.links), dense(L)), "links", "a side has other links")
    if case["minimum"] > 0:
        mon.expect(((a != 0).sum(axis=1) >= case["minimum"]).all() and ((b != 0).sum(axis=1) >= case["minimum"]).all(), "minimum",
                   "a side has fewer distinct words than asked for")
    # proportion: the estimation side gets about est_prop of the tokens.  Each cell is rounded, so compare only cells of
    # size >= 8 whose expected share is unaffected by clipping
    big = full[keep] >= 8
    if big.sum() >= 60:
        share = a[big].sum() / full[keep][big].sum()
        mon.expect(abs(share - case["prop"]) < 0.08, "proportion", "estimation share is far from the requested one", got=share, want=case["prop"])
        mon.count("proportions")
    e2, q2 = ds.doc_completion_split(**kw)
    mon.expect(np.array_equal(dense(e2.words), dense(est.words)) and np.array_equal(dense(q2.words), dense(qry.words)), "repeatable",
               "the same seed split the documents differently")
    mon.expect(np.array_equal(np.random.get_state()[1], state), "global-rng", "the split consumed the global random state")
    mon.expect(sha(X) == before, "source", "splitting changed the source data")
    # tidying one side (which scipy also does by itself) is nothing to the others
    for side, other, held, kept in ((e2, q2, b, a), (q2, e2, a, b)):
        side.words.sort_indices()
        side.words.eliminate_zeros()
        mon.expect(np.array_equal(dense(other.words), held) and np.array_equal(dense(side.words), kept), "shared", "tidying one side changed the other")
        mon.expect(sha(X) == before and np.array_equal(dense(ds.words), full), "shared-source", "tidying one side changed the original")
        mon.count("tidied")
    if "seed" in kw and full.sum() > 400 and case["minimum"] == 0:
        e3, _ = ds.doc_completion_split(est_prop=case["prop"], seed=kw["seed"] + 1)
        if case["prop"] == 0.5:
            mon.expect(not np.array_equal(dense(e3.words), dense(est.words)), "seeded", "another seed gave the same split of a large corpus")
    # with features the data-set itself is used on both sides
    if case["i"] % 10 == 0:
        fd = DataSet(X, feats=gen.feats(rng, D, 3), debug=True)
        l, r = fd.doc_completion_split(**kw)
        mon.expect(np.array_equal(dense(l.words), dense(X)) and np.array_equal(dense(r.words), dense(X)), "features",
                   "a data-set with features must be returned whole on both sides")
    mon.seen(kind, case["dtype"], D, case["words"], case["prop"], case["minimum"], case["layout"])
