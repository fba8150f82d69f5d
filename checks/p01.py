"""Cross-validation splits partition the documents and keep every component of a document together."""
import numpy as np
from vlib.data import tagged, check_rows, dense
from vlib.core import rng_of

META = dict(rule="distinct (documents, folds, component configuration) splits whose rows were identified individually",
            min_events={"splits": 200, "docs_identified": 2000},
            assumptions=["rows carry unique identities in column 0, so a swapped or lost row is always visible"])


def cases(tier, seed):
    rng = rng_of("p01", seed)
    sizes = [2, 3, 5, 7, 10, 11, 16, 25, 49, 50, 64, 97]
    n = 900 if tier == "quick" else 3600
    for i in range(n):
        docs = int(sizes[i % len(sizes)] if i % 3 else rng.randint(2, 140))
        folds = int([2, 3, 4, 5, 7, 10, docs][i % 7] if i % 4 else rng.randint(2, 21))
        yield dict(i=i, seed=seed, docs=docs, folds=max(2, folds), feats=bool(i % 2), links=["square", "rect", None][i % 3],
                   cats=["list", "array", None][(i // 2) % 3], dense_feats=bool((i // 3) % 2), debug=bool((i // 5) % 2))


def run_case(case, mon):
    from sidetopics.model.common import DataSet
    docs, folds = case["docs"], case["folds"]
    src = tagged(case["i"], docs, 12, with_feats=case["feats"], with_links=case["links"], cats=case["cats"], dense_feats=case["dense_feats"])
    order = np.random.RandomState(case["i"]).permutation(10 * docs)[:docs] if case["i"] % 2 else np.arange(docs)
    ds = DataSet(debug=case["debug"], order=order.copy() if case["i"] % 2 else None, **src)
    size = -(-docs // folds)
    if size >= docs:          # nothing would be left to train on
        return
    hit = np.zeros(docs, dtype=int)
    before = [dense(src[k]).copy() if src[k] is not None else None for k in ("words", "feats", "links")]
    for fold in range(folds):
        tr_ix, qu_ix = ds.cross_valid_split_indices(fold, folds)
        train, query = ds.cross_valid_split(fold, folds, debug=case["debug"])
        tr_ids = dense(train.words)[:, 0].astype(int) - 1
        qu_ids = dense(query.words)[:, 0].astype(int) - 1
        mon.expect(sorted(list(tr_ids) + list(qu_ids)) == list(range(docs)), "partition",
                   "train and query documents are not a partition of the corpus", fold=fold, train=tr_ids, query=qu_ids)
        mon.expect(len(qu_ids) == size, "fold-size", "query fold has the wrong size", fold=fold, got=len(qu_ids), want=size)
        mon.expect(list(tr_ix) == list(tr_ids) and list(qu_ix) == list(qu_ids), "indices", "the indices and the split disagree", fold=fold)
        check_rows(mon, train, src, tr_ids, "train", check_order=case["i"] % 2 == 0)
        check_rows(mon, query, src, qu_ids, "query", check_order=case["i"] % 2 == 0)
        for part in (train, query):
            mon.expect(part.word_dict is src["word_dict"] or list(part.word_dict) == list(src["word_dict"]), "dictionary", "vocabulary changed")
            mon.expect(part.words.shape[1] == src["words"].shape[1], "columns", "vocabulary size changed")
        mon.expect(np.array_equal(train.order, order[tr_ids]) and np.array_equal(query.order, order[qu_ids]), "order",
                   "the documents of a side are not recorded as those they are", fold=fold)
        hit[qu_ids] += 1
        mon.count("splits")
        mon.count("docs_identified", docs)
        # the same fold again is the same split
        t2, q2 = ds.cross_valid_split(fold, folds)
        mon.expect(np.array_equal(dense(t2.words), dense(train.words)) and np.array_equal(dense(q2.words), dense(query.words)),
                   "repeatable", "asking for the same fold twice gave different documents", fold=fold)
        # the token counts are conserved
        mon.expect(train.word_count + query.word_count == ds.word_count, "tokens", "tokens were lost or made")
    mon.expect((hit >= 1).all(), "coverage", "some document is never held out", docs=np.where(hit == 0)[0])
    if docs % folds == 0:
        mon.expect((hit == 1).all(), "once", "a document is held out in more than one fold", docs=np.where(hit > 1)[0])
    else:
        mon.expect(hit.sum() == size * folds, "total", "held-out total is wrong")
    after = [dense(src[k]) if src[k] is not None else None for k in ("words", "feats", "links")]
    mon.expect(all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(before, after)), "source", "splitting changed the source data")
    for bad in ((folds, folds), (0, 1)):
        try:
            ds.cross_valid_split(*bad)
            mon.fail("misuse", "an impossible fold was accepted", fold=bad)
        except AssertionError:
            mon.count("rejected")
    mon.seen(docs, folds, case["feats"], case["links"], case["cats"], case["dense_feats"])
