"""Data-sets whose every row carries its own identity in every component, so that a monitor can tell
from any derived data-set which original document each row came from."""
import numpy as np
import scipy.sparse as ssp
from . import gen
from .core import rng_of


def tagged(seed, docs, words, kind="topical", dtype=np.int64, with_feats=True, with_links="square", cats="list",
           dict_kind="array", feat_dtype=np.float64, dense_feats=False):
    """-> dict(words, feats, links, word_dict, doc_categories).  Column 0 of words, column 0 of feats and the
    diagonal (square) or column 0 (rectangular) of links are id+1; categories carry the id."""
    rng = rng_of("tagged", seed, docs, words, kind)
    w = gen.corpus(rng, docs, words, kind, dtype=np.int64).tolil()
    for d in range(docs):
        w[d, 0] = d + 1
    w = ssp.csr_matrix(w.tocsr().astype(dtype))
    f = l = c = wd = None
    if with_feats:
        a = gen.feats(rng, docs, 4, intercept=False, dense=True)
        a[:, 0] = np.arange(docs) + 1
        f = a.astype(feat_dtype) if dense_feats else ssp.csr_matrix(a.astype(feat_dtype))
    if with_links == "square":
        a = gen.links(rng, docs, density=0.2).toarray()
        np.fill_diagonal(a, np.arange(docs) + 1)
        l = ssp.csr_matrix(a)
    elif with_links == "rect":
        a = gen.links(rng, docs, cols=docs + 3, density=0.2).toarray()
        a[:, 0] = np.arange(docs) + 1
        l = ssp.csr_matrix(a)
    if cats == "list":
        c = [["cat-%d" % d] for d in range(docs)]
    elif cats == "array":
        c = np.array(["cat-%d" % d for d in range(docs)])
    if dict_kind == "array":
        wd = np.array(["w%d" % i for i in range(words)])
    elif dict_kind == "list":
        wd = ["w%d" % i for i in range(words)]
    return dict(words=w, feats=f, links=l, word_dict=wd, doc_categories=c)


def dense(m):
    return None if m is None else (np.asarray(m.todense()) if ssp.issparse(m) else np.asarray(m))


def cat_id(c):
    s = c if isinstance(c, str) else c[0]
    return int(str(s).split("-")[1])


def check_rows(mon, ds, src, ids, mech, links="rows", check_order=True):
    """ds must contain exactly the rows `ids` of src, in that order, in every component"""
    ids = np.asarray(ids)
    W = dense(src["words"])
    mon.expect(ds.words.shape[0] == len(ids) and len(ds) == len(ids) and ds.doc_count == len(ids), mech + ":size",
               "wrong number of documents", got=int(ds.words.shape[0]), want=len(ids))
    if ds.words.shape[0] != len(ids):
        return False
    ok = mon.expect(np.array_equal(dense(ds.words), W[ids]), mech + ":words", "document rows differ from the originals")
    if src["feats"] is not None:
        ok &= mon.expect(np.array_equal(dense(ds.feats), dense(src["feats"])[ids]), mech + ":feats", "feature rows are not those of the documents")
    else:
        ok &= mon.expect(ds.feats is None, mech + ":feats", "features appeared")
    if src["links"] is not None:
        want = dense(src["links"])[ids]
        if links == "square" and src["links"].shape[0] == src["links"].shape[1]:
            want = want[:, ids]
        ok &= mon.expect(np.array_equal(dense(ds.links), want), mech + ":links", "link rows are not those of the documents")
    else:
        ok &= mon.expect(ds.links is None, mech + ":links", "links appeared")
    if src["doc_categories"] is not None:
        got = [cat_id(c) for c in ds.doc_categories]
        ok &= mon.expect(got == list(ids), mech + ":categories", "categories are not those of the documents", got=got[:20], want=list(ids[:20]))
    if check_order:
        ok &= mon.expect(list(np.asarray(ds.order)) == list(ids), mech + ":order", "recorded order does not identify the documents",
                         got=list(ds.order[:20]), want=list(ids[:20]))
    return bool(ok)
