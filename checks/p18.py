"""Token lists, dictionaries and totals are those of the documents' word counts."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen, models
from vlib.core import rng_of, Inconclusive

META = dict(rule="distinct (conversion, corpus, storage, element type) whose every token was counted back",
            min_events={"conversions": 340, "tokens": 200000})
WHAT = ["LDA_GIBBS", "dmr", "LDA_CVB0", "LDA_CVB", "totals", "dictionary"]


def cases(tier, seed):
    n = 1800 if tier == "quick" else 7200
    for i in range(n):
        yield dict(i=i, seed=seed, what=WHAT[i % 6], shape=["small", "empty-docs", "long", "wide", "one-doc", "one-word", "zeros", "unsorted"][(i // 6) % 8],
                   dtype=["int32", "float64", "int64", "float32", "uint16"][(i // 5) % 5], corpus=gen.CORPUS_KINDS[(i // 7) % 8])


def counts(case, rng):
    s = case["shape"]
    if s == "small" or s == "unsorted" or s == "zeros":
        return models.dense(gen.corpus(rng, 12, 20, case["corpus"], np.int64))
    if s == "empty-docs":
        X = models.dense(gen.corpus(rng, 14, 20, case["corpus"], np.int64))
        X[rng.rand(14) < 0.3] = 0
        X[[0, 13][case["i"] % 2]] = 0
        X[5, 3] = 2
        return X
    if s == "long":
        X = np.zeros((3, 8), dtype=np.int64)
        X[0, 2], X[1, 7], X[1, 0], X[2, 5] = 3000, 40000, 1, 255
        return X
    if s == "wide":
        T = [300, 40000, 65535][case["i"] // 48 % 3]
        X = np.zeros((5, T), dtype=np.int64)
        for d in range(5):
            X[d, rng.randint(0, T, size=20)] = rng.randint(1, 4, size=20)
        X[2, T - 1] = 3
        X[4, 0] = 1
        return X
    if s == "one-doc":
        return rng.randint(0, 3, size=(1, 30)) + (np.arange(30) == 4)
    return rng.randint(1, 9, size=(6, 1))


def dataset(case, rng, X, dtype):
    M = ssp.csr_matrix(X.astype(dtype))
    if case["shape"] == "unsorted":
        M = gen.shuffled_indices(rng, M)
    if case["shape"] == "zeros":
        M = gen.with_explicit_zeros(rng, M)
    return models.dataset(M)


def per_document(X, flat, lens, mon, what):
    lens = np.asarray(lens).astype(np.int64)
    if not mon.expect(np.array_equal(lens, X.sum(axis=1)), "lengths:" + what, "document lengths are wrong"):
        return
    flat = np.asarray(flat).astype(np.int64)
    mon.count("tokens", len(flat))
    if not mon.expect(len(flat) == X.sum(), "number:" + what, "the number of tokens is not that of the documents", got=len(flat), want=int(X.sum())):
        return
    back = np.zeros(X.shape, dtype=np.int64)
    docs = np.repeat(np.arange(X.shape[0]), lens)
    if not mon.expect(len(flat) == 0 or (flat.min() >= 0 and flat.max() < X.shape[1]), "range:" + what, "a token is not a word"):
        return
    np.add.at(back, (docs, flat), 1)
    mon.expect(np.array_equal(back, X), "tokens:" + what, "a document's tokens are not its words", wrong=int((back != X).sum()))


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p18")
    what = case["what"]
    X = counts(case, rng)
    mon.seen(what, case["shape"], case["dtype"], case["corpus"] if case["shape"] in ("small", "empty-docs", "zeros", "unsorted") else case["i"] // 48)
    mon.count("conversions")
    if what in ("LDA_GIBBS", "dmr"):
        dt = np.int32 if what == "LDA_GIBBS" and case["dtype"] == "int64" else np.dtype(case["dtype"])
        if what == "dmr":
            import sidetopics.model.dmr as mod
            dt = np.uint16
        else:
            mod = models.module(what)
        ds = dataset(case, rng, X, dt)
        if what == "dmr":
            ds = models.dataset(ds.words, feats=np.ones((X.shape[0], 1)))
        if X.shape[1] >= 65536:
            raise Inconclusive("too many words")
        for K in (2, 200):
            model = mod.newModelAtRandom(ds, K)
            q = mod.newQueryState(ds, model)
            per_document(X, q.w_list, q.docLens, mon, what)
            z = np.asarray(q.z_list).astype(np.int64)
            mon.expect(len(z) == X.sum() and (len(z) == 0 or (z.min() >= 0 and z.max() < K)), "topics:" + what, "a token starts without a topic")
            if len(z) > 4000:
                mon.expect(len(np.unique(z)) > K // 2, "topics-spread:" + what, "tokens start in a few topics only")
        mon.expect(np.array_equal(np.asarray(mod.newQueryState(ds, model).w_list), np.asarray(q.w_list)), "repeat:" + what, "the same documents give another token list")
    elif what in ("LDA_CVB0", "LDA_CVB"):
        mod = models.module(what)
        ds = dataset(case, rng, X, np.dtype(case["dtype"]))
        if X.shape[1] > 1000:       # these keep responsibilities per token and counts per word
            raise Inconclusive("too large for this kind")
        for dt in ((np.float32, np.float64) if X.sum() < 5000 else (np.float32,)):
            model = mod.newModelAtRandom(ds, 2, dtype=dt)
            q = mod.newQueryState(ds, model)
            W = np.asarray(q.W_list)
            lens = np.asarray(q.docLens).astype(np.int64)
            mon.expect(W.shape[0] == X.shape[0] and W.shape[1] >= lens.max(), "shape:" + what, "the token list has the wrong shape", got=W.shape)
            per_document(X, np.concatenate([W[d, :lens[d]] for d in range(len(W))]), lens, mon, what)
            again = mod.newQueryState(ds, model)
            mon.expect(all(np.array_equal(np.asarray(again.W_list)[d, :lens[d]], W[d, :lens[d]]) for d in range(len(W))), "repeat:" + what, "the same documents give another token list")
    elif what == "totals":
        ds = dataset(case, rng, X, np.dtype(case["dtype"]))
        L = rng.randint(0, 3, size=(X.shape[0], X.shape[0]))
        both = models.dataset(ds.words, links=ssp.csr_matrix(L.astype(np.dtype(case["dtype"]))), feats=np.ones((X.shape[0], 2)))
        mon.close(both.word_count, X.sum(), "totals:words", "the number of words is wrong", rtol=1e-9)
        mon.close(both.doc_lens, X.sum(axis=1), "totals:lengths", "document lengths are wrong", rtol=1e-9)
        mon.expect(len(both) == both.doc_count == X.shape[0], "totals:documents", "the number of documents is wrong")
        mon.close(both.link_count, L.sum(), "totals:links", "the number of links is wrong", rtol=1e-9)
        mon.close(both.word_and_link_count, L.sum() + X.sum(), "totals:both", "the number of words and links is wrong", rtol=1e-9)
        mon.close(ds.word_and_link_count, X.sum(), "totals:no-links", "without links, words and links are not the words", rtol=1e-9)
        mon.expect(both.has_links() and not ds.has_links() and both.has_features() and not ds.has_features(), "totals:has", "components are claimed which are not there, or denied")
        mon.count("tokens", X.sum())
        # having been asked for them does not make them any less those of the documents there are
        def now(v, ids, how):
            ids = np.asarray(ids, dtype=int)
            mon.close(v.word_count, X[ids].sum(), "later:words", "the number of words is not that of the documents left", rtol=1e-9, how=how)
            mon.close(v.doc_lens, X[ids].sum(axis=1), "later:lengths", "document lengths are not those of the documents left", rtol=1e-9, how=how)
            mon.close(v.link_count, L[ids][:, ids].sum(), "later:links", "the number of links is not that of the documents left", rtol=1e-9, how=how)
            mon.close(v.word_and_link_count, X[ids].sum() + L[ids][:, ids].sum(), "later:both", "the number of words and links is not that of the documents left", rtol=1e-9, how=how)
            mon.expect(len(v) == v.doc_count == len(ids), "later:documents", "the number of documents is not that of those left", how=how)
            d = v.gensim_dictionary() if X.shape[1] < 100 and X[ids].sum() < 5000 else None
            mon.expect(d is None or (d.num_docs == len(ids) and d.num_pos == X[ids].sum()), "later:dictionary", "the dictionary is not that of the documents left", how=how)
            mon.count("later")
        D = X.shape[0]
        step = case["i"] // 6 % 4
        v = both.copy(deep=bool(step % 2)) if step else both
        now(v, range(D), "copied")
        if step < 2:
            distinct = np.asarray((v.words != 0).sum(axis=1)).ravel()
            least = int(rng.choice(distinct))
            if distinct.max() > 0:
                v.prune_and_shuffle(min_unique_word_count=least, min_link_count=0, seed=int(rng.randint(1000)))
                now(v, v.order, "pruned")
        elif step == 2:
            v.convert_to_dtype(np.float64)
            now(v, range(D), "converted")
        else:
            v.convert_to_binary_link_matrix()
            mon.close(v.link_count, (L > 0).sum(), "later:links", "the number of links is not that of the links there are", rtol=1e-9)
            mon.close(v.word_and_link_count, X.sum() + (L > 0).sum(), "later:both", "the number of words and links is not that of those there are", rtol=1e-9)
        now(both, range(D) if v is not both else both.order if both.order is not None else range(D), "source")
        cut = ds.doc_completion_split(seed=3, debug=True)
        mon.close(cut[0].word_count + cut[1].word_count, ds.word_count, "later:completion", "the tokens of both sides are not those there were", rtol=1e-9)
        mon.close(cut[0].word_count, cut[0].words.sum(), "later:completion", "the number of words is not that of the documents", rtol=1e-9)
    else:
        if X.shape[1] > 1000 or X.sum() > 5000:
            X = X[:, -300:]
            X = np.minimum(X, 50)
        ds = dataset(case, rng, X, np.dtype(case["dtype"]))
        d = ds.gensim_dictionary()
        mon.count("tokens", X.sum())
        df = (X > 0).sum(axis=0)
        mon.expect(d.num_docs == X.shape[0], "dictionary:documents", "the dictionary's number of documents is wrong", got=d.num_docs)
        mon.expect(d.num_pos == X.sum(), "dictionary:words", "the dictionary's number of words is wrong", got=d.num_pos, want=int(X.sum()))
        mon.expect(d.num_nnz == (X > 0).sum(), "dictionary:nnz", "the dictionary's number of distinct words per document is wrong")
        mon.expect(all(d.dfs.get(t, 0) == df[t] for t in range(X.shape[1])) and set(d.dfs) <= set(range(X.shape[1])), "dictionary:frequency", "a word's document frequency is wrong")
        mon.expect(all(t in d.token2id.values() for t in np.flatnonzero(df)), "dictionary:missing", "a word which occurs is not in the dictionary")
