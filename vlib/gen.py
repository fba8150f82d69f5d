"""Workload generators: corpora, features, link graphs.  Everything is determined by a RandomState."""
import numpy as np
import scipy.sparse as ssp

CORPUS_KINDS = ("topical", "uniform", "skewed", "binary", "single", "blocks", "wide", "heavy")


def corpus(rng, docs, words, kind="topical", dtype=np.int32, allow_empty_docs=False, topics=3, length=25):
    """A CSR matrix of token counts, sorted, without explicit zeros.  Every document has a token unless
    allow_empty_docs, in which case roughly every seventh is empty."""
    counts = np.zeros((docs, words), dtype=np.int64)
    if kind in ("topical", "skewed", "heavy"):
        vocab = rng.dirichlet([0.15] * words, size=topics)
        for d in range(docs):
            n = max(1, int(rng.poisson(length)))
            if kind == "heavy":
                n *= 1 + int(rng.randint(0, 12))
            mix = rng.dirichlet([0.3] * topics) if kind != "skewed" else np.eye(topics)[rng.randint(topics)]
            p = mix.dot(vocab)
            counts[d] = rng.multinomial(n, p / p.sum() * (1 - 1e-12))
        if kind == "skewed":
            for d in rng.randint(0, docs, size=max(1, docs // 8)):
                counts[d, rng.randint(words)] += int(rng.randint(30, 200))
    elif kind == "uniform":
        counts = rng.poisson(length / float(words), size=(docs, words))
    elif kind == "binary":
        counts = (rng.rand(docs, words) < min(0.6, length / float(words) * 0.5)).astype(np.int64)
    elif kind == "single":
        counts[np.arange(docs), rng.randint(0, words, size=docs)] = 1
        for d in range(0, docs, 3):
            counts[d] += rng.poisson(0.4, size=words)
    elif kind == "blocks":
        lo = words // 2
        for d in range(docs):
            cols = np.arange(lo) if d % 2 and lo else np.arange(lo, words)
            for w in rng.choice(cols, size=max(1, length // 2)):
                counts[d, w] += 1
    elif kind == "wide":
        for d in range(docs):
            for w in rng.randint(0, words, size=max(1, length // 4)):
                counts[d, w] += int(rng.randint(1, 4))
    else:
        raise ValueError(kind)
    for d in np.where(counts.sum(axis=1) == 0)[0]:
        counts[d, rng.randint(words)] = 1
    if allow_empty_docs:
        for d in range(docs):
            if rng.rand() < 0.15 and docs > 2:
                counts[d] = 0
        if counts.sum() == 0:
            counts[0, 0] = 1
    m = ssp.csr_matrix(counts.astype(dtype))
    m.sort_indices()
    return m


def links(rng, docs, cols=None, density=0.15, dtype=np.int32, symmetric=False, diagonal=True, maxval=3):
    cols = docs if cols is None else cols
    m = (rng.rand(docs, cols) < density) * rng.randint(1, maxval + 1, size=(docs, cols))
    if symmetric:
        m = np.tril(m)
        m = m + np.tril(m, -1).T
    if not diagonal:
        np.fill_diagonal(m, 0)
    return ssp.csr_matrix(m.astype(dtype))


def feats(rng, docs, count, dtype=np.float64, dense=False, intercept=True):
    m = (rng.rand(docs, count) < 0.4).astype(np.float64) * rng.randint(1, 4, size=(docs, count))
    if intercept and count:
        m[:, 0] = 1
    return m.astype(dtype) if dense else ssp.csr_matrix(m.astype(dtype))


def shuffled_indices(rng, m):
    """The same matrix with column indices in random order inside each row."""
    m = m.copy()
    for r in range(m.shape[0]):
        a, b = m.indptr[r], m.indptr[r + 1]
        p = rng.permutation(b - a)
        m.indices[a:b] = m.indices[a:b][p]
        m.data[a:b] = m.data[a:b][p]
    m.has_sorted_indices = False
    return m


def with_explicit_zeros(rng, m):
    c = m.tocoo()
    extra = max(1, c.nnz // 6)
    rows = np.concatenate([c.row, rng.randint(0, m.shape[0], extra)])
    cols = np.concatenate([c.col, rng.randint(0, m.shape[1], extra)])
    data = np.concatenate([c.data, np.zeros(extra, dtype=c.data.dtype)])
    return ssp.coo_matrix((data, (rows, cols)), shape=m.shape).tocsr()


def unordered(rng, low, high):
    return int(rng.randint(low, high + 1))
