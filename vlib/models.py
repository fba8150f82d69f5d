"""The topic models behind the scikit-learn style facade: making them, reading their state, and the
definitions their outputs are compared with."""
import numpy as np
import scipy.sparse as ssp
from . import gen
from .core import rng_of, sha

KINDS = ("LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL", "LDA_GIBBS", "MOM_VB", "MOM_GIBBS")
MIXTURES = ("MOM_VB", "MOM_GIBBS")
SAMPLERS = ("LDA_GIBBS", "MOM_GIBBS")


def lib():
    import sidetopics.model.sklearn.lda_cvb as L
    return L


def module(kind):
    return lib().TopicModelType[kind].value


def facade(kind, **kw):
    kw.setdefault("seed", 5)
    kw.setdefault("n_components", 3)
    kw.setdefault("iterations", 20)
    return lib().TopicModel(kind=kind, **kw)


def dataset(X, **kw):
    from sidetopics.model.common import DataSet
    return DataSet(X, **kw)


def arrays(state):
    """{field: array} of the numeric content of a model or query state (a named tuple)"""
    out = {}
    for name in state._fields:
        v = getattr(state, name)
        if v is None or isinstance(v, (str, bool, type)) or name in ("dtype", "name"):
            continue
        if isinstance(v, np.ndarray) or np.isscalar(v) or ssp.issparse(v) or isinstance(v, (list, tuple)):
            out[name] = v
        else:
            try:
                out[name] = np.asarray(v)
            except Exception:
                pass
    return out


def snapshot(state):
    """{field: hash} - two states are the same when the snapshots are equal"""
    if state is None:
        return None
    return {k: _print(v) for k, v in arrays(state).items()}


def _print(v):
    if isinstance(v, (list, tuple)):
        return tuple(_print(o) for o in v)
    if hasattr(v, "_fields"):
        return snapshot(v)
    return sha(v if ssp.issparse(v) else np.asarray(v))


def changed(before, after):
    if before is None or after is None:
        return [] if before is after else ["everything"]
    return sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))


def dense(X):
    return np.asarray(X.todense()) if ssp.issparse(X) else np.asarray(X)


def definition_ll(kind, X, y, comps):
    """Per-document log-likelihood of the counts X, topic weights y and word distributions comps, straight from
    the formulas: admixture sum_t x_dt ln (sum_k y_dk c_kt);  mixture ln sum_k y_dk prod_t c_kt^x_dt."""
    X, y, comps = dense(X).astype(np.float64), np.asarray(y, dtype=np.float64), np.asarray(comps, dtype=np.float64)
    D = X.shape[0]
    out = np.zeros(D)
    with np.errstate(all="ignore"):
        for d in range(D):
            nz = np.nonzero(X[d])[0]
            if kind in MIXTURES:
                ks = np.nonzero(y[d] > 0)[0]
                l = np.log(y[d, ks]) + (X[d, nz][None, :] * np.log(comps[ks][:, nz])).sum(axis=1)
                m = l.max()
                out[d] = m + np.log(np.exp(l - m).sum())
            else:
                out[d] = (X[d, nz] * np.log(y[d].dot(comps[:, nz]))).sum()
    return out


def formats(X, which, rng=None):
    if which == "csr":
        return X
    if which == "csc":
        return X.tocsc()
    if which == "coo":
        return X.tocoo()
    if which == "dense":
        return dense(X)
    if which == "unsorted":
        return gen.shuffled_indices(rng, X)
    raise ValueError(which)


def covering(rng, docs, words, kind, dtype, **kw):
    """A corpus in which every word occurs, so that no model gives a word probability zero in every topic"""
    X = dense(gen.corpus(rng, docs, words, kind, dtype=np.int64, **kw))
    for t in np.where(X.sum(axis=0) == 0)[0]:
        X[rng.randint(docs), t] = 1
    m = ssp.csr_matrix(X.astype(dtype))
    m.sort_indices()
    return m


def reseed(value):
    """Puts every source of randomness the models draw from in a known state"""
    import sidetopics.model.lda_gibbs as g
    g.seed_rng(int(value) & 0x7FFFFFFF)


def is_distribution(mon, P, shape, mech, what, tol=1e-6, neg=0.0):
    P = np.asarray(P)
    if not mon.expect(P.shape == tuple(shape), mech + ":shape", what + " has the wrong shape", got=P.shape, want=shape):
        return False
    ok = mon.expect(np.issubdtype(P.dtype, np.floating), mech + ":dtype", what + " is not made of floats", got=str(P.dtype))
    ok &= mon.expect(np.isfinite(P).all(), mech + ":finite", what + " holds NaN or infinity", bad=int((~np.isfinite(P)).sum()))
    ok &= mon.expect((P >= -neg).all(), mech + ":negative", what + " holds a negative probability", low=float(np.nanmin(P)) if P.size else 0)
    s = P.sum(axis=1, dtype=np.float64)
    ok &= mon.expect((np.abs(s - 1) <= tol).all(), mech + ":sum", what + " does not add up to one",
                     worst=float(np.nanmax(np.abs(s - 1))) if s.size else 0)
    return ok
