"""The models behind no facade: correlated topic models, models of links and of side information, regression on features."""
import importlib
import numpy as np
from . import gen, models

# name: positional arguments after the data set, given (K, number of features)
FAMILIES = {
    "ctm": lambda K: (K,),
    "ctm_bohning": lambda K: (K,),
    "ctm_grad_arb": lambda K: (K,),
    "mtm3": lambda K: (K,),
    "lro_vb": lambda K: (K,),
    "stm_yv": lambda K: (2, K, 0.01, 0.01),
    "stm_yv_bohning": lambda K: (2, K, 0.01, 0.01),
    "stm_uv_vecy_bohning": lambda K: (2, K, 0.01, 0.01),
    "dmr": lambda K: (K,),
}
LINKS = ("mtm3", "lro_vb")
FEATS = ("stm_yv", "stm_yv_bohning", "stm_uv_vecy_bohning", "dmr")


def module(name):
    return importlib.import_module("sidetopics.model." + name)


def dtype(name):
    return np.uint16 if name == "dmr" else np.float64


def data(name, X, feats=None, links=None):
    """a data set with the components the family needs, of the element types it needs"""
    kw = {}
    if feats is not None:
        kw["feats"] = feats
    if links is not None:
        kw["links"] = links
    return models.dataset(X.astype(dtype(name)), **kw)


def plan(name, iterations, log=0, **kw):
    m = module(name)
    if name == "dmr":
        return m.newTrainPlan(iterations, thin=1, **kw)
    if name == "lro_vb":
        return m.newTrainPlan(iterations=iterations, ldaIterations=5, logFrequency=log, **kw)
    return m.newTrainPlan(iterations=iterations, logFrequency=log, **kw)


def start(name, ds, K):
    m = module(name)
    model = m.newModelAtRandom(ds, *FAMILIES[name](K), dtype=np.float64)
    return model, m.newQueryState(ds, model)


def train(name, ds, K, iterations, log=0, **kw):
    m = module(name)
    model, q = start(name, ds, K)
    out = m.train(ds, model, q, plan(name, iterations, log, **kw))
    return out[0], out[1]


def word_dists(name, model):
    m = module(name)
    if hasattr(m, "wordDists"):
        return np.asarray(m.wordDists(model))
    if hasattr(m, "vocab"):
        return np.asarray(m.vocab(model))
    return np.asarray(model.vocab)


def topic_dists(name, q):
    """what the family says, if it says; else the soft-max of its means, which is what its likelihood uses"""
    m = module(name)
    if hasattr(m, "topicDists"):
        return np.asarray(m.topicDists(q))
    e = np.exp(q.means - q.means.max(axis=1)[:, None])
    return e / e.sum(axis=1)[:, None]
