"""Every operation that selects or reorders documents keeps the components of each document together."""
import os
import pickle as pkl
import tempfile
import numpy as np
import scipy.sparse as ssp
from vlib import gen
from vlib.core import rng_of
from vlib.data import tagged, check_rows, dense, cat_id

META = dict(rule="distinct (operation, shape, component configuration) whose resulting rows were identified individually",
            min_events={"ops": 200, "docs_identified": 3000},
            assumptions=["rows carry unique identities in every component"])
OPS = ["prune", "prune_links", "load", "load_order", "limit", "min_freq", "copy", "feature_split", "dtypes", "intercept", "dropcols", "history", "history"]


def cases(tier, seed):
    n = 4680 if tier == "quick" else 14040
    for i in range(n):
        yield dict(i=i, seed=seed, op=OPS[i % len(OPS)], docs=int([3, 6, 13, 40, 77][(i // 13) % 5]), words=int([4, 12, 30][(i // 5) % 3]),
                   feats=bool((i // 2) % 2), links=["square", "rect", None][(i // 3) % 3], cats=["list", "array", None][(i // 4) % 3],
                   dict_kind=["array", "list", None][(i // 7) % 3], dense_feats=bool((i // 6) % 2),
                   kind=["topical", "single", "binary", "wide"][(i // 9) % 4])


def build(case, **over):
    kw = dict(kind=case["kind"], with_feats=case["feats"], with_links=case["links"], cats=case["cats"],
              dict_kind=case["dict_kind"], dense_feats=case["dense_feats"])
    kw.update(over)
    return tagged((case["seed"], case["i"]), case["docs"], case["words"], **kw)


def ids_of(ds):
    return dense(ds.words)[:, 0].astype(int) - 1


def run_case(case, mon):
    from sidetopics.model.common import DataSet
    import sidetopics.model.common as common
    op = case["op"]
    rng = rng_of(case["i"], case["seed"], op)
    D = case["docs"]
    mon.count("ops")
    mon.count("docs_identified", D)
    if op in ("prune", "prune_links"):
        src = build(case, **({"with_links": "square"} if op == "prune_links" else {}))
        minimum = [0, 0.5, 2, 3][case["i"] // 13 % 4]
        uniq = (dense(src["words"]) != 0).sum(axis=1)
        keep = [d for d in range(D) if uniq[d] >= minimum]
        if not keep:
            return
        ds = DataSet(debug=True, **src)
        seed = int(rng.randint(1, 10 ** 6))
        if op == "prune":
            order = ds.prune_and_shuffle(min_unique_word_count=minimum, seed=seed)
            ids = ids_of(ds)
            mon.expect(sorted(ids) == keep, "prune:kept", "pruning kept the wrong documents", got=sorted(ids), want=keep)
            mon.expect(list(order) == list(ids), "prune:returned-order", "the returned order does not identify the remaining rows",
                       got=list(order)[:20], want=list(ids)[:20])
            check_rows(mon, ds, src, ids, "prune", links="square")
            if len(keep) > 12:
                mon.expect(list(ids) != keep, "prune:shuffled", "the documents were not shuffled")
            again = DataSet(debug=True, **src)
            again.prune_and_shuffle(min_unique_word_count=minimum, seed=seed)
            mon.expect(list(ids_of(again)) == list(ids), "prune:repeatable", "same seed, different order")
        else:
            ml = int([1, 8, 15, 30][case["i"] // 52 % 4])
            L = dense(src["links"])
            if case["i"] // 13 % 2:                  # a chain into a ring, which is lost link by link
                p = rng.permutation(D)
                ring = int(rng.randint(2, D + 1))
                L = np.zeros_like(L)
                L[p[:ring], np.roll(p[:ring], 1)] = rng.randint(1, 9, size=ring)
                L[p[ring:-1], p[ring + 1:]] = rng.randint(1, 9, size=max(0, D - ring - 1))
                if D > ring:
                    L[p[ring - 1], p[-1]] = 1
                ml = int(rng.choice([1, 1, 2]))
                src["links"] = ssp.csr_matrix(L)
                ds = DataSet(debug=True, **src)
            rounds = 0
            alive = list(keep)                       # greatest set in which every document has enough links into the set
            while True:
                rounds += 1
                nxt = [d for d in alive if L[d][alive].sum() >= ml]
                if nxt == alive:
                    break
                alive = nxt
            if not alive:
                return
            order = ds.prune_and_shuffle(min_unique_word_count=minimum, min_link_count=ml, seed=seed)
            ids = ids_of(ds)
            mon.expect(sorted(ids) == alive, "links:kept", "pruning by links kept the wrong documents", got=sorted(ids), want=alive)
            mon.expect(list(order) == list(ids), "links:returned-order", "the returned order does not identify the remaining rows")
            check_rows(mon, ds, src, ids, "links", links="square")
            mon.count("link_prunes")
            mon.count("link_prunes_in_rounds", int(rounds > 2))
    elif op in ("load", "load_order", "limit"):
        src = build(case)
        with tempfile.TemporaryDirectory() as tmp:
            kw = {}
            for key, arg in (("words", "words_file"), ("feats", "feats_file"), ("links", "links_file"), ("word_dict", "word_dict_file")):
                if src[key] is not None:
                    kw[arg] = os.path.join(tmp, key + ".pkl")
                    with open(kw[arg], "wb") as f:
                        pkl.dump(src[key], f)
            if src["doc_categories"] is not None:
                kw["doc_category_file"] = os.path.join(tmp, "cats.pkl")
                with open(kw["doc_category_file"], "wb") as f:
                    flat = []
                    for d in range(D):
                        flat += ["cat-%d" % d, "extra\n"] if d % 3 == 0 else ["cat-%d\n" % d]
                    pkl.dump(flat, f)
            ids = np.arange(D)
            if op == "load_order":
                ids = rng.permutation(D)[:int(rng.randint(1, D + 1))]
                kw["order"] = ids if case["i"] % 2 else [int(v) for v in ids]
            elif op == "limit":
                k = int(rng.randint(1, D + 3))
                kw["limit"] = k
                ids = np.arange(min(k, D))
            ds = DataSet.from_files(**kw)
        check_rows(mon, ds, src, ids, op, links="square")
        if src["doc_categories"] is not None:
            mon.expect(all(len(c) == (2 if cat_id(c) % 3 == 0 else 1) for c in ds.doc_categories), op + ":multi-category",
                       "categories of a document were split or merged")
        if src["word_dict"] is not None:
            mon.expect(list(ds.word_dict) == list(src["word_dict"]), op + ":dictionary", "dictionary changed")
        mon.expect(ds.word_count == dense(src["words"])[ids].sum() and np.array_equal(np.atleast_1d(ds.doc_lens), dense(src["words"])[ids].sum(axis=1)),
                   op + ":counts", "word_count / doc_lens disagree with the documents")
    elif op == "min_freq":
        src = build(case)
        ds = DataSet(debug=True, **src)
        m = int(rng.randint(1, max(2, D // 2)))
        W = dense(src["words"])
        keep = [w for w in range(W.shape[1]) if (W[:, w] != 0).sum() >= m]
        out = ds.words_with_min_freq(m)
        mon.expect(np.array_equal(dense(out.words), W[:, keep]), "min_freq:words", "wrong vocabulary was kept")
        if src["word_dict"] is not None:
            mon.expect(list(out.word_dict) == ["w%d" % w for w in keep], "min_freq:dictionary", "dictionary does not name the remaining columns")
        if src["doc_categories"] is not None:
            mon.expect([cat_id(c) for c in out.doc_categories] == list(range(D)), "min_freq:categories", "categories changed")
        mon.expect(np.array_equal(dense(ds.words), W), "min_freq:source", "the original data-set changed")
    elif op == "copy":
        src = build(case)
        ds = DataSet(debug=True, **src)
        ds.prune_and_shuffle(seed=3)
        ids = ids_of(ds)
        for deep in (False, True):
            c = ds.copy(deep=deep)
            check_rows(mon, c, src, ids, "copy", links="square")
        before = dense(ds.words).copy()
        c = ds.copy(deep=True)
        c.words.data[:] = 77
        if c.links is not None:
            c.links.data[:] = 5
        if c.feats is not None:
            (c.feats.data if ssp.issparse(c.feats) else c.feats)[:] = 5
        c.order[:] = 0
        for part in (c.doc_categories, c.word_dict):
            if part is not None:
                part[0] = "w1"
        check_rows(mon, ds, src, ids, "deepcopy-source", links="square")
        if src["word_dict"] is not None:
            mon.expect(str(ds.word_dict[0]) == "w0", "copy:dictionary", "changing the dictionary of a deep copy changed the original's")
        mon.expect(np.array_equal(dense(ds.words), before), "copy:independent", "changing a deep copy changed the original")
        X2 = gen.corpus(rng, D, 9, "uniform")
        c2 = ds.copy_with_changes(words=X2)
        mon.expect(c2.words is X2 and list(c2.order) == list(ids) and c2.links is ds.links and c2.feats is ds.feats, "copy:changes",
                   "copy_with_changes changed more than it was asked to")
    elif op == "feature_split":
        src = build(case, with_feats=True, with_links=["square", None][case["i"] % 2],
                    feat_dtype=[np.float64, np.float32, np.int32][case["i"] % 3])
        F = dense(src["feats"])
        sel = [1] if case["i"] % 4 < 2 else [2, 3]
        tr = [d for d in range(D) if F[d][sel].sum() == 0]
        qu = [d for d in range(D) if F[d][sel[0]] > 0]
        if not tr or not qu:
            return
        ds = DataSet(debug=True, **src)
        t, q, tr_ids = ds.split_on_feature(sel)
        mon.expect(list(tr_ids) == tr, "feature_split:train", "wrong training documents", got=list(tr_ids)[:20], want=tr[:20])
        check_rows(mon, t, src, tr, "feature_split", links="square")
        mon.expect(list(ids_of(q)) == qu, "feature_split:query", "wrong query documents", got=ids_of(q)[:20], want=qu[:20])
        nolinks = dict(src, links=None)
        if src["links"] is not None:
            mon.expect(np.array_equal(dense(q.links), dense(src["links"])[qu][:, tr]), "feature_split:links", "links of query documents")
            q._links = None
        check_rows(mon, q, nolinks, qu, "feature_split:q")
        mon.count("feature_splits")
    elif op == "dtypes":
        src = build(case)
        ds = DataSet(debug=True, **src)
        dts = [(np.int32, np.float32, np.int64), (np.float64, np.float64, np.float32), (np.uint16, np.float32, np.uint8)][case["i"] // 13 % 3]
        ds.convert_to_dtypes(*dts)
        check_rows(mon, ds, src, np.arange(D), "dtypes", links="square" if False else "rows")
        for m, dt in zip((ds.words, ds.feats, ds.links), dts):
            mon.expect(m is None or m.dtype == dt, "dtypes:type", "component has the wrong type", got=str(m.dtype) if m is not None else None)
        ds.convert_to_dtype(np.float32)
        mon.expect(all(m is None or m.dtype == np.float32 for m in (ds.words, ds.feats, ds.links)), "dtypes:one", "component has the wrong type")
        mon.expect(np.array_equal(dense(ds.words), dense(src["words"])), "dtypes:values", "values changed")
    elif op == "intercept":
        src = build(case, with_feats=True)
        F = dense(src["feats"]).copy()
        if case["i"] % 3 == 0:
            F[:, 2] = 1
        elif case["i"] % 3 == 1:
            F[:, 2] = 0
            F[0, 2] = D                      # mean one without being an intercept
            F[:, 0] = 0
        src["feats"] = ssp.csr_matrix(F)
        has = any((F[:, j] == 1).all() for j in range(F.shape[1]))
        ds = DataSet(debug=True, **src)
        changed = ds.add_intercept_to_feats_if_required()
        G = dense(ds.feats)
        mon.expect(bool(changed) == (not has), "intercept:reported", "wrong report", changed=changed, has=has)
        mon.expect(any((G[:, j] == 1).all() for j in range(G.shape[1])), "intercept:present", "no column of ones afterwards")
        mon.expect(np.array_equal(G[:, :F.shape[1]], F) and G.shape[1] == F.shape[1] + (not has), "intercept:others", "other features changed")
        mon.expect(not ds.add_intercept_to_feats_if_required(), "intercept:idempotent", "an intercept was added twice")
    elif op == "dropcols":
        src = build(case)
        W = src["words"]
        drop = rng.randint(0, W.shape[1], size=int(rng.randint(1, W.shape[1])))
        keep = [w for w in range(W.shape[1]) if w not in set(drop.tolist())]
        want = dense(W)[:, keep]
        mon.expect(np.array_equal(dense(common.dropcols_fancy(W, drop)), want), "dropcols:fancy", "wrong columns dropped")
        mon.expect(np.array_equal(dense(common.dropcols_coo(W, drop)), want), "dropcols:coo", "wrong columns dropped")
    elif op == "history":
        history(case, mon, rng)
    mon.seen(op, D, case["words"], case["feats"], case["links"], case["cats"], case["dict_kind"], case["kind"])


class Twin:
    """what a data set should hold, in plain arrays"""

    def __init__(self, src, order, limit=0):
        n = len(order) if not limit else min(limit, len(order))
        self.W, self.F, self.L = (None if src[k] is None else np.array(dense(src[k]), dtype=np.float64) for k in ("words", "feats", "links"))
        self.C = None if src["doc_categories"] is None else [cat_id(c) for c in src["doc_categories"]]
        self.V = None if src["word_dict"] is None else [str(v) for v in src["word_dict"]]
        self.order = list(order)
        if n < len(order):
            self.select(range(n), True)

    def select(self, rows, both):
        """documents, in this order; their links among each other if the links are square, and both"""
        rows = list(rows)
        out = self
        out.W = out.W[rows]
        out.F = None if out.F is None else out.F[rows]
        out.C = None if out.C is None else [out.C[r] for r in rows]
        if out.L is not None:
            square = out.L.shape[0] == out.L.shape[1]
            out.L = out.L[rows]
            if square and both:
                out.L = out.L[:, rows]
        out.order = [out.order[r] for r in rows]
        return out

    def copy(self):
        t = Twin.__new__(Twin)
        t.__dict__ = {k: (None if v is None else v.copy()) for k, v in self.__dict__.items()}
        return t

    def check(self, mon, ds, mech):
        same = lambda a, b: (a is None) == (b is None) and (a is None or np.array_equal(dense(a), b))
        ok = mon.expect(same(ds.words, self.W), mech + ":words", "words are not those of the documents that should be there")
        ok &= mon.expect(same(ds.feats, self.F), mech + ":feats", "features are not those of the documents")
        ok &= mon.expect(same(ds.links, self.L), mech + ":links", "links are not those of the documents")
        ok &= mon.expect(self.C is None and ds.doc_categories is None or [cat_id(c) for c in ds.doc_categories] == self.C, mech + ":categories", "categories are not those of the documents")
        ok &= mon.expect(self.V is None and ds.word_dict is None or [str(v) for v in ds.word_dict] == self.V, mech + ":dictionary", "the dictionary does not name the words")
        ok &= mon.expect(list(ds.order) == self.order, mech + ":order", "the order does not say which documents these are", got=list(ds.order)[:15], want=self.order[:15])
        D = len(self.W)
        ok &= mon.expect(len(ds) == D and ds.doc_count == D and ds.word_count == self.W.sum() and np.array_equal(np.atleast_1d(ds.doc_lens), self.W.sum(axis=1)), mech + ":totals",
                         "sizes and totals are not those of the documents", got=(len(ds), ds.doc_count, float(ds.word_count)), want=(D, float(self.W.sum())))
        ok &= mon.expect(ds.has_links() == (self.L is not None) and ds.has_features() == (self.F is not None), mech + ":has", "a component is missing, or made up")
        links = self.L.sum() if self.L is not None else 0
        if self.L is not None:
            ok &= mon.expect(ds.link_count == links, mech + ":totals", "the total of links is not that of the documents", got=float(ds.link_count), want=float(links))
        ok &= mon.expect(ds.word_and_link_count == self.W.sum() + links, mech + ":totals", "the total of words and links is not that of the documents")
        return ok


def history(case, mon, rng):
    """a chain of operations on the same data set and those made of it; all of them are looked at after each"""
    from sidetopics.model.common import DataSet
    src = build(case)
    D = case["docs"]
    order = list(range(D)) if rng.rand() < .5 else [int(v) for v in rng.permutation(D * 2)[:D]]
    limit = int(rng.randint(1, D + 2)) if rng.rand() < .4 else 0
    ds = DataSet(debug=True, order=np.array(order), limit=limit, **src)
    twin = Twin(src, order, limit)
    alive = [(ds, twin)]
    if not twin.check(mon, ds, "history:start"):
        return
    for step in range(int(rng.randint(2, 7))):
        n = len(twin.W)
        what = str(rng.choice(["prune", "prune", "fold", "fold", "min_freq", "deep", "types", "undirected", "binary", "intercept", "feature", "completion", "links"]))
        place = False                       # is the operation in place
        if what == "prune":
            least = float(rng.choice([.5, 1, 2, 3]))
            keep = [d for d in range(n) if (twin.W[d] != 0).sum() >= least]
            if not keep:
                continue
            got = [int(v) for v in ds.prune_and_shuffle(min_unique_word_count=least, seed=int(rng.randint(10 ** 6)))]
            if not mon.expect(sorted(got) == keep, "history:prune", "the wrong documents were kept", got=sorted(got)[:20], want=keep[:20]):
                return
            twin.order = list(range(n))     # by documentation an existing order is overwritten
            twin.select(got, True)
            place = True
        elif what == "fold" and n > 2:
            k = int(rng.randint(2, min(n, 6) + 1))
            f = int(rng.randint(k))
            parts = ds.cross_valid_split(f, k, debug=True)
            new = []
            for part in parts:
                rows = [twin.order.index(int(o)) for o in part.order]
                if not mon.expect(len(set(rows)) == len(part), "history:fold", "the order does not say which documents these are"):
                    return
                new.append((part, twin.copy().select(rows, False)))
            alive += new
            ds, twin = new[int(rng.randint(2))]
        elif what == "min_freq":
            least = int(rng.randint(1, max(2, n // 3)))
            keep = [w for w in range(twin.W.shape[1]) if (twin.W[:, w] != 0).sum() >= least]
            if not keep:
                continue
            ds, twin = ds.words_with_min_freq(least), twin.copy()
            twin.W = twin.W[:, keep]
            twin.V = None if twin.V is None else [twin.V[w] for w in keep]
        elif what == "deep":
            ds, twin = ds.copy(deep=True), twin.copy()
        elif what == "types":
            ds.convert_to_dtypes(*[(np.int32, np.float32, np.int64), (np.float64, np.float64, np.float64)][int(rng.randint(2))])
            place = True
        elif what == "undirected" and twin.L is not None and twin.L.shape[0] == twin.L.shape[1]:
            ds, twin = ds.copy(deep=True), twin.copy()
            alive.append((ds, twin))
            ds.convert_to_undirected_graph()
            twin.L = twin.L + twin.L.T
            place = True
        elif what == "binary" and twin.L is not None:
            ds, twin = ds.copy(deep=True), twin.copy()      # the matrix of links is changed in place
            alive.append((ds, twin))
            ds.links.eliminate_zeros()
            ds.convert_to_binary_link_matrix()
            twin.L = (twin.L != 0) * 1.
            place = True
        elif what == "intercept" and twin.F is not None:
            ds.add_intercept_to_feats_if_required()
            if not (twin.F == 1).all(axis=0).any():
                twin.F = np.hstack([twin.F, np.ones((n, 1))])
            place = True
        elif what == "feature" and twin.F is not None and twin.F.shape[1] > 1:
            j = int(rng.randint(1, twin.F.shape[1]))
            left, right = [d for d in range(n) if twin.F[d, j] == 0], [d for d in range(n) if twin.F[d, j] > 0]
            if not left or not right or (twin.F[:, j] < 0).any() or twin.L is not None and twin.L.shape[0] != twin.L.shape[1]:
                continue
            a, b, _ = ds.split_on_feature([j])
            new = [(a, twin.copy().select(left, True)), (b, twin.copy().select(right, False))]
            if twin.L is not None:
                new[1][1].L = new[1][1].L[:, left]
            alive += new
            ds, twin = new[int(rng.randint(2))]
        elif what == "completion" and twin.F is None:
            a, b = ds.doc_completion_split(seed=int(rng.randint(10 ** 6)), debug=True)
            mon.expect(np.array_equal(dense(a.words) + dense(b.words), twin.W), "history:completion", "tokens were lost or invented")
            new = []
            for part in (a, b):
                t = twin.copy()
                t.W = np.array(dense(part.words), dtype=np.float64)
                new.append((part, t))
            alive += new
            ds, twin = new[int(rng.randint(2))]
        elif what == "links" and twin.L is not None:
            a, b = ds.link_prediction_split(symmetric=False, seed=int(rng.randint(10 ** 6)))
            mon.expect(np.array_equal(dense(a.links) + dense(b.links), twin.L), "history:links", "links were lost or invented")
            new = []
            for part in (a, b):
                t = twin.copy()
                t.L = np.array(dense(part.links), dtype=np.float64)
                new.append((part, t))
            alive += new
            ds, twin = new[int(rng.randint(2))]
        else:
            continue
        if not place and not any(ds is o for o, _ in alive):
            alive.append((ds, twin))
        mon.count("steps")
        mon.seen("history", what, step)
        for o, t in alive:
            if not t.check(mon, o, "history:%s:%s" % (what, "same" if o is ds else "other")):
                return
