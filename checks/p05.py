"""Sparse element-wise products and soft-max reductions equal their dense definitions and touch nothing else."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen
from vlib.core import rng_of, sha
from vlib.data import dense

META = dict(rule="distinct (operation, dtype, shape, density, layout, row range, out) calls compared cell by cell with a float64 dense reference",
            min_events={"calls": 400, "cells": 20000})
OPS = ["quotient", "product", "lndot", "normed", "elementwise", "softdot", "scaledsoft", "entropy", "lnonepexp", "product_int", "wide"]
TOL = {"float64": dict(rtol=1e-9, atol=1e-10), "float32": dict(rtol=2e-4, atol=2e-4), "int32": dict(rtol=0, atol=0), "int64": dict(rtol=0, atol=0)}


def cases(tier, seed):
    rng = rng_of("p05", seed)
    n = 8250 if tier == "quick" else 30000
    for i in range(n):
        yield dict(i=i, seed=seed, op=OPS[i % len(OPS)], dtype=["float64", "float32"][(i // 12) % 2], rows=int([1, 2, 5, 17, 60][(i // 3) % 5]),
                   cols=int([1, 3, 11, 45][(i // 7) % 4]), k=int([1, 2, 5, 13][(i // 11) % 4]), density=[0.0, 0.1, 0.4, 1.0][(i // 13) % 4],
                   layout=["sorted", "shuffled", "zeros", "strided"][(i // 17) % 4], out=["none", "fresh", "self"][(i // 20) % 3],
                   rng=["full", "part", "suffix", "part", "empty", "prefix", "part"][(i // 23) % 7], scale=["small", "large", "tiny"][(i // 29) % 3])


def operands(case, rng):
    dt = np.dtype(case["dtype"])
    R, C, K = case["rows"], case["cols"], case["k"]
    m = (rng.rand(R, C) < case["density"]) * rng.randint(1, 9, size=(R, C))
    if case["density"] == 0.1 and R > 2:
        m[R // 2] = 0                        # rows without entries in the middle and at the ends
        m[0] = 0
    A = ssp.csr_matrix(m.astype(dt))
    if case["layout"] == "shuffled":
        A = gen.shuffled_indices(rng, A)
    elif case["layout"] == "zeros":
        A = gen.with_explicit_zeros(rng, A)
    s = dict(small=1.0, large=50.0, tiny=1e-3)[case["scale"]]
    B = (rng.rand(R, K) + 0.05).astype(dt) * dt.type(s)
    Cm = (rng.rand(K, C) + 0.05).astype(dt)
    if case["layout"] == "strided":          # views that are neither contiguous nor aligned with their buffers
        b2 = np.zeros((R * 2, K * 3), dtype=dt)
        b2[::2, 1::3] = B
        B = b2[::2, 1::3]
        c2 = np.zeros((K + 2, C + 3), dtype=dt)
        c2[1:K + 1, 2:C + 2] = Cm
        Cm = c2[1:K + 1, 2:C + 2]
    if np.isfortran(B):
        B = np.ascontiguousarray(B)
    if np.isfortran(Cm):
        Cm = np.ascontiguousarray(Cm)
    return A, B, Cm


def pattern(A, fill, rng):
    o = A.copy()
    o.data[:] = rng.randint(1, 50, size=len(o.data)) if fill else 0
    return o


def run_case(case, mon):
    import sidetopics.util.sparse_elementwise as se
    import sidetopics.util.sigmoid_utils as sg
    rng = rng_of(case["i"], case["seed"], "p05")
    op, dt = case["op"], np.dtype(case["dtype"])
    tol = TOL[case["dtype"]]
    mon.count("calls")
    if op == "wide":                         # numbers for which there are no native kernels
        return wide(case, mon, rng, se)
    if op in ("quotient", "product", "lndot", "normed", "product_int"):
        if op == "product_int":
            A, B, C = operands(dict(case, dtype=["int32", "int64"][case["i"] // 10 % 2], scale="small"), rng)
            B = rng.randint(0, 7, size=B.shape).astype(A.dtype)
            C = rng.randint(0, 7, size=C.shape).astype(A.dtype)
            tol = TOL["int64"]
        else:
            A, B, C = operands(case, rng)
        d = (rng.rand(B.shape[1]) + 0.5).astype(A.dtype)
        R = A.shape[0]
        start, end = 0, R
        ranged = op in ("quotient", "lndot") and case["rng"] != "full"
        if ranged:
            cut = rng.randint(0, R + 1)
            two = sorted(rng.randint(0, R + 1, size=2))
            start, end = {"part": tuple(int(v) for v in two), "suffix": (int(cut), R), "empty": (int(cut), int(cut)), "prefix": (0, int(cut))}[case["rng"]]
        if op == "lndot" and case["i"] % 3 == 0:
            B = B.copy()
            B[:, :] = np.where(rng.rand(*B.shape) < 0.5, 0, B)     # zero products take the smallest normal number
            if case["i"] % 2:
                B[R // 2] = 0
        Bs = B[start:end] if ranged else B
        full = A[start:end] if ranged else A
        out = None
        if case["out"] != "none":
            out = pattern(full, True, rng) if case["out"] == "fresh" or ranged or op == "product_int" else A
        src = A.copy()
        before = sha(B, C, d)
        a_before = sha(A)
        kw = dict(out=out) if out is not None else {}
        if ranged:
            kw.update(start=start, end=end)

        def call(Bs, C):
            if op == "quotient":
                return se.sparseScalarQuotientOfDot(A, Bs, C, **kw)
            if op in ("product", "product_int"):
                return se.sparseScalarProductOfDot(A, Bs, C, **kw)
            if op == "lndot":
                return se.sparseScalarProductOfSafeLnDot(A, Bs, C, **kw)
            return se.sparseScalarQuotientOfNormedDot(A, Bs, C, d, **kw)

        res = call(Bs, C)
        part = src[start:end]
        B8, C8 = np.asarray(Bs, dtype=np.float64), np.asarray(C, dtype=np.float64)
        dot = (B8 / d.astype(np.float64)).dot(C8) if op == "normed" else B8.dot(C8)
        a8 = part.data.astype(np.float64)
        rows = np.repeat(np.arange(part.shape[0]), np.diff(part.indptr))
        cells = dot[rows, part.indices]
        if op in ("quotient", "normed"):
            want = a8 / cells
        elif op == "lndot":
            want = a8 * np.log(np.maximum(cells, np.finfo(dt).tiny))
        else:
            want = a8 * cells
        mon.count("cells", len(want))
        mon.close(res.data, want, op + ":value", "%s differs from its dense definition" % op, rtol=tol["rtol"] * (4 if op == "lndot" else 1),
                  atol=tol["atol"] * (20 if op == "lndot" else 1), start=start, end=end)
        mon.expect(np.array_equal(res.indices, part.indices) and np.array_equal(res.indptr, part.indptr) and res.shape == part.shape, op + ":pattern",
                   "the sparsity pattern changed")
        if out is not None:
            mon.expect(res is out or np.shares_memory(res.data, out.data), op + ":out", "the given output was not used")
            mon.close(out.data, want, op + ":out-value", "the given output does not hold the result", rtol=tol["rtol"] * (4 if op == "lndot" else 1),
                      atol=tol["atol"] * (20 if op == "lndot" else 1))
        mon.expect(sha(B, C, d) == before, op + ":inputs", "a dense operand was modified")
        if out is not A:
            mon.expect(sha(A) == a_before, op + ":inputs", "the sparse operand was modified")
        if out is None:                      # what was returned is the caller's: later calls leave it alone
            kept = sha(res)
            again = call(Bs + 1, C + 1)
            mon.expect(not np.shares_memory(again.data, res.data) and not np.shares_memory(res.data, A.data), op + ":own", "two results share memory")
            mon.expect(sha(res) == kept, op + ":kept", "a later call changed what an earlier one returned")
            mon.count("kept")
        mon.seen(op, str(A.dtype), A.shape, C.shape, case["density"], case["layout"], case["out"], (start, end), case["scale"])
    elif op == "elementwise":
        A, B, C = operands(case, rng)
        M = rng.rand(*A.shape).astype(dt)
        before = sha(A, M)
        res = se.sparseScalarProductOf(A, M)
        mon.close(dense(res), dense(A).astype(np.float64) * M, "elementwise:value", "product differs", rtol=1e-5 if dt == np.float32 else 1e-12)
        mon.expect(sha(A, M) == before, "elementwise:inputs", "an operand was modified")
        mon.count("cells", len(res.data))
        mon.seen(op, case["dtype"], A.shape, case["density"], case["layout"])
    elif op in ("softdot", "scaledsoft"):
        R, K = case["rows"], case["k"]
        spread = dict(small=2.0, large=300.0, tiny=0.01)[case["scale"]]
        M = ((rng.rand(R, K) - 0.5) * spread).astype(dt)
        if case["scale"] == "large":
            M += dt.type(rng.randint(-800, 800))
        if case["layout"] == "strided":
            big = np.zeros((R, K * 2), dtype=dt)
            big[:, ::2] = M
            M = big[:, ::2]
        m8 = M.astype(np.float64)
        e = np.exp(m8 - m8.max(axis=1)[:, None])
        soft = e / e.sum(axis=1)[:, None]
        before = sha(M)
        t = 1e-9 if dt == np.float64 else 3e-4
        bound = np.abs(m8).sum() + 1e-3
        if op == "softdot":
            mon.close(sg.selfSoftDot(M), (soft * m8).sum(), "softdot:value", "self soft-max dot product", rtol=t, atol=t * bound)
            if not np.isfortran(M):
                mon.close(se.selfSoftDot(M), (soft * m8).sum(), "softdot:value2", "self soft-max dot product", rtol=t, atol=t * bound)
            mon.close(sg.rowwise_softmax(M), soft, "softmax:rows", "row soft-max", rtol=1e-3 if dt == np.float32 else 1e-9, atol=1e-6 if dt == np.float32 else 1e-12)
            ec = np.exp(m8 - m8.max(axis=0)[None, :])
            mon.close(sg.colwise_softmax(M), ec / ec.sum(axis=0)[None, :], "softmax:cols", "column soft-max",
                      rtol=1e-3 if dt == np.float32 else 1e-9, atol=1e-6 if dt == np.float32 else 1e-12)
            buf = np.empty_like(np.ascontiguousarray(M))
            r = sg.rowwise_softmax(M, out=buf)
            mon.expect(r is buf, "softmax:out", "the given output was not used")
            mon.close(buf, soft, "softmax:rows", "row soft-max into a given output", rtol=1e-3 if dt == np.float32 else 1e-9, atol=1e-6 if dt == np.float32 else 1e-12)
            if case["scale"] != "large":
                mon.close(sg.lse(M), np.log(np.exp(m8).sum(axis=1)), "lse", "log-sum-exp", rtol=1e-4, atol=1e-4)
        else:
            sc = [rng.randint(0, 9, size=R).astype(np.int64), (rng.rand(R) * 5), (rng.rand(R) * 5).astype(np.float32), rng.randint(0, 9, size=R).astype(np.int32)][case["i"] // 20 % 4]
            sb = sha(sc)
            mon.close(sg.scaledSelfSoftDot(M, sc), (sc[:, None].astype(np.float64) * soft * m8).sum(), "scaledsoft:value",
                      "scaled self soft-max dot product", rtol=t, atol=t * bound * 5, scale=str(sc.dtype))
            mon.expect(sha(sc) == sb, "scaledsoft:inputs", "the scale was modified")
        if op == "softdot":
            held = [sg.rowwise_softmax(M), sg.colwise_softmax(M)]
            kept = sha(*held)
            later = [sg.rowwise_softmax(M[::-1]), sg.colwise_softmax(M[::-1])]
            mon.expect(not any(np.shares_memory(a, b) for a in held for b in later + [M]) and sha(*held) == kept, "softmax:kept", "a later call changed what an earlier one returned")
        mon.expect(sha(M) == before, op + ":inputs", "the operand was modified")
        mon.count("cells", M.size)
        mon.seen(op, case["dtype"], M.shape, case["scale"], case["layout"])
    elif op == "entropy":
        R, K, C = case["rows"], case["k"], case["cols"]
        topics = rng.dirichlet([0.5] * K, size=R).astype(dt) * dt.type(3 if case["i"] % 3 == 0 else 1)
        vocab = rng.dirichlet([0.5] * C, size=K).astype(dt) if C > 1 else np.ones((K, 1), dtype=dt)
        if case["i"] % 4 == 0 and K > 1:
            topics[0] = 0
            topics[0, K - 1] = 1
            if C > 1:
                vocab[0, 0] = 0
        t8 = topics.astype(np.float64)
        z = (t8 / t8.sum(axis=1)[:, None])[:, :, None] * vocab.astype(np.float64)[None, :, :]
        want = -(np.where(z > 0, z * np.log(np.where(z > 0, z, 1)), 0)).sum()
        before = sha(topics, vocab)
        t = 1e-9 if dt == np.float64 else 1e-3
        mon.close(se.entropyOfDot(topics, vocab), want, "entropy:value", "entropy differs from its definition", rtol=t, atol=t)
        mon.close(se.entropyOfDot_py(topics, vocab), want, "entropy:fallback", "fallback entropy differs from its definition", rtol=t, atol=t)
        mon.expect(sha(topics, vocab) == before, "entropy:inputs", "an operand was modified")
        mon.count("cells", z.size)
        mon.seen(op, case["dtype"], R, K, C)
    elif op == "lnonepexp":
        R, C = case["rows"], case["cols"]
        w = rng.rand(R).astype(dt)
        s = dict(small=3.0, large=400.0, tiny=30.0)[case["scale"]]
        M = ((rng.rand(R, C) - 0.5) * 2 * s).astype(dt)
        want = (w.astype(np.float64)[:, None] * np.logaddexp(0, M.astype(np.float64))).sum()
        before = sha(w, M)
        t = 1e-9 if dt == np.float64 else 2e-4
        mon.close(se.scaledSumOfLnOnePlusExp(w, M), want, "lnonepexp:value", "weighted sum of log(1+exp) differs", rtol=t, atol=t * 10)
        mon.expect(sha(w, M) == before, "lnonepexp:inputs", "an operand was modified")
        mon.count("cells", M.size)
        mon.seen(op, case["dtype"], R, C, case["scale"])


def wide(case, mon, rng, se):
    A, B, C = (v.astype(np.longdouble) for v in operands(dict(case, dtype="float64"), rng))
    if case["i"] % 3 == 0:
        B[rng.rand(*B.shape) < 0.5] = 0
    start, end = 0, A.shape[0]
    kw = {}
    ln = case["i"] // 12 % 2
    if ln and case["rng"] != "full":
        start, end = sorted(int(v) for v in rng.randint(0, A.shape[0] + 1, size=2))
        kw = dict(start=start, end=end)
    part = A[start:end]
    out = pattern(part, True, rng) if case["out"] == "fresh" else A if case["out"] == "self" and not kw else None
    if out is not None:
        kw["out"] = out
    before, a_before = sha(B, C), sha(A)
    dot = dense(B[start:end]) @ dense(C)
    rows = np.repeat(np.arange(part.shape[0]), np.diff(part.indptr))
    cells = dot[rows, part.indices]
    want = part.data.copy() * (np.log(np.maximum(cells, np.finfo(np.float64).tiny)) if ln else cells)
    res = se.sparseScalarProductOfSafeLnDot(A, B[start:end], C, **kw) if ln else se.sparseScalarProductOfDot(A, B, C, **kw)
    mon.count("cells", len(want))
    seen = res.data
    if ln:                                   # the logarithm of nothing is that of some very small number
        none = cells < 1e-290
        mon.expect((seen[none] <= part.data[none] * -650).all() and (seen[none] >= part.data[none] * -12000).all(), "wide:nothing", "the logarithm of nothing is not that of a small number")
        seen, want = seen[~none], want[~none]
    mon.close(seen.astype(float), want.astype(float), "wide:value", "the product of numbers without native kernels differs from its definition", rtol=1e-12, atol=1e-12, ln=ln)
    mon.expect(res.data.dtype == np.longdouble, "wide:type", "the type changed")
    mon.expect(np.array_equal(res.indices, part.indices) and np.array_equal(res.indptr, part.indptr) and res.shape == part.shape, "wide:pattern", "the sparsity pattern changed")
    mon.expect(sha(B, C) == before and (out is A or sha(A) == a_before), "wide:inputs", "an operand was modified")
    if out is not None:
        mon.expect(res is out or np.shares_memory(res.data, out.data), "wide:out", "the given output was not used")
    mon.seen("wide", A.shape, C.shape, case["density"], case["layout"], case["out"], (start, end), ln)
