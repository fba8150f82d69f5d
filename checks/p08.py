"""vec, vec-transpose and the vec-transpose matrix satisfy their definitions, dense and sparse, every dtype."""
import numpy as np
import scipy.sparse as ssp
from vlib import gen
from vlib.core import rng_of, sha
from vlib.data import dense

META = dict(rule="distinct (shape, p, dtype, storage, density) transpositions compared entry by entry",
            min_events={"calls": 300, "entries": 10000})


def cases(tier, seed):
    rng = rng_of("p08", seed)
    n = 2400 if tier == "quick" else 9600
    for i in range(n):
        p = int([1, 2, 3, 4, 7][i % 5])
        yield dict(i=i, seed=seed, p=p, blocks=int(rng.randint(1, 9)), cols=int(rng.randint(1, 12)), density=[0.05, 0.3, 0.8, 1.0][(i // 5) % 4],
                   dtype=["float64", "float32", "int32", "int64"][(i // 3) % 4], storage=["dense", "csr", "csr_shuffled", "view", "zeros"][(i // 7) % 5])


def reference(A, p):
    rows, cols = A.shape
    return np.vstack([np.reshape(A[:, j], (p, rows // p), order="F") for j in range(cols)])


def run_case(case, mon):
    import sidetopics.util.vectrans as vt
    rng = rng_of(case["i"], case["seed"], "p08")
    p, R, C = case["p"], case["p"] * case["blocks"], case["cols"]
    dt = np.dtype(case["dtype"])
    A = ((rng.rand(R, C) < case["density"]) * rng.randint(1, 100, size=(R, C))).astype(dt)
    want = reference(A, p)
    mon.count("calls")
    mon.count("entries", A.size)
    if case["storage"] in ("dense", "view"):
        X = A
        if case["storage"] == "view":
            big = np.zeros((R + 2, C * 2), dtype=dt)
            big[1:R + 1, ::2] = A
            X = big[1:R + 1, ::2]
        b = sha(X)
        got = vt.vec_transpose(X, p)
        mon.close(got, want, "dense", "vec-transpose of a dense matrix is wrong")
        mon.expect(got.dtype == dt, "dense:dtype", "the type changed", got=str(got.dtype))
        mon.expect(sha(X) == b, "dense:input", "the argument was modified")
        back = vt.vec_transpose(np.ascontiguousarray(np.asarray(got)), p)
        # applying it twice with p equal to the new rows per block restores blocks: (A^(p))^(p) = A
        mon.close(back if back.shape == A.shape else back, reference(want, p), "dense:twice", "second vec-transpose is wrong")
    else:
        X = ssp.csr_matrix(A)
        if case["storage"] == "csr_shuffled":
            X = gen.shuffled_indices(rng, X)
        elif case["storage"] == "zeros":
            X = gen.with_explicit_zeros(rng, X)
        b = sha(X)
        got = vt.vec_transpose_csr(X, p)
        mon.expect(ssp.issparse(got), "sparse:type", "the result is not sparse")
        mon.close(dense(got), want, "sparse", "vec-transpose of a sparse matrix is wrong")
        mon.expect(got.dtype == dt, "sparse:dtype", "the type changed", got=str(got.dtype))
        mon.expect(sha(X) == b, "sparse:input", "the argument was modified")
    v = np.asarray(vt.vec(A))
    mon.expect(v.shape == (R * C, 1) and np.array_equal(v[:, 0], np.concatenate([A[:, j] for j in range(C)])), "vec", "vec does not stack the columns")
    T = vt.sp_vec_trans_matrix(A.shape)
    mon.close(T.dot(v.astype(np.float64)), np.asarray(vt.vec(A.T)).astype(np.float64), "matrix", "T vec(A) is not vec(A')")
    mon.close(dense(T.dot(T.T)), np.eye(R * C), "matrix:permutation", "the transform is not a permutation")
    mon.seen(R, C, p, case["dtype"], case["storage"], case["density"])
