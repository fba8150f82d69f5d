"""Log / exp / determinant helpers neither overflow nor lose their value anywhere on the number line."""
import numpy as np
from vlib.core import rng_of, sha

META = dict(rule="distinct (function, dtype, magnitude region, shape) evaluations compared with an independent float64 reference",
            min_events={"calls": 300, "points": 20000})
OPS = ["l1pe", "kernel_l1pe", "l1p", "xlogx", "log", "logout", "loginplace", "det", "logdet", "diagdet"]
REGIONS = ["wide", "huge", "negative", "around-lower", "around-upper", "near-zero", "mixed", "edges"]


def cases(tier, seed):
    n = 3000 if tier == "quick" else 12000
    for i in range(n):
        yield dict(i=i, seed=seed, op=OPS[i % len(OPS)], region=REGIONS[(i // 10) % 8], dtype=["float64", "float32"][(i // 80) % 2],
                   shape=[[7], [1], [30, 4], [3, 50], [200]][(i // 7) % 5])


def sample(rng, region, shape):
    if region == "wide":
        return (rng.rand(*shape) - 0.5) * 100
    if region == "huge":
        return np.sign(rng.rand(*shape) - 0.5) * 10 ** (rng.rand(*shape) * 4)
    if region == "negative":
        return -10 ** (rng.rand(*shape) * 5 - 2)
    if region == "around-lower":
        return -17 + (rng.rand(*shape) - 0.5) * 14
    if region == "around-upper":
        return rng.choice([11.0, 13.8, 17.0, 33.0]) + (rng.rand(*shape) - 0.5) * 4
    if region == "near-zero":
        return (rng.rand(*shape) - 0.5) * 10 ** (-rng.rand(*shape) * 12)
    if region == "mixed":
        return (rng.rand(*shape) - 0.5) * 10 ** (rng.rand(*shape) * 8 - 5)
    v = np.array([-700., -17., -16.999, -11., -10.999, 0., -0., 11., 11.001, 13.8, 17., 33., 33.001, 700., 1e-30, -1e-30])
    return rng.choice(v, size=shape)


def run_case(case, mon):
    import sidetopics.util.overflow_safe as of
    import sidetopics.util.se_fast as fast
    rng = rng_of(case["i"], case["seed"], "p07")
    op, dt = case["op"], np.dtype(case["dtype"])
    single = dt == np.float32
    x = sample(rng, case["region"], case["shape"]).astype(dt)
    mon.count("calls")
    mon.count("points", x.size)
    b = sha(x)
    if op == "l1pe":
        got = of.safe_log_one_plus_exp_of(x)
        mon.close(got, np.logaddexp(0, x.astype(np.float64)), "l1pe", "log(1+exp(x)) is wrong", rtol=1e-5 if single else 2e-7, atol=1e-6 if single else 0)
    elif op == "kernel_l1pe":
        f = fast.safe_log_one_plus_exp_f4 if single else fast.safe_log_one_plus_exp_f8
        got = np.array([f(float(v)) for v in x.ravel()])
        mon.close(got, np.logaddexp(0, x.ravel().astype(np.float64)), "kernel", "log(1+exp(x)) is wrong in the kernel",
                  rtol=1e-4 if single else 2e-7, atol=2e-6 if single else 1e-300)
    elif op == "l1p":
        y = np.abs(x) if case["i"] % 3 else np.clip(x, -0.999, None)
        y = y.astype(dt)
        got = of.safe_log_one_plus(y)
        mon.close(got, np.log1p(y.astype(np.float64)), "l1p", "log(1+x) is wrong", rtol=1e-4 if single else 1e-9, atol=1e-6 if single else 0)
    elif op == "xlogx":
        y = np.abs(x)
        y.ravel()[::3] = 0
        got = of.safe_x_log_x(y)
        y8 = y.astype(np.float64)
        mon.close(got, np.where(y8 > 0, y8 * np.log(np.where(y8 > 0, y8, 1)), 0), "xlogx", "x log x is wrong", rtol=1e-5 if single else 1e-12, atol=1e-6 if single else 1e-15)
        mon.expect(np.isfinite(got).all(), "xlogx:finite", "x log x is not finite")
    elif op in ("log", "logout", "loginplace"):
        y = np.abs(x).astype(dt)
        y.ravel()[::4] = 0
        tiny = 1e-35 if single else 1e-300
        want = np.log(np.maximum(y.astype(np.float64), tiny))
        # values between zero and the substitute take the substitute
        y0 = y.copy()
        if op == "log":
            got = of.safe_log(y)
            mon.expect(np.array_equal(y, y0), "log:input", "the argument was modified")
        elif op == "logout":
            buf = np.full(y.shape, 99, dtype=dt)
            got = of.safe_log(y, out=buf)
            mon.expect(got is buf, "log:out", "the given output was not used")
            mon.expect(np.array_equal(y, y0), "log:input", "the argument was modified")
        else:
            got = of.safe_log(y, out=y)
            mon.expect(got is y, "log:out", "the given output was not used")
        mon.close(got, want, op, "safe log is wrong", rtol=1e-5 if single else 1e-12, atol=1e-5 if single else 1e-13)
        mon.expect(np.isfinite(got).all(), op + ":finite", "safe log is not finite")
    elif op in ("det", "logdet", "diagdet"):
        n = int(rng.randint(1, 7))
        q = rng.randn(n, n)
        scale = [1e-3, 1.0, 30.0][case["i"] // 10 % 3]
        spd = (q.dot(q.T) + n * np.eye(n)) * scale
        ref = np.linalg.slogdet(spd)[1]
        if op == "logdet":
            big = np.kron(np.eye(12), spd) if case["i"] % 2 else spd      # the determinant itself may over- or underflow
            ref = ref * (12 if case["i"] % 2 else 1)
            mon.close(of.safe_log_det(big.astype(dt)), ref, "logdet", "log determinant is wrong", rtol=1e-3 if single else 1e-8, atol=1e-2 if single else 1e-8)
        elif op == "diagdet":
            d = np.abs(rng.randn(n * 20)) + 0.01
            mon.close(of.lnDetOfDiagMat(np.diag(d).astype(dt)), np.log(d).sum(), "diagdet", "log determinant of a diagonal matrix is wrong", rtol=1e-4, atol=1e-3)
        else:
            tiny = 1e-35 if single else 1e-300
            for m, want in ((spd, np.exp(ref)), (np.zeros((n, n)), tiny), (-np.eye(2 * n + 1), tiny)):
                got = of.safeDet(m.astype(dt))
                mon.close(got, want, "det", "guarded determinant is wrong", rtol=1e-3 if single else 1e-7, atol=0)
                mon.expect(got > 0, "det:positive", "guarded determinant is not positive")
    if op in ("l1pe", "kernel_l1pe", "det"):
        mon.expect(sha(x) == b, "input", "the argument was modified")
    mon.seen(op, case["region"], case["dtype"], tuple(case["shape"]))
