"""Monitor bookkeeping shared by all checks: events observed, violations, verdicts."""
import contextlib
import hashlib
import io
import json
import os
import sys
import traceback
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Inconclusive(Exception):
    """The case could not exercise what it meant to; neither held nor violated."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 64 else {"shape": list(x.shape), "head": x.ravel()[:16].tolist()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def rng_of(*parts):
    """A RandomState determined by the parts, independent of hashing seeds and of call order."""
    return np.random.RandomState(zlib.crc32(repr(parts).encode()) & 0xFFFFFFFF)


class Monitor:
    """Collects what one worker observed."""
    MAX_VIOLATIONS = 400

    def __init__(self):
        self.events = {}
        self.distinct = set()
        self.violations = []
        self.cases = 0
        self.samples = []
        self.inconclusive = []
        self.case = None

    # -- events -------------------------------------------------------------------------
    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *key):
        """Registers a distinct non-trivial state / configuration / case signature."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    # -- verdicts -----------------------------------------------------------------------
    def fail(self, mech, msg, **detail):
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({"mech": mech, "msg": msg, "case": self.case, "detail": jsonable(detail)})
        self.count("violations")

    def expect(self, ok, mech, msg, **detail):
        self.count("checked:" + mech)
        if not bool(ok):
            self.fail(mech, msg, **detail)
        return bool(ok)

    def close(self, got, want, mech, msg, rtol=1e-6, atol=1e-9, **detail):
        """got == want elementwise up to tolerance; NaN/inf must agree"""
        self.count("checked:" + mech)
        try:
            g = np.asarray(got, dtype=np.float64)
            w = np.asarray(want, dtype=np.float64)
        except Exception as e:
            self.fail(mech, msg + " (not numeric: %r)" % (e,), **detail)
            return False
        if g.shape != w.shape:
            self.fail(mech, msg + " (shape %s, expected %s)" % (g.shape, w.shape), **detail)
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = tuple(int(v) for v in np.argwhere(~ok)[0]) if g.ndim else ()
            self.fail(mech, msg, index=i, got=float(g[i]), want=float(w[i]), bad=int((~ok).sum()), of=int(g.size), **detail)
            return False
        return True


def repo_frame(tb):
    """The deepest traceback frame that belongs to the code under test, or None"""
    hit = None
    for fr in traceback.extract_tb(tb):
        fn = fr.filename.replace("\\", "/")
        if fn.startswith(REPO + "/") or fn.startswith("sidetopics/"):
            hit = "%s:%s" % (fn.replace(REPO + "/", ""), fr.name)
    return hit


def malformed(e):
    """
    Whether an exception raised while looking at a result says that the result is not what it must be
    (it cannot be indexed, parsed, converted, or is not there), rather than that something has another
    name or signature, or that the machine has run out of something.
    """
    if isinstance(e, AttributeError):
        return isinstance(getattr(e, "obj", e), (type(None), np.ndarray, np.generic, list, tuple, dict, str, int, float)) and not hasattr(getattr(e, "obj", None), "_fields")
    if isinstance(e, TypeError):
        return not any(t in str(e) for t in ("argument", "parameter", "callable"))
    return isinstance(e, (LookupError, ArithmeticError, ValueError, FileNotFoundError, AssertionError, StopIteration))


@contextlib.contextmanager
def quiet():
    """The library prints a lot."""
    out = io.StringIO()
    old_o, old_e = sys.stdout, sys.stderr
    sys.stdout = out
    sys.stderr = out
    try:
        with np.errstate(all="ignore"):
            yield out
    finally:
        sys.stdout, sys.stderr = old_o, old_e


def run_case(mod, case, mon, verbose=False):
    mon.case = case
    mon.cases += 1
    if len(mon.samples) < 4 or (mon.cases % 97 == 0 and len(mon.samples) < 8):
        mon.samples.append(jsonable(case))
    try:
        with quiet():
            # every case starts from a state that depends on nothing but the case
            np.random.seed(zlib.crc32(json.dumps(jsonable(case), sort_keys=True).encode()) & 0x7FFFFFFF)
            mod.run_case(case, mon)
    except Inconclusive as e:
        mon.inconclusive.append(str(e))
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        where = repo_frame(e.__traceback__)
        if where is None:
            if not malformed(e):
                raise
            # the cases and what the harness does with results are deterministic, and no case raises on sound code
            at = [x for x in traceback.extract_tb(e.__traceback__) if "/checks/" in x.filename or "/vlib/" in x.filename][-1]
            mon.fail("malformed:%s:%s" % (type(e).__name__, at.name),
                     "a result does not have the form it must have: %s: %s (seen by %s)" % (type(e).__name__, str(e)[:300], at.name),
                     trace=traceback.format_exc()[-1500:])
            return
        mon.fail("crash:%s:%s" % (type(e).__name__, where.split(":")[0]),
                 "operation that must succeed raised %s: %s (in %s)" % (type(e).__name__, str(e)[:300], where),
                 trace=traceback.format_exc()[-1500:])
    finally:
        mon.case = None


def sha(*arrays):
    h = hashlib.blake2b(digest_size=12)
    for a in arrays:
        if a is None:
            h.update(b"N")
        elif hasattr(a, "indptr"):
            for p in (a.data, a.indices, a.indptr):
                h.update(np.ascontiguousarray(p).tobytes())
            h.update(repr((a.shape, str(a.dtype))).encode())
        elif isinstance(a, np.ndarray):
            h.update(repr((a.shape, str(a.dtype))).encode())
            if a.dtype == object:
                h.update(repr(a.tolist()).encode())
            else:
                h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()
