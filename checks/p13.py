"""The seed decides everything: the same program gives the same bytes, whatever ran before it."""
import json
import os
import subprocess
import sys
import numpy as np
from vlib import gen, models
from vlib.core import quiet, rng_of, sha

META = dict(rule="distinct (kind of model, corpus, configuration) programs run two or three times with other work in between",
            min_events={"programs": 250, "seeds": 1500},
            assumptions=["the program builds its model and uses it without drawing from the global generators in between",
                         "native multi-threading is limited to one thread"])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases(tier, seed):
    n = 150 if tier == "quick" else 1500
    for i in range(n):
        yield dict(i=i, seed=seed, kind=models.KINDS[i % 6], corpus=gen.CORPUS_KINDS[(i // 6) % 8], dtype=["float64", "int32", "float32"][(i // 5) % 3],
                   docs=[20, 5, 45][(i // 4) % 3], words=[18, 40][(i // 3) % 2], K=[3, 6][(i // 7) % 2], log=[0, 5][(i // 2) % 2], iters=[12, 2, 40][(i // 8) % 3],
                   model_seed=[0, 1, 0xC0FFEE, 12345, 2 ** 31 - 1][(i // 9) % 5], fresh=i % 15 == 0)


def program(case, model_seed):
    rng = rng_of(case["i"], case["seed"], "p13")
    dt = np.dtype(case["dtype"])
    X = models.covering(rng, case["docs"], case["words"], case["corpus"], dt)
    X2 = models.covering(rng, max(2, case["docs"] // 2), case["words"], "topical", dt)
    m = models.facade(case["kind"], n_components=case["K"], iterations=case["iters"], query_iterations=6, log_frequency=case["log"], seed=model_seed)
    out = {}
    out["fit_transform"] = sha(np.array(m.fit_transform(models.dataset(X))))
    out["components"] = sha(np.array(m.components_))
    t = np.array(m.transform(models.dataset(X2)))
    out["transform"] = sha(t)
    out["score"] = sha(np.float64(m.score(models.dataset(X2), y=t)))
    out["inferred"] = sha(np.float64(m.score(models.dataset(X2))))
    m.fit(models.dataset(X2))
    out["retrained"] = sha(np.array(m.components_))
    return out


def disturb(case, step):
    """work that must not matter"""
    rng = rng_of(case["i"], step, "noise")
    np.random.seed(rng.randint(10 ** 6))
    np.random.rand(rng.randint(1, 50))
    import random
    random.seed(step)
    models.reseed(rng.randint(10 ** 6))
    kind = models.KINDS[rng.randint(6)]
    m = models.facade(kind, iterations=3, seed=int(rng.randint(10 ** 6)))
    m.fit_transform(gen.corpus(rng, 6, 12, "topical", np.float64))


def different_seeds(case, mon):
    """seeds that differ in one bit only, low or high, and random ones, give different random states"""
    rng = rng_of(case["i"], case["seed"], "p13 seeds")
    gibbs = case["kind"] == "LDA_GIBBS"
    bits = 31 if gibbs else 32
    base = int(rng.randint(2, 2 ** 31 - 1))
    seeds = [base] + [base ^ (1 << int(j)) for j in rng.permutation(bits)[:10]] + [int(x) for x in rng.randint(2, 2 ** 31 - 1, 4)]
    seen = {}
    for s in sorted(set(seeds)):
        models.reseed(99)
        m = models.facade(case["kind"], n_components=8, iterations=1, seed=s)
        state = np.random.random_sample(6).tobytes()
        if gibbs:     # the sampler has a generator of its own
            np.random.seed(7)
            X = np.full((6, 20), 4, dtype=np.int32)
            with quiet():
                state = sha(np.asarray(m.fit(X)._model_state.vocabSum))
        mon.count("seeds")
        mon.expect(state not in seen, "seeds-differ:" + case["kind"], "two seeds give the same random state", seeds=(seen.get(state), s))
        seen[state] = s


def run_case(case, mon):
    a = program(case, case["model_seed"])
    mon.count("programs")
    for step in (1, 2):
        disturb(case, step)
        b = program(case, case["model_seed"])
        mon.count("programs")
        for k in a:
            mon.expect(a[k] == b[k], "same:" + k, "the same program with the same seed gave something else the second time")
    c = program(case, case["model_seed"] + 1 if case["model_seed"] < 2 ** 31 - 1 else 7)
    if case["kind"].startswith("LDA") and case["docs"] >= 20:
        mon.expect(a["transform"] != c["transform"] and a["components"] != c["components"], "seed-matters", "another seed gave the same bytes: the seed is ignored")
    different_seeds(case, mon)
    if case["fresh"] and os.environ.get("VERIF_P13_CHILD") is None:
        env = dict(os.environ, VERIF_P13_CHILD="1", PYTHONHASHSEED=str(case["i"] + 11))
        code = ("import sys, json; sys.path.insert(0, %r)\n"
                "from vlib import build, boot, core\n"
                "boot.install(build.build('plain'))\n"
                "from checks import p13\n"
                "case = json.loads(%r)\n"
                "with core.quiet():\n    out = p13.program(case, case['model_seed'])\n"
                "print('RESULT' + json.dumps(out))\n") % (HERE, json.dumps({k: case[k] for k in case}))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
        if not line:
            raise RuntimeError("child failed: " + p.stdout[-800:])
        b = json.loads(line[0][6:])
        mon.count("processes")
        for k in a:
            mon.expect(a[k] == b[k], "process:" + k, "the same program gave something else in another process")
    mon.seen(case["kind"], case["corpus"], case["dtype"], case["docs"], case["K"], case["iters"], case["log"], case["model_seed"])
