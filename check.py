"""Usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]

Runs one check: builds the native code of /repo's working tree, spreads the cases of
checks/<id>.py over worker processes, merges what their monitors observed, writes
evidence/<ID>.json and prints the verdict.
  exit 0  the property held on everything observed (listed known findings may be printed)
  exit 1  VIOLATION property=<ID> replay=<file>
  exit 2  inconclusive: the monitor was not reached / a worker hung / the harness failed
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore")


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def worker(args):
    from vlib import boot, core
    spec = json.load(open(args.spec))
    boot.install(spec["table"])
    mod = importlib.import_module("checks." + args.id.lower())
    mon = core.Monitor()
    if hasattr(mod, "start"):
        mod.start(spec, mon)
    t0 = time.time()
    n, stopped = 0, False
    if spec.get("replay"):
        cases = [spec["replay"]]
    else:
        cases = mod.cases(spec["tier"], spec["seed"])
    for i, case in enumerate(cases):
        if not spec.get("replay") and i % spec["jobs"] != spec["shard"]:
            continue
        if time.time() - t0 > spec["cap"]:
            stopped = True
            break
        with open(spec["journal"], "w") as f:
            json.dump(core.jsonable(case), f)
        core.run_case(mod, case, mon)
        n += 1
    if hasattr(mod, "finish"):
        mod.finish(mon)
    if os.path.exists(spec["journal"]):
        os.remove(spec["journal"])
    out = dict(events=mon.events, distinct=sorted(mon.distinct), violations=mon.violations, cases=mon.cases,
               samples=mon.samples, inconclusive=mon.inconclusive, stopped=stopped)
    with open(spec["out"] + ".tmp", "w") as f:
        json.dump(core.jsonable(out), f)
    os.replace(spec["out"] + ".tmp", spec["out"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--spec", help=argparse.SUPPRESS)
    args = ap.parse_args()
    os.environ.update(ENV)
    os.environ.pop("PYTHONPATH", None)
    if args.spec:
        return worker(args)

    t0 = time.time()
    from vlib import build
    sys.path.insert(0, HERE)
    meta = importlib.import_module("checks." + args.id.lower()).META
    variants = meta.get("variants", ["plain"])
    jobs = args.jobs or meta.get("jobs", 8)
    replay = json.load(open(args.replay)) if args.replay else None
    if replay is not None:
        jobs = 1
        if "case" in replay:
            variants = [replay.get("variant", variants[0])]
            replay = replay["case"]
    try:
        tables = {v: build.build(v) for v in variants}
    except RuntimeError as e:
        print("INCONCLUSIVE property=%s the native code does not build\n%s" % (args.id, e))
        return 2

    merged = dict(events={}, distinct=set(), violations=[], cases=0, samples=[], inconclusive=[], stopped=0)
    hung, harness, deaths = [], [], {}
    limit = 800 if args.tier == "quick" else 3600 * 3
    cap = meta.get("cap", {}).get(args.tier, 240 if args.tier == "quick" else 1800)
    with tempfile.TemporaryDirectory(prefix="verif_run_") as tmp:
        procs = []
        for v in variants:
            for shard in range(jobs):
                base = os.path.join(tmp, "%s_%d" % (v, shard))
                spec = dict(table=tables[v], tier=args.tier, seed=args.seed, shard=shard, jobs=jobs, cap=cap, variant=v,
                            replay=replay, out=base + ".out", journal=base + ".journal", tmp=base + ".d", log=base + ".san")
                os.makedirs(spec["tmp"])
                json.dump(spec, open(base + ".spec", "w"))
                env = dict(os.environ)
                env["TMPDIR"] = spec["tmp"]
                if v == "asan":
                    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
                    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
                    env["LD_PRELOAD"] = lib + ":" + ub
                    env["PYTHONMALLOC"] = "malloc"
                    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=66:allocator_may_return_null=1:log_path=" + spec["log"]
                    env["UBSAN_OPTIONS"] = "halt_on_error=0:print_stacktrace=1:log_path=" + spec["log"]
                procs.append((v, shard, spec, [sys.executable, "-W", "ignore", os.path.abspath(__file__), args.id, "--spec", base + ".spec"], env, base))
        running, todo = [], list(procs)
        width = jobs if len(variants) == 1 else 8
        while todo or running:
            while todo and len(running) < width:
                p = todo.pop(0)
                log = open(p[5] + ".log", "w")
                running.append((p, subprocess.Popen(p[3], env=p[4], stdout=log, stderr=subprocess.STDOUT, cwd=p[2]["tmp"], start_new_session=True)))
            time.sleep(0.05)
            for item in list(running):
                (v, shard, spec, _, _, base), proc = item
                rc = proc.poll()
                if rc is None and time.time() - t0 > limit:
                    os.killpg(proc.pid, 9)
                    proc.wait()
                    j = json.load(open(spec["journal"])) if os.path.exists(spec["journal"]) else None
                    hung.append(dict(case=j, variant=v))
                    running.remove(item)
                    continue
                if rc is None:
                    continue
                running.remove(item)
                san = "".join(open(os.path.join(tmp, f), errors="replace").read() for f in sorted(os.listdir(tmp))
                              if f.startswith(os.path.basename(spec["log"]) + ".") or f == os.path.basename(spec["log"]))
                if os.path.exists(spec["out"]):
                    o = json.load(open(spec["out"]))
                    for k, n in o["events"].items():
                        merged["events"][k] = merged["events"].get(k, 0) + n
                    merged["distinct"].update(o["distinct"])
                    for x in o["violations"]:
                        x["variant"] = v
                    merged["violations"] += o["violations"]
                    merged["cases"] += o["cases"]
                    merged["samples"] += o["samples"][:3]
                    merged["inconclusive"] += o["inconclusive"]
                    merged["stopped"] += bool(o["stopped"])
                    if san.strip():
                        merged["violations"].append(dict(mech="sanitizer", msg="sanitizer report", case=None, variant=v,
                                                         detail={"log": san[:6000]}))
                else:
                    if rc < 0 and not san.strip():
                        # a death without a sanitizer's report is believed when it happens again: something outside
                        # the code under test can end a process too
                        deaths[base] = deaths.get(base, 0) + 1
                        if deaths[base] < 2:
                            todo.append((v, shard, spec, *[p for p in procs if p[5] == base][0][3:]))
                            continue
                    j = json.load(open(spec["journal"])) if os.path.exists(spec["journal"]) else None
                    tail = open(base + ".log", errors="replace").read()[-3000:]
                    if j is not None and (rc < 0 or rc == 66 or san.strip()):
                        merged["violations"].append(dict(mech="sanitizer" if san.strip() else "died:signal%d" % -rc,
                                                         msg="the process died (%s) while running the case" % rc, case=j, variant=v,
                                                         detail={"log": (san or tail)[:6000]}))
                    else:
                        harness.append("worker %s/%d ended with %s\n%s" % (v, shard, rc, tail))

    known = {(k["property"], k["mech"]): k for k in known_findings() if k.get("status") == "known"}
    hits, fresh = {}, []
    for x in merged["violations"]:
        k = known.get((args.id, x["mech"]))
        if k is not None:
            hits.setdefault(x["mech"], [k, 0])[1] += 1
        else:
            fresh.append(x)

    cov = dict(evaluations=int(merged["cases"]), distinct_nontrivial=len(merged["distinct"]), rule=meta["rule"],
               samples=merged["samples"][:10], events=dict(sorted(merged["events"].items())),
               variants=variants, processes_that_died=sum(deaths.values()), inconclusive_cases=len(merged["inconclusive"]), shards_stopped_by_time=merged["stopped"],
               known_findings={m: n for m, (_, n) in hits.items()})
    if replay is None:
        ev = dict(property=args.id, tier=args.tier, seed=args.seed, level=meta.get("level", "exploration"), coverage=cov,
                  assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", args.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    for m, (k, n) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (args.id, k["what"], n))
    print("property=%s tier=%s seed=%d cases=%d distinct=%d violations=%d inconclusive=%d wall=%.1fs" % (
        args.id, args.tier, args.seed, merged["cases"], len(merged["distinct"]), len(fresh), len(merged["inconclusive"]), time.time() - t0))
    if fresh:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        path = None
        for x in fresh:
            if x["mech"] in shown or len(shown) >= 12:
                continue
            shown.add(x["mech"])
            p = os.path.join(rdir, "%s_%s.json" % (args.id, "".join(c if c.isalnum() else "_" for c in x["mech"])[:60]))
            with open(p, "w") as f:
                json.dump(x, f, indent=1)
            path = path or p
            print("  [%s] x%d %s %s\n      case=%s" % (x["mech"], sum(y["mech"] == x["mech"] for y in fresh), x["msg"],
                  json.dumps(x["detail"])[:700], json.dumps(x["case"])[:400]))
        print("VIOLATION property=%s replay=%s" % (args.id, path))
        return 1
    if harness or hung:
        for h in harness[:3]:
            print("INCONCLUSIVE property=%s %s" % (args.id, h))
        for h in hung[:3]:
            print("INCONCLUSIVE property=%s a worker made no progress; last case %s" % (args.id, json.dumps(h)[:500]))
        return 2
    if replay is None:
        need = meta.get("min_events", {})
        short = {k: merged["events"].get(k, 0) for k, n in need.items() if merged["events"].get(k, 0) < n}
        if short or merged["cases"] == 0 or len(merged["distinct"]) == 0:
            print("INCONCLUSIVE property=%s too little observed: %s" % (args.id, short))
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
