"""mkseed.py: helper that writes seeded/<id>/ from substitutions in /repo's files (which it leaves unchanged)"""
import json, os, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in /repo after the build
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
def seed(id, prop, subs, demo, needs, breaks):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed_")
    subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/w"])
    try:
        for f, old, new, *nth in subs:
            p = tmp + "/w/" + f
            s = open(p).read()
            if nth:     # the nth occurrence
                parts = s.split(old)
                assert len(parts) > nth[0] + 1, (id, f, len(parts))
                s = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
            else:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"], text=True)
    finally:
        shutil.rmtree(tmp)
    # the lines changed are the original repository's
    for f, *_ in subs:
        base = subprocess.run(["git", "-C", "/repo", "show", "0de939f:" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        notorig = [l for l in removed if l not in base]
        if notorig:
            print("WARNING", id, "changes lines which are not the original's:", notorig)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
