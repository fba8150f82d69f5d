"""Writes the 'fixed:' lines of known_findings.jsonl (its {...} lines are kept as they are)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHICH = dict(line.split() for line in open(os.path.join(HERE, "tools", "fixed.txt")) if line.strip())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "0de939f.."], stdout=subprocess.PIPE, text=True).stdout.splitlines()
path = os.path.join(HERE, "known_findings.jsonl")
keep = [l for l in open(path) if l.startswith("{")] if os.path.exists(path) else []
out = []
for l in log:
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    if h not in WHICH:
        print("no property for", l)
        continue
    out.append("fixed: property=%s %s %s\n" % (WHICH[h], h, s[5:]))
open(path, "w").writelines(keep + out)
print(len(keep), "known,", len(out), "fixed")
