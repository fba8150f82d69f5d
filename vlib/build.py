"""Compiles the Cython extensions of /repo's *current* working tree, out of tree.

/opt/vp/build.sh is not run again before a check, so the .so files beside the sources may be
stale.  Every check therefore compiles the .pyx files itself into a scratch directory and an
import finder (vlib.boot) makes `import sidetopics.x.y_fast` resolve to those objects while all
Python code is imported straight from /repo.

Variants
  plain   the flags of the project's own build
  bounds  @cython.boundscheck(False) turned into True (and wraparound left off): an out-of-range
          index into a typed memoryview / buffer raises IndexError instead of touching memory
  asan    gcc -fsanitize=address,undefined over the unmodified C translation
"""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = {"sidetopics/model/rtm_fast.pyx"}       # does not compile at the pinned commit, nobody imports it
DIRECTIVES = ["-X", "language_level=2", "-X", "legacy_implicit_noexcept=True"]
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
BASE = ["-fPIC", "-shared", "-fno-strict-aliasing", "-fwrapv", "-fopenmp", "-w"]
FLAGS = {
    "plain": ["-O2"],
    "bounds": ["-O1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fsanitize=float-cast-overflow,float-divide-by-zero", "-fno-sanitize=alignment,null,float-divide-by-zero"],
}
LIBS = ["-lgsl", "-lgslcblas", "-lgomp", "-lm"]


def cache_root():
    root = os.environ.get("VERIF_CACHE", "/tmp/verif_cache_%d" % os.getuid())
    os.makedirs(root, exist_ok=True)
    return root


def _digest(variant, pyx, shared):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], BASE, LIBS, DIRECTIVES, sys.version)).encode())
    for f in [pyx] + shared + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:32]


def _bounds_source(text):
    text = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", text)
    text = re.sub(r"(#\s*cython:.*)boundscheck\s*=\s*False", r"\1boundscheck=True", text)
    return text


def _one(args):
    variant, pyx, shared = args
    import numpy as np
    name = pyx[:-4].replace("/", ".")
    src = os.path.join(REPO, pyx)
    d = os.path.join(cache_root(), _digest(variant, src, shared) )
    so = os.path.join(d, name + SUFFIX)
    if os.path.exists(so):
        return name, so, None
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return name, so, None
        work = os.path.join(d, "src", os.path.dirname(pyx))
        os.makedirs(work, exist_ok=True)
        # cython wants the package around the .pyx so that `cimport` of sibling .pxd works
        local = os.path.join(work, os.path.basename(pyx))
        text = open(src, encoding="utf-8").read()
        if variant == "bounds":
            text = _bounds_source(text)
        with open(local, "w", encoding="utf-8") as f:
            f.write(text)
        for s in shared:
            rel = os.path.relpath(s, REPO)
            dst = os.path.join(d, "src", rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as f:
                f.write(open(s, "rb").read())
        for pkg in ("sidetopics", os.path.dirname(pyx)):
            init = os.path.join(d, "src", pkg, "__init__.py")
            if not os.path.exists(init):
                open(init, "w").close()
        c = os.path.join(d, name + ".c")
        tmp = so + ".tmp"
        extra = ["-X", "boundscheck=True"] if variant == "bounds" else []
        for cmd in (
            [sys.executable, "-m", "cython", *DIRECTIVES, *extra, "--module-name", name, pyx, "-o", c],
            ["gcc", *FLAGS[variant], *BASE, "-I" + sysconfig.get_path("include"), "-I" + np.get_include(),
             "-I" + work, c, "-o", tmp, *LIBS],
        ):
            p = subprocess.run(cmd, cwd=os.path.join(d, "src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return name, None, p.stdout[-4000:]
        os.replace(tmp, so)
    return name, so, None


def build(variant="plain"):
    """-> {module name: path of .so}; raises RuntimeError when something does not compile"""
    pyxs = [os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "sidetopics/**/*.pyx"), recursive=True)]
    pyxs = sorted(set(pyxs) - SKIP)
    shared = sorted(glob.glob(os.path.join(REPO, "sidetopics/**/*.pxd"), recursive=True)
                    + glob.glob(os.path.join(REPO, "sidetopics/**/*.h"), recursive=True))
    out, bad = {}, []
    with ThreadPoolExecutor(8) as ex:
        for name, so, err in ex.map(_one, [(variant, p, shared) for p in pyxs]):
            if err is not None:
                bad.append("%s: %s" % (name, err))
            else:
                out[name] = so
    if bad:
        raise RuntimeError("native build failed\n" + "\n".join(bad))
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(v, build(v))
