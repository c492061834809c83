#!/usr/bin/env python3
"""mkbugs.py [-k] [-j N] [ID ...]   (re)build seeded/<ID> from tools/bugs/*.py, confirm it
(build, stable tests, demo on both trees) and run its property's check against it.

A definition: B(id, prop, edits, demo, needs, breaks, lane='cp'), edits a list of
(file under convst/, old, new[, count]).  -k: only (re)run the check, no rebuilding."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "c1c692b"
DEFS = {}


def B(id, prop, edits, demo, needs, breaks, lane="cp"):
    assert id not in DEFS, id
    DEFS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, lane=lane)


ENV = '''"""Put the package (current directory) on stand-ins for what is not installed."""
import os, sys, warnings
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.abspath(__file__))
import numpy as np
for n, t in (("float_", np.float64), ("bool8", np.bool_), ("product", np.prod), ("Inf", np.inf),
             ("NaN", np.nan)):
    if not hasattr(np, n):
        setattr(np, n, t)
warnings.simplefilter("ignore")
np.seterr(all="ignore")
sys.path.insert(0, os.path.join(D, "standins"))
try:
    import scipy  # noqa
except ImportError:
    sys.path.insert(0, os.path.join(D, "standins_pypy"))
else:
    sys.path.insert(0, os.path.join(D, "standins_cpython"))
sys.path.insert(0, os.getcwd())


def expect(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.pop("VERIF_REPO", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="bug_")
    r = os.path.join(d, "repo")
    shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return d, r


def blame(path):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", path],
                         stdout=subprocess.PIPE, text=True).stdout.splitlines()
    return [ln.split()[0].lstrip("^") for ln in out]


def build(b, root):
    """apply the edits in root; return diff"""
    for e in b["edits"]:
        f, old, new = e[:3]
        cnt = e[3] if len(e) > 3 else 1
        p = os.path.join(root, "convst", f)
        with open(p, newline="") as fh:
            s = fh.read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != cnt:
            raise SystemExit("%s: %d matches (want %d) for %r in %s" % (b["id"], s.count(old), cnt, old, f))
        with open(p, "w", newline="") as fh:
            fh.write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", root, "diff"], stdout=subprocess.PIPE).stdout
    return diff


def origin(diff):
    """(removed lines from the original repo, removed lines from later commits)"""
    base = subprocess.run(["git", "-C", REPO, "rev-parse", BASE], stdout=subprocess.PIPE, text=True).stdout.strip()
    f, ln, ok, bad, bl = None, 0, 0, 0, {}
    for line in diff.decode("utf-8", "replace").split("\n"):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            bl[f] = blame(f)
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if bl[f][ln - 1][:30] == base[:30]:
                ok += 1
            else:
                bad += 1
            ln += 1
        elif line.startswith(" "):
            ln += 1
    return ok, bad


def write(b, diff):
    d = os.path.join(V, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with open(os.path.join(d, "patch.diff"), "wb") as fh:
        fh.write(diff)
    ig = shutil.ignore_patterns("__pycache__", "*.pyc")
    shutil.copytree(os.path.join(V, "shims"), os.path.join(d, "standins"), ignore=ig)
    shutil.copytree(os.path.join(V, "shims_cpython"), os.path.join(d, "standins_cpython"), ignore=ig)
    if b["lane"] == "pypy":
        shutil.copytree(os.path.join(V, "shims_pypy"), os.path.join(d, "standins_pypy"), ignore=ig)
    with open(os.path.join(d, "env.py"), "w") as fh:
        fh.write(ENV)
    with open(os.path.join(d, "demo.py"), "w") as fh:
        fh.write("from env import expect\nimport numpy as np\n" + b["demo"].strip("\n") + "\nprint('ok')\n")
    py = "/opt/venv/bin/python" if b["lane"] == "pypy" else "python3-vt"
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write("#!/bin/bash\nD=\"$(cd \"$(dirname \"$0\")\" && pwd)\"\n"
                 "export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n"
                 "exec %s \"$D/demo.py\"\n" % py)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fh, indent=1)
        fh.write("\n")
    return d


def one(b, keep):
    d, root = scratch()
    note = []
    try:
        sd = os.path.join(V, "seeded", b["id"])
        if not keep:
            diff = build(b, root)
            ok, bad = origin(diff)
            if bad or not ok:
                note.append("ORIGIN ok=%d bad=%d" % (ok, bad))
            sd = write(b, diff)
            sh(["git", "checkout", "--", "."], root)
            rc, out = sh(["bash", os.path.join(sd, "demo.sh")], root, timeout=300)
            if rc:
                note.append("DEMO-CLEAN rc=%d %s" % (rc, out[-600:]))
        rc, out = sh(["git", "apply", os.path.join(sd, "patch.diff")], root)
        if rc:
            return b["id"], b["prop"], "PATCH " + out, "", ""
        if not keep:
            rc, out = sh(["bash", os.path.join(sd, "demo.sh")], root, timeout=300)
            if rc == 0:
                note.append("DEMO-PATCHED passes")
            elif "BROKEN:" not in out:
                note.append("demo fails otherwise: " + out[-400:])
            rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                          "tests/test_checks_utils.py"], root)
            if rc:
                note.append("TESTS " + out[-300:])
        caught = []
        props = os.environ.get("BUG_CHECKS", b["prop"]).split(",")
        for p in props:
            rc, out = sh(["python3-vt", os.path.join(V, "run.py"), p], V,
                         env={"VERIF_REPO": root, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
                              "VERIF_TIER": "quick", "VERIF_OUT": d, "VERIF_VERBOSE": "1"}, timeout=1000)
            vio = [x for x in out.splitlines() if x.startswith("VIOLATION property=%s " % p)]
            if rc == 1 and vio:
                caught.append(p)
            elif rc != 0:
                note.append("CHECK %s rc=%d %s" % (p, rc, out[-500:]))
        return b["id"], b["prop"], "; ".join(note), ",".join(caught) or "MISSED", ""
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    keep = "-k" in args
    args = [a for a in args if a != "-k"]
    j = 2
    if "-j" in args:
        i = args.index("-j")
        j = int(args[i + 1])
        del args[i:i + 2]
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"B": B, "__name__": "bugs"})
    todo = [DEFS[i] for i in sorted(DEFS) if not args or any(i == a or i.startswith(a + "-") for a in args)]
    res = {}
    rf = os.path.join(V, "tools", "bug_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    os.environ["VERIF_JOBS"] = str(max(1, 8 // j))
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda b: one(b, keep), todo):
            print("%-28s %s %-8s %s" % (r[0], r[1], r[3], r[2]), flush=True)
            res[r[0]] = {"property": r[1], "caught_by": r[3], "note": r[2][:300]}
    res = {k: v for k, v in sorted(res.items()) if k in DEFS}
    with open(rf, "w") as fh:
        json.dump(res, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
