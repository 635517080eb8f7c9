#!/usr/bin/env python3
"""Plant one bug: mkseed.py SPEC.py  (helper for the author, no check uses it).

SPEC.py defines id, property, edits=[(file, old, new)], needs, breaks, demo (python text).
The change is made in a scratch copy of /repo; the bug is kept in /verif/seeded/<id> only if it
passes the stable tests and the demonstration tells the two trees apart.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYT = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYKEOPS_VERBOSE=0
KEOPS_CACHE_FOLDER=$(mktemp -d) && export KEOPS_CACHE_FOLDER
trap 'rm -rf "$KEOPS_CACHE_FOLDER"' EXIT
/opt/venv/bin/python "$here/demo.py"
'''
def main(spec, check=True):
    s = runpy.run_path(spec)
    sid = s["id"]
    sc = tempfile.mkdtemp(prefix="sc.", dir="/tmp")
    try:
        tree = os.path.join(sc, "repo")
        subprocess.check_call(["cp", "-a", "/repo", tree])
        for f, old, new in s["edits"]:
            p = os.path.join(tree, "src/probnum", f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tree, "diff"], text=True)
        d = os.path.join(sc, "seed"); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        run = lambda cwd: subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, text=True)
        a, b = run("/repo"), run(tree)
        print(sid, "demo clean", a.returncode, "patched", b.returncode)
        if a.returncode != 0 or b.returncode == 0:
            print(a.stderr[-1500:], b.stderr[-1500:]); return 1
        if check:
            env = dict(os.environ, VERIF_REPO=tree, VERIF_TIER="quick", VERIF_EVID=sc)
            c = subprocess.run(["bash", V + "/check.sh", s["property"]], capture_output=True, text=True, env=env)
            print(sid, "check rc", c.returncode, "CAUGHT" if c.returncode == 1 and "VIOLATION" in c.stdout else "MISSED")
            print("   ", "\n    ".join([l for l in c.stdout.splitlines()][:2])[:600])
        if "--notest" in sys.argv:
            return 0
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYKEOPS_VERBOSE="0", PYTHONPATH=tree + "/src:/opt/vp/plugins", VP_KEOPS_WORK=sc + "/k")
        os.makedirs(sc + "/k")
        subprocess.run([PYT, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-n", "8", "--dist", "worksteal",
                        "-p", "vp_keops", "--ignore=tests/test_problems/test_zoo/test_linalg/test_suitesparse_matrix.py",
                        "--ignore=src/probnum/problems/zoo/linalg/_suitesparse_matrix.py", "-o", "junit_family=xunit2", f"--junitxml={sc}/r.xml"],
                       cwd=tree, env=env, stdout=open(sc + "/log", "w"), stderr=subprocess.STDOUT)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", sc + "/t.json", f"junit:{sc}/r.xml"], stdout=subprocess.DEVNULL)
        t = json.load(open(sc + "/t.json")); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = sorted(base - set(t["passed"]))
        print(sid, "tests missing", len(miss), miss[:5])
        if miss:
            return 1
        dst = os.path.join(V, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(sid, "KEPT")
    finally:
        shutil.rmtree(sc, ignore_errors=True)
rc = 0
for a in sys.argv[1:]:
    if not a.startswith("--"):
        rc |= main(a) or 0
sys.exit(rc)
