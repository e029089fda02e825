"""Development helper: builds /verif/seeded/<id>/ from dev/seeds.py and reports whether each planted change is valid and caught.

usage: mkseed.py [ids...]   (scratch copies under /tmp/seedwork; /repo itself is never changed: the copy is bind-mounted over it
in a private mount namespace while the tests, the demonstration and the check run)
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(__file__))
import seeds

OUT = "/verif/seeded"
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
D=$(mktemp -d) && trap 'rm -rf -- "$D"' EXIT
export MPLCONFIGDIR="$D"
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nfrom math import *\nimport kerrgeopy as kg\n"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(s):
    i = s["id"]
    w = f"/tmp/seedwork/{i}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in s["edits"]:
        p = f"{w}/kerrgeopy/{f}"
        t = open(p).read()
        n = t.count(old)
        assert n == 1, f"{i}: {n} occurrences of {old!r} in {f}"
        open(p, "w").write(t.replace(old, new))
    d = f"{OUT}/{i}"
    os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {w} diff -U3").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(HEAD + s["demo"].strip("\n") + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    out = []
    base = sh("git -C /repo show 0763335:kerrgeopy/" + s["edits"][0][0]).stdout.splitlines()
    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if any(l not in base for l in rem if len(s["edits"]) == 1):
        out.append("removed line not in the base")
    if not rem:
        out.append("no line removed")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode:
        out.append("DEMO FAILS ON CLEAN: " + (r.stdout + r.stderr)[-300:])
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if not r.returncode:
        out.append("DEMO PASSES WITH PATCH")
    if os.environ.get("NOTEST") != "1":
        r = sh(f"export OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0; cd {w} && timeout 600 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=120 -o junit_family=xunit2 --junitxml={w}/j.xml 2>&1 | tail -4; /opt/venv/bin/python /opt/vp/results.py {w}/o.json junit:{w}/j.xml")
        res = json.load(open(f"{w}/o.json"))
        bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in res["passed"]]
        if bad:
            out.append(f"TESTS: {bad}"[:200])
    out.append(caught(s, w))
    shutil.rmtree(w, ignore_errors=True)
    return i, out


def caught(s, w):
    r = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && cd /verif && VERIF_SEED=1 timeout 900 ./check {s['property']} quick'")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return (f"caught rc={r.returncode} {v[0][:150]}" if v else f"MISSED rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}")


if __name__ == "__main__":
    os.makedirs("/tmp/seedwork", exist_ok=True)
    S = [s for s in seeds.SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:] or s["property"] in sys.argv[1:]]
    def safe(s):
        try:
            return make(s)
        except AssertionError as e:
            return s["id"], [str(e)]
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for i, o in ex.map(safe, S):
            print(i, "|", " | ".join(o), flush=True)
