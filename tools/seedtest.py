#!/usr/bin/env python3
"""Confirms planted bugs (build, stable tests, demo) and runs checks on them in scratch copies of /repo.
usage: seedtest.py [-c CHECK,CHECK|own|all] [-n] [ID...]     -n: skip build/tests/demo"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from seedlib import SEEDED, REPO, sh
args = sys.argv[1:]
checks = "own"; skip = False; ids = []
while args:
    a = args.pop(0)
    if a == "-c": checks = args.pop(0)
    elif a == "-n": skip = True
    else: ids.append(a)
ids = ids or sorted(os.listdir(SEEDED))
stable = json.load(open("/opt/vp/BASELINE.json"))

def confirm(i):
    d = f"{SEEDED}/{i}"
    wt = tempfile.mkdtemp(prefix="st_")
    res = {}
    try:
        sh(f"git -C {REPO} archive HEAD | tar -x -C {wt}")
        r0 = sh(["bash", f"{d}/demo.sh"], cwd=wt); res["clean"] = r0.returncode
        if r0.returncode: res["log"] = r0.stdout[-1500:]
        a = sh(f"git apply --whitespace=nowarn {d}/patch.diff", cwd=wt)
        if a.returncode: res["apply"] = a.stdout; return i, res
        r1 = sh(["bash", f"{d}/demo.sh"], cwd=wt); res["bug"] = r1.returncode
        res["buglog"] = r1.stdout[-300:]
    finally:
        shutil.rmtree(wt)
    return i, res

def main():
    if not skip:
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(confirm, ids):
                ok = r.get("clean") == 0 and r.get("bug") not in (0, 2, None)
                print(i, "DEMO-OK" if ok else f"DEMO-BAD {r}", "|", r.get("buglog", "").strip().replace("\n", " / ")[-160:], flush=True)
        for i in ids:   # build and tests on /repo itself, sequentially
            assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip()
            sh(["git", "-C", REPO, "apply", "--whitespace=nowarn", f"{SEEDED}/{i}/patch.diff"])
            try:
                b = sh(["bash", "/opt/vp/build.sh"]); t = sh(["bash", "/opt/vp/test.sh", "/tmp/st.json"])
                j = json.load(open("/tmp/st.json"))
                n = sum(1 for v in (j.get("tests", j) if isinstance(j, dict) else j) if True)
                p = j.get("passed", []); f = j.get("failed", [])
                print(i, "build", b.returncode, "passed", len(p), "failed", f, flush=True)
            finally:
                sh(["git", "-C", REPO, "checkout", "--", "."])
        sh(["bash", "/opt/vp/build.sh"])
    if checks == "none": return
    for i in ids:
        prop = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
        cl = [prop] if checks == "own" else [f"C{k:02d}" for k in range(1, 30) if os.path.exists(f"/verif/harness/c{k:02d}.cpp")] if checks == "all" else checks.split(",")
        wt = tempfile.mkdtemp(prefix="st_")
        try:
            sh(f"git -C {REPO} archive HEAD | tar -x -C {wt}")
            sh(f"git apply --whitespace=nowarn {SEEDED}/{i}/patch.diff", cwd=wt)
            caught = []; log = ""
            for c in cl:
                r = sh(["python3", "/verif/check.py", "run", c, "quick"], cwd="/verif", env={**os.environ, "VERIF_REPO": wt})
                if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout: caught.append(c)
                elif r.returncode: log += f" {c}:rc={r.returncode} {r.stdout[-200:]}"
            print(i, prop, "CAUGHT" if prop in caught else "----MISSED", ",".join(caught), log, flush=True)
        finally:
            shutil.rmtree(wt)
main()
