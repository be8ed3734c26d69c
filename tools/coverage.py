#!/usr/bin/env python3
"""tools/coverage.py [ids]: which lines and branches of /repo the quick tier of the (unscheduled) harnesses executes.
Prints the lines never executed and the branches never taken of each source file. Works in a directory under /tmp that it removes."""
import os, subprocess, sys, glob, tempfile, shutil, concurrent.futures as cf, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS
import check
ids = sys.argv[1:] or [c for c in sorted(CHECKS) if c not in ("C07", "C08", "C20")]
tmp = tempfile.mkdtemp(prefix="cov_")
try:
    def build(cid, name, spec):
        d = os.path.join(tmp, cid + name)
        os.makedirs(d)
        inc = ["-I" + VERIF + "/lib", "-I" + check.LIB + "/include"] + ["-I" + os.path.join(VERIF, s) for s in spec.get("shims", [])] + \
            ["-I" + os.path.join(check.REPO, s) for s in spec.get("repo_includes", [])]
        libs = ["-pthread", "-lzstd", "-llz4"]
        if "pcl" in spec.get("libs", []):
            inc += [f for f in check.pkg_flags("pcl_io", "--cflags") if f.startswith(("-I", "-D"))]
            libs += ["-lpcl_io", "-lpcl_common", "-lboost_system"]
        base = check.COMMON + ["-O1", "-msse4.1", "-DVH_GCOV", "-fprofile-update=atomic"] + inc
        for s in check.lib_sources(spec.get("libs", [])) + [s if os.path.isabs(s) else os.path.join(VERIF, s) for s in spec["src"]]:
            # templates of headers are instantiated in the harness as well
            subprocess.run(["g++", "-c", s, "--coverage", "-o", os.path.join(d, os.path.basename(s) + ".o")] + base + spec.get("lib_flags", []), check=True, cwd=d)
        subprocess.run(["g++", "--coverage", "-o", d + "/x"] + glob.glob(d + "/*.o") + spec.get("ldflags", []) + libs + spec.get("ldlibs", []), check=True, cwd=d)
        return d
    progs = [(c, n, s) for c in ids for n, s in CHECKS[c]["programs"].items()]
    with cf.ThreadPoolExecutor(8) as ex:
        dirs = list(ex.map(lambda p: build(*p), progs))
        def run(a):
            d, i = a
            return subprocess.run([d + "/x", "--shard", str(i), "--nshards", "16", "--out", d + "/o%d" % i, "--progress", d + "/p%d" % i, "--case-limit", "900"],
                                  cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        rcs = list(ex.map(run, [(d, i) for d in dirs for i in range(16)]))
        print("runs:", len(rcs), "failed:", sum(1 for r in rcs if r))
    lines, branches, text = {}, {}, {}
    for d in dirs:
        for o in glob.glob(d + "/*.gcno"):
            subprocess.run(["gcov", "-b", "-c", "-p", "-m", os.path.basename(o)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for g in glob.glob(d + "/*.gcov"):
                src = None
                ln = 0
                for l in open(g, errors="replace"):
                    m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", l)
                    if m:
                        if m.group(2) == "0":
                            if m.group(3).startswith("Source:"):
                                src = m.group(3)[7:]
                            continue
                        if src is None or not src.startswith(check.LIB) or "/ankerl/" in src:
                            continue
                        ln = int(m.group(2))
                        c = m.group(1).strip().rstrip("*")
                        bi = 0
                        text[(src, ln)] = m.group(3)
                        if c == "-":
                            continue
                        n = 0 if not c.isdigit() else int(c)
                        lines[(src, ln)] = max(lines.get((src, ln), 0), n)
                    elif l.startswith("branch") and src and src.startswith(check.LIB) and "/ankerl/" not in src and "(throw)" not in l:
                        m = re.match(r"branch\s+(\d+) (never executed|taken (\d+))", l)
                        if m:
                            k = (src, ln, int(m.group(1)))
                            branches[k] = max(branches.get(k, 0), int(m.group(3) or 0))
                os.unlink(g)
    for src in sorted({s for s, _ in lines}):
        a = [l for (s, l) in lines if s == src]
        un = [l for l in sorted(a) if not lines[(src, l)]]
        ub = sorted({l for (s, l, b), n in branches.items() if s == src and n == 0 and lines.get((src, l))})
        print("== %s: %d of %d lines executed" % (src[len(check.LIB) + 1:], len(a) - len(un), len(a)))
        for l in un:
            print("   never   %4d: %s" % (l, text[(src, l)][:120]))
        for l in ub:
            print("   partly  %4d: %s" % (l, text[(src, l)][:120]))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
