#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  check.py run <PROPERTY> [quick|thorough]     decide one property (exit 0 / exit 1 + VIOLATION line)
  check.py replay <PROPERTY> <program> <case> [quick|thorough]   re-execute exactly one case
  check.py warm                                 compile everything once (setup_cmd)

Every run compiles the harness together with the sources of /repo's *current working tree*.
"""
import atexit
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "cloudini_lib")
BUILD = os.path.join(VERIF, ".build")
NJ = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
os.environ["LC_ALL"] = "C.UTF-8"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=86:quarantine_size_mb=16:malloc_context_size=6:allocator_may_return_null=0:"
                       "max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=87"


# ------------------------------------------------------------------------------------------------- building
def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h


_hdr_cache = {}


def headers_digest(extra_dirs):
    key = tuple(extra_dirs)
    if key not in _hdr_cache:
        files = []
        for d in [os.path.join(LIB, "include"), os.path.join(LIB, "src"), os.path.join(LIB, "tools", "include"),
                  os.path.join(REPO, "cloudini_ros", "include"), os.path.join(VERIF, "lib")] + list(extra_dirs):
            for root, _, fs in os.walk(d):
                for f in fs:
                    if f.endswith((".h", ".hpp", ".inc", ".ipp", ".hh")):
                        files.append(os.path.join(root, f))
        _hdr_cache[key] = tree_hash(files).hexdigest()
    return _hdr_cache[key]


def pkg_flags(pkg, what):
    r = sh(["pkg-config", what, pkg])
    if r.returncode != 0:
        raise CheckError("pkg-config %s: %s" % (pkg, r.stdout))
    return r.stdout.split()


def lib_sources(kind):
    """Source files of /repo that make up the library under test, discovered from the working tree."""
    srcs = []
    for p in sorted(glob.glob(os.path.join(LIB, "src", "*.cpp"))):
        b = os.path.basename(p)
        text = open(p, errors="replace").read()
        is_pcl = "pcl" in b or "pcl_conversion.hpp" in text
        is_wasm = "emscripten" in text
        if is_pcl and "pcl" not in kind:
            continue
        if is_wasm and "wasm" not in kind:
            continue
        srcs.append(p)
    for k in kind:
        if k.startswith("file:"):
            srcs.append(os.path.join(REPO, k[5:]))
    return srcs


def compile_obj(src, flags, extra_dirs, cxx):
    h = hashlib.sha256()
    h.update(open(src, "rb").read())
    h.update(src.encode())
    h.update(" ".join(flags).encode())
    h.update(cxx.encode())
    h.update(headers_digest(extra_dirs).encode())
    d = h.hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", d + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([cxx, "-c", src, "-o", tmp] + flags, timeout=800)
    if r.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
    os.replace(tmp, obj)
    return obj


COMMON = ["-std=gnu++20", "-g1", "-DNDEBUG", "-w", "-fno-strict-aliasing", "-pthread"]


def build_variants(spec):
    """Other builds of the library (compiler, instruction set), each as a shared object with an interface in C."""
    out = []
    with cf.ThreadPoolExecutor(NJ) as ex:
        todo = []
        for name, (cxx, flags) in spec["variants"].items():
            fl = ["-std=gnu++20", "-g1", "-w", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-pthread"] + flags + \
                ["-I" + os.path.join(VERIF, "lib", "variant"), "-I" + os.path.join(LIB, "include")]
            srcs = lib_sources([]) + [os.path.join(VERIF, "lib", "variant", "variant.cpp")]
            todo.append((name, cxx, [ex.submit(compile_obj, s, fl, [], cxx) for s in srcs]))
        for name, cxx, jobs in todo:
            objs = [j.result() for j in jobs]
            so = os.path.join(BUILD, "bin", "variant-%s-%s.so" % (name, hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]))
            if not os.path.exists(so):
                os.makedirs(os.path.dirname(so), exist_ok=True)
                tmp = so + ".%d.tmp" % os.getpid()
                r = sh([cxx, "-shared", "-Wl,-Bsymbolic", "-o", tmp] + objs + ["-pthread", "-lzstd", "-llz4"])
                if r.returncode != 0:
                    raise CheckError("linking variant %s failed:\n%s" % (name, r.stdout[-6000:]))
                os.replace(tmp, so)
            out.append("%s=%s" % (name, so))
    ENV["VERIF_VARIANTS"] = ":".join(out)


def build_wasm_so(spec):
    """The entry points for WebAssembly, compiled natively as a shared object."""
    shims = [os.path.join(VERIF, "lib", "shim_emscripten")]
    fl = COMMON + ["-O2", "-fPIC", "-msse4.1", "-I" + shims[0], "-I" + os.path.join(LIB, "include")]
    with cf.ThreadPoolExecutor(NJ) as ex:
        objs = list(ex.map(lambda s: compile_obj(s, fl, shims, "g++"), lib_sources(["wasm"])))
    so = os.path.join(BUILD, "bin", "wasm-%s.so" % hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + ".%d.tmp" % os.getpid()
        r = sh(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs", "-o", tmp] + objs + ["-pthread", "-lzstd", "-llz4"])
        if r.returncode != 0:
            raise CheckError("linking the entry points failed:\n%s" % r.stdout[-6000:])
        os.replace(tmp, so)
    ENV["VERIF_WASM_SO"] = so
    ENV["VERIF_PY_DIR"] = os.path.join(REPO, "cloudini_py")
    ENV["VERIF_PY_SERVER"] = os.path.join(VERIF, "lib", "pywasm", "server.py")


def build_program(prop, name, spec):
    """Compile one harness program; returns the path of the executable."""
    if spec.get("variants"):
        build_variants(spec)
    if spec.get("wasm_so"):
        build_wasm_so(spec)
    cxx = spec.get("cxx", "g++")
    inc = ["-I" + os.path.join(VERIF, "lib")]
    extra_dirs = [os.path.join(VERIF, d) for d in spec.get("shims", [])]
    for d in extra_dirs:
        inc.append("-I" + d)
    inc += ["-I" + os.path.join(LIB, "include")]
    for d in spec.get("repo_includes", []):
        inc.append("-I" + os.path.join(REPO, d))
    arch = spec.get("arch", ["-msse4.1"])
    opt = spec.get("opt", "-O2")
    san = spec.get("san", [])
    pclf = []
    pcll = []
    if "pcl" in spec.get("libs", []):
        pclf = [f for f in pkg_flags("pcl_io", "--cflags") if f.startswith(("-I", "-D", "-isystem"))]
        pcll = ["-lpcl_io", "-lpcl_common", "-lboost_system"]
    base = COMMON + [opt] + arch + inc + pclf
    lib_flags = base + san + spec.get("lib_flags", [])
    own_flags = base + spec.get("own_san", san) + spec.get("own_flags", []) + ["-I" + os.path.join(LIB, "src")] * 0
    jobs = []
    with cf.ThreadPoolExecutor(NJ) as ex:
        for s in lib_sources(spec.get("libs", [])):
            jobs.append(ex.submit(compile_obj, s, lib_flags, extra_dirs, cxx))
        for s in spec["src"]:
            s = s if os.path.isabs(s) else os.path.join(VERIF, s)
            fl = own_flags if s.startswith(VERIF) else lib_flags
            jobs.append(ex.submit(compile_obj, s, fl, extra_dirs, cxx))
        for s in spec.get("plain_src", []):  # compiled without any instrumentation
            jobs.append(ex.submit(compile_obj, os.path.join(VERIF, s), base + spec.get("own_flags", []), extra_dirs, cxx))
        objs = [j.result() for j in jobs]
    h = hashlib.sha256((" ".join(objs) + repr(sorted(spec.items(), key=str))).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (prop, name, h))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [cxx, "-o", tmp] + objs + san + spec.get("ldflags", []) + ["-pthread", "-lzstd", "-llz4"] + pcll + \
            spec.get("ldlibs", [])
        r = sh(cmd)
        if r.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------------- running
ALIVE = set()


@atexit.register
def kill_all():
    for p in list(ALIVE):
        p.kill()


class Proc:
    def __init__(self, exe, args, workdir, tag, limit, case_limit):
        self.out = os.path.join(workdir, tag + ".json")
        self.prog = os.path.join(workdir, tag + ".prog")
        self.err = os.path.join(workdir, tag + ".err")
        for p in (self.out, self.prog):
            if os.path.exists(p):
                os.unlink(p)
        self.cmd = [exe] + args + ["--out", self.out, "--progress", self.prog, "--case-limit", str(case_limit)]
        self.limit = limit
        self.errf = open(self.err, "wb")
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, stdout=self.errf, stderr=self.errf, stdin=subprocess.DEVNULL, env=ENV,
                                  cwd=workdir, start_new_session=True)
        self.timed_out = False
        ALIVE.add(self)

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            ALIVE.discard(self)
        if rc is None and time.time() - self.t0 > self.limit:
            self.timed_out = True
            self.kill()
            rc = self.p.wait()
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
            ALIVE.discard(self)
        except ProcessLookupError:
            pass

    def wait(self):
        while True:
            rc = self.poll()
            if rc is not None:
                self.errf.close()
                return rc
            time.sleep(0.02)

    def progress(self):
        try:
            b = open(self.prog, "rb").read().split(b"\0")[0].decode(errors="replace")
            if not b:
                return None, ""
            i, _, l = b.partition(" ")
            return int(i), l
        except Exception:
            return None, ""

    def printed_failures(self):
        try:
            text = open(self.err, "rb").read().decode(errors="replace")
        except OSError:
            return []
        return [dict(case=int(m.group(1)), label=m.group(2), key=m.group(3), msg=m.group(4))
                for m in re.finditer(r"^VH-FAIL case=(\d+) label=(.*?) key=(.*?): (.*)$", text, re.M)]

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def tail(self, n=3500):
        try:
            b = open(self.err, "rb").read().decode(errors="replace")
        except Exception:
            return ""
        m = re.search(r"==\d+==\s*ERROR.*", b, re.S)
        if m:
            b = m.group(0)
            return b[:n]
        return b[-n:]


def crash_key(label, tail):
    """Stable identification of a crash: kind of error and case label."""
    kind = "crash"
    m = re.search(r"AddressSanitizer:? ([a-zA-Z-]+)", tail)
    if m:
        kind = "asan-" + m.group(1)
    elif "VH-HANG" in tail:
        kind = "hang"
    elif "runtime error:" in tail:
        kind = "ubsan"
    return "%s:%s" % (kind, label)


def run_shards(prop, name, exe, tier, spec, workdir, deadline, capped, known, t0):
    nsh = spec.get("shards", 61)
    par = spec.get("par", NJ)
    base = ["--thorough"] if tier == "thorough" else []
    case_limit = spec.get("case_limit", 40)
    pending = [(i, []) for i in range(nsh)]
    running = []
    results = []
    failures = []
    crashes = 0

    def enough():
        # The verdict is known: do not spend the time limit of the caller on confirming more of the same.
        new = sum(1 for f in failures if not is_known(f, known))
        return tier == "quick" and new and (new >= 20 or crashes >= 3 or time.time() - t0 > 240)

    while pending or running:
        while pending and len(running) < par:
            i, skip = pending.pop(0)
            args = base + ["--shard", str(i), "--nshards", str(nsh)]
            for s in skip:
                args += ["--skip", str(s)]
            lim = max(5, deadline - time.time())
            running.append((i, skip, Proc(exe, args, workdir, "%s-%d-%d" % (name, i, len(skip)), lim, case_limit)))
        still = []
        for (i, skip, pr) in running:
            rc = pr.poll()
            if rc is None:
                still.append((i, skip, pr))
                continue
            pr.errf.close()
            res = pr.result()
            if rc == 0 and res is not None:
                results.append(res)
                for f in res["failures"]:
                    failures.append(dict(f, program=name))
                continue
            idx, label = pr.progress()
            if pr.timed_out:
                # overall budget exhausted: not a verdict; report as a cap
                capped.append("%s shard %d stopped at the time budget in case %s (%s)" % (name, i, idx, label))
                continue
            if idx is None:
                raise CheckError("%s shard %d ended with %s before its first case:\n%s" % (name, i, rc, pr.tail()))
            if enough():
                continue
            # failures that the shard had already established before it ended abnormally
            printed = pr.printed_failures()
            if printed:
                failures += [dict(f, program=name) for f in printed]
                crashes += 1
                continue
            tail = pr.tail()
            # confirm alone, with a longer limit
            args = base + ["--only", str(idx)]
            again = Proc(exe, args, workdir, "%s-only-%d" % (name, idx), 400, max(60, 3 * case_limit))
            rc2 = again.wait()
            res2 = again.result()
            if rc2 == 0 and res2 is not None and not res2["failures"]:
                # Did not reproduce alone: state carried over from earlier cases of the shard, or a slow machine.
                if "VH-HANG" in tail:
                    results.append(res2)
                    capped.append("case %d of %s was slow but finished alone" % (idx, name))
                    if len(skip) < 8:
                        pending.append((i, skip + [idx]))
                    continue
                third = Proc(exe, pr.cmd[1:pr.cmd.index("--out")], workdir, "%s-again-%d" % (name, i),
                             max(60, deadline - time.time()), case_limit)
                rc3 = third.wait()
                if rc3 == 0:
                    raise CheckError("case %d of %s failed once (%s) and did not reproduce:\n%s" % (idx, name, rc, tail))
                failures.append(dict(case=idx, label=label, key=crash_key(label, tail), msg="abnormal end (rc=%s), reproduces "
                                     "only as a part of shard %d/%d:\n%s" % (rc3, i, nsh, third.tail()), program=name,
                                     whole_shard=[i, nsh]))
            elif res2 is not None and rc2 == 0:
                for f in res2["failures"]:
                    failures.append(dict(f, program=name))
            else:
                failures.append(dict(case=idx, label=label, key=crash_key(label, again.tail() or tail),
                                     msg="abnormal end (rc=%s):\n%s" % (rc2, again.tail()), program=name))
            crashes += 1
            if crashes <= 12 and len(skip) < 6:
                pending.append((i, skip + [idx]))
        running = still
        if enough() and (pending or running):
            for (i, skip, pr) in running:
                pr.kill()
                pr.p.wait()
                pr.errf.close()
            capped.append("%s: stopped after confirmed failures" % name)
            break
        if running:
            time.sleep(0.01)
    return results, failures


def load_known(prop):
    """known_findings.txt: 'known: property=<id> key=<regex> :: <text>' and 'fixed: property=<id> <commit> <text>'"""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def is_known(f, known):
    return any(re.fullmatch(key, f["key"]) for key, _ in known)


def run(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    capped = []
    results = {}
    failures = []
    known = load_known(prop)
    try:
        deadline = t0 + budget
        progs = spec["programs"]
        # build everything first
        exes = {}
        order = [n for n in progs if tier in progs[n].get("tiers", ("quick", "thorough"))]
        for name in order:
            exes[name] = build_program(prop, name, progs[name])
        tb = time.time()
        for name in order:
            res, fl = run_shards(prop, name, exes[name], tier, progs[name], workdir, deadline, capped, known, t0)
            results[name] = res
            failures += fl
            if tier == "quick" and any(not is_known(f, known) for f in failures) and time.time() - t0 > 60:
                capped.append("stopped after %s, which has confirmed failures" % name)
                break
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    unlisted = []
    seen_known = {}
    for f in failures:
        for key, text in known:
            if re.fullmatch(key, f["key"]):
                seen_known.setdefault(key, text)
                break
        else:
            unlisted.append(f)

    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    programs = {}
    for name, rs in results.items():
        p = dict(cases=0, executed=0, states=0, transitions=0, validated=0, outcomes={}, extra={})
        for r in rs:
            p["cases"] = max(p["cases"], r["cases_total"])
            p["executed"] += r["executed"]
            p["states"] += r["states"]
            p["transitions"] += r["transitions"]
            p["validated"] += r["validated"]
            for k, v in r["outcomes"].items():
                p["outcomes"][k] = p["outcomes"].get(k, 0) + v
            for k, v in r["extra"].items():
                if k.startswith("max_"):
                    p["extra"][k] = max(p["extra"].get(k, 0), v)
                else:
                    p["extra"][k] = p["extra"].get(k, 0) + v
            if r.get("capped"):
                capped.append("%s: a bound inside the harness was hit" % name)
            for s in r["samples"]:
                if len(cov["samples"]) < 12:
                    cov["samples"].append("%s: %s" % (name, s))
        cov["states"] += p["states"]
        cov["transitions"] += p["transitions"]
        cov["traces_validated_against_impl"] += p["validated"]
        programs[name] = p
    cov["programs_run"] = programs
    cov["bounds"] = spec["bounds"]
    cov["exhaustive"] = not capped
    if capped:
        cov["caps_hit"] = capped
    if not cov["samples"]:
        cov["samples"] = ["(no case executed)"]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evp + ".tmp", evp)

    executed = sum(p["executed"] for p in programs.values())
    print("%s [%s]: %d cases, %d states, %d transitions, %d validated, %d failures, %.1f s (build %.1f s)%s" % (
        prop, tier, executed, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(failures),
        time.time() - t0, tb - t0, " CAPPED: " + "; ".join(capped[:3]) if capped else ""))
    for key, text in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if unlisted:
        for n, f in enumerate(unlisted[:5]):
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%d.txt" % (prop, n))
            with open(rp, "w") as o:
                o.write("property: %s\nprogram: %s\ncase: %d (%s)\nkey: %s\n\n%s\n\nreplay: cd /verif && python3 check.py replay %s %s %d %s\n"
                        % (prop, f["program"], f["case"], f["label"], f["key"], f["msg"], prop, f["program"], f["case"], tier))
            print("  %s" % f["msg"].strip().split("\n")[0][:300])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if executed == 0:
        raise CheckError("no case was executed")
    if capped and tier == "quick" and any("time budget" in c for c in capped):
        # a quick run that cannot finish its bounded space gives no answer on the rest of it; say so, but what was
        # explored held
        print("note: quick tier hit its time budget")
    return 0


def replay(prop, name, case, tier):
    spec = CHECKS[prop]["programs"][name]
    exe = build_program(prop, name, spec)
    args = (["--thorough"] if tier == "thorough" else []) + ["--only", str(case), "--case-limit", "300"]
    return subprocess.call([exe] + args, env=ENV)


def warm():
    ok = True
    for prop in sorted(CHECKS):
        for name, spec in CHECKS[prop]["programs"].items():
            try:
                build_program(prop, name, spec)
            except CheckError as e:
                print("warm: %s/%s: %s" % (prop, name, e))
                ok = False
    return 0 if ok else 2


def main():
    try:
        if sys.argv[1] == "warm":
            return warm()
        if sys.argv[1] == "replay":
            return replay(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else "quick")
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return run(sys.argv[2], tier)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 3


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    sys.exit(main())
