"""Helpers to create and evaluate the planted bugs of /verif/seeded (not used by any check)."""
import json, os, re, shutil, subprocess, sys, tempfile
REPO = "/repo"
SEEDED = "/verif/seeded"

DEMO_SH = r'''#!/bin/bash
# Compiles and runs demo.cpp against the sources of the repository (cwd). Exit 0: behaves as specified.
here=$(cd "$(dirname "$0")" && pwd)
lib=$PWD/cloudini_lib
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
srcs=$(ls "$lib"/src/*.cpp | grep -v -e wasm -e pcl)
@EXTRA@
g++ -std=gnu++20 -O1 -g -DNDEBUG -msse4.1 @FLAGS@ -I"$here" -I"$lib/include" -I"$lib/src" \
  "$here/demo.cpp" $srcs -o "$tmp/demo" -pthread -llz4 -lzstd @LIBS@ || exit 2
cd "$tmp" || exit 3
timeout @TIMEOUT@ @RUN@"$tmp/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
'''

D_HPP = r'''#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "cloudini_lib/cloudini.hpp"
using namespace Cloudini;
#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      std::printf("FAILED line %d: %s\n", __LINE__, #c);           \
      std::exit(1);                                                \
    }                                                              \
  } while (0)
typedef std::vector<uint8_t> Bytes;
template <class T> void put(Bytes& b, size_t at, T v) { std::memcpy(b.data() + at, &v, sizeof(T)); }
template <class T> T get(const Bytes& b, size_t at) { T v; std::memcpy(&v, b.data() + at, sizeof(T)); return v; }
inline uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
inline EncodingInfo mk(std::vector<PointField> f, uint32_t step, uint32_t n, EncodingOptions e = EncodingOptions::LOSSY,
                       CompressionOption c = CompressionOption::ZSTD) {
  EncodingInfo i;
  i.fields = f; i.point_step = step; i.width = n; i.height = 1; i.encoding_opt = e; i.compression_opt = c;
  return i;
}
inline Bytes enc(const EncodingInfo& i, const Bytes& data) {
  PointcloudEncoder e(i);
  Bytes out;
  e.encode(ConstBufferView(data.data(), data.size()), out);
  return out;
}
inline Bytes dec(const Bytes& s, uint8_t fill = 0) {
  ConstBufferView v(s.data(), s.size());
  EncodingInfo i = DecodeHeader(v);
  Bytes out(size_t(i.width) * i.height * i.point_step, fill);
  PointcloudDecoder d;
  d.decode(i, v, BufferView(out.data(), out.size()));
  return out;
}
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def mine(path):
    """line numbers (1-based) of `path` not from the base commit"""
    out = sh(["git", "-C", REPO, "blame", "-s", "--abbrev=8", path]).stdout
    return {i + 1 for i, l in enumerate(out.splitlines()) if not l.startswith("^")}

def make(id_, prop, edits, needs, breaks, demo, flags="", libs="", extra="", run="", timeout=120, files=None):
    d = f"{SEEDED}/{id_}"
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seed")
    sh(f"git -C {REPO} archive HEAD | tar -x -C {wt}")
    sh("git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x", cwd=wt)
    for f, old, new in edits:
        p = f"{wt}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{id_}: {s.count(old)} matches of {old!r} in {f}")
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=wt).stdout
    # changed lines
    orig = 0
    for f in {e[0] for e in edits}:
        m = mine(f)
        ln = 0
        fd = sh(["git", "diff", "-U0", "--", f], cwd=wt).stdout
        for l in fd.splitlines():
            h = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if h:
                ln = int(h.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                if ln in m:
                    print(f"  warning {id_}: changes a line of a fix: {l}")
                else:
                    orig += 1
                ln += 1
    if not orig:
        print(f"  warning {id_}: no original line changed")
    open(f"{d}/patch.diff", "w").write(diff)
    s = DEMO_SH
    for k, v in (("@EXTRA@", extra), ("@FLAGS@", flags), ("@LIBS@", libs), ("@RUN@", run), ("@TIMEOUT@", str(timeout))):
        s = s.replace(k, v)
    open(f"{d}/demo.sh", "w").write(s)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/d.hpp", "w").write(D_HPP)
    open(f"{d}/demo.cpp", "w").write('#include "d.hpp"\n' + demo.lstrip("\n"))
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(wt)
    print("made", id_)
