// Tiny exploration framework shared by all harnesses (one translation unit each).
//
// A harness enumerates a finite space as a numbered list of *cases* (deterministic order, independent of sharding).
// vh::run_case(label, fn) executes case number k iff k is in this process's shard (or is the single --only case).
// A case signals a violation with vh::fail(key, message).  The case number currently executing is published in a
// memory-mapped progress file, so the driver can attribute a crash, a sanitizer abort or a hang to a case and
// re-execute exactly that case on its own before it reports anything.
#pragma once
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef VH_GCOV
extern "C" void __gcov_dump(void);
#endif
namespace vh {

struct Fail {
  std::string key, msg;
};

struct Options {
  bool thorough = false;
  long shard = 0, nshards = 1;
  long only = -1;
  std::set<long> skip;
  std::string out;
  std::string progress;
  double case_limit_s = 30;
};

struct Failure {
  long idx;
  std::string label, key, msg;
};

struct Global {
  Options opt;
  long counter = 0;        // case number of the next case
  long executed = 0;       // cases executed here
  uint64_t transitions = 0;  // operations driven through the real implementation
  uint64_t validated = 0;    // complete behaviours compared with the oracle / reference model
  std::unordered_set<uint64_t> states;  // hashes of distinct observed states
  std::map<std::string, uint64_t> outcomes;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::vector<Failure> failures;
  bool capped = false;
  volatile char* prog = nullptr;
  std::atomic<uint64_t> beat{0};
  std::atomic<bool> active{false};
  uint64_t salt = 0;
};

inline Global& g() {
  static Global* G = new Global();
  return *G;
}

inline bool thorough() { return g().opt.thorough; }

[[noreturn]] inline void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const std::string& key, const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Fail{key, buf};
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ULL;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n--) h = (h ^ *b++) * 0x100000001b3ULL;
  h ^= h >> 32;
  return h;
}

// ---- coverage accounting ------------------------------------------------------------------------------------
inline void transition(uint64_t n = 1) { g().transitions += n; }
inline void state(uint64_t h) {
  // memory guard: beyond 4M distinct states we stop storing (the count is then a lower bound)
  auto& s = g().states;
  if (s.size() < 4000000) s.insert(h ^ g().salt);
}
inline void state_bytes(const void* p, size_t n) { state(hash_bytes(p, n)); }
inline void validated(uint64_t n = 1) { g().validated += n; }
inline void outcome(const std::string& o, uint64_t n = 1) { g().outcomes[o] += n; }
inline void extra(const std::string& o, uint64_t n = 1) { g().extra[o] += n; }
inline void sample(const std::string& s) {
  if (g().samples.size() < 6) g().samples.push_back(s);
}
inline void beat() { g().beat.fetch_add(1, std::memory_order_relaxed); }

// ---- watchdog -----------------------------------------------------------------------------------------------
inline void* watchdog(void*) {
  uint64_t last = ~0ull;
  double waited = 0;
  for (;;) {
    usleep(100000);
    if (!g().active.load()) {
      waited = 0;
      continue;
    }
    uint64_t b = g().beat.load();
    if (b != last) {
      last = b;
      waited = 0;
      continue;
    }
    waited += 0.1;
    if (waited > g().opt.case_limit_s) {
      fprintf(stderr, "VH-HANG: case made no progress for %.0f s\n", waited);
      fflush(stderr);
      _exit(97);
    }
  }
  return nullptr;
}

inline void set_progress(long idx, const std::string& label) {
  auto* p = g().prog;
  if (!p) return;
  snprintf(const_cast<char*>(p), 1024, "%ld %s", idx, label.c_str());
}

inline void add_failure(long idx, const std::string& label, const std::string& key, const std::string& msg) {
  g().failures.push_back({idx, label, key, msg});
  fprintf(stderr, "VH-FAIL case=%ld label=%s key=%s: %s\n", idx, label.c_str(), key.c_str(), msg.c_str());
}

// A case that reports several independent things uses soft_fail for all but the last.
inline long current_case() { return g().counter - 1; }

template <class LabelFn, class Fn>
inline void run_case_l(LabelFn&& labelfn, Fn&& fn) {
  auto& G = g();
  const long idx = G.counter++;
  if (G.opt.only >= 0) {
    if (idx != G.opt.only) return;
  } else {
    if (idx % G.opt.nshards != G.opt.shard) return;
    if (G.opt.skip.count(idx)) return;
    if (G.failures.size() >= 12) return;
  }
  const std::string label = labelfn();
  G.salt = hash_bytes(label.data(), label.size()) * 0x9E3779B97F4A7C15ULL;
  set_progress(idx, label);
  beat();
  G.active = true;
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  try {
    fn();
  } catch (const Fail& f) {
    add_failure(idx, label, f.key, f.msg);
  } catch (const std::exception& e) {
    add_failure(idx, label, "unexpected-exception", std::string("unexpected exception: ") + e.what());
  }
  G.active = false;
  clock_gettime(CLOCK_MONOTONIC, &t1);
  const uint64_t ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
  auto& worst = G.extra["max_case_ms"];
  if (ms > worst) worst = ms;
  if (ms > 3000 && getenv("VH_SLOW")) fprintf(stderr, "VH-SLOW %llu ms %s\n", (unsigned long long)ms, label.c_str());
  G.executed++;
  if ((G.executed == 1 || G.executed == 17 || G.executed == 333)) sample(vh::fmt("case %ld: ", idx) + label);
}
template <class Fn>
inline void run_case(const std::string& label, Fn&& fn) {
  run_case_l([&] { return label; }, fn);
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      o += fmt("\\u%04x", c);
    } else
      o += c;
  }
  return o + "\"";
}

inline void write_out() {
  auto& G = g();
  if (G.opt.out.empty()) return;
  FILE* f = fopen(G.opt.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"cases_total\":%ld,\"executed\":%ld,\"states\":%zu,\"transitions\":%llu,\"validated\":%llu,\"capped\":%s,\n",
          G.counter, G.executed, G.states.size(), (unsigned long long)G.transitions, (unsigned long long)G.validated,
          G.capped ? "true" : "false");
  auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
    fprintf(f, "\"%s\":{", n);
    bool first = true;
    for (auto& kv : m) {
      fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second);
      first = false;
    }
    fprintf(f, "},\n");
  };
  dump("outcomes", G.outcomes);
  dump("extra", G.extra);
  fprintf(f, "\"samples\":[");
  for (size_t i = 0; i < G.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(G.samples[i]).c_str());
  fprintf(f, "],\n\"failures\":[");
  for (size_t i = 0; i < G.failures.size(); i++) {
    auto& x = G.failures[i];
    fprintf(f, "%s{\"case\":%ld,\"label\":%s,\"key\":%s,\"msg\":%s}", i ? "," : "", x.idx, jstr(x.label).c_str(),
            jstr(x.key).c_str(), jstr(x.msg).c_str());
  }
  fprintf(f, "]}\n");
  fclose(f);
}

inline void init(int argc, char** argv, bool with_watchdog = true) {
  auto& o = g().opt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough") o.thorough = true;
    else if (a == "--shard") o.shard = atol(next().c_str());
    else if (a == "--nshards") o.nshards = atol(next().c_str());
    else if (a == "--only") o.only = atol(next().c_str());
    else if (a == "--skip") o.skip.insert(atol(next().c_str()));
    else if (a == "--out") o.out = next();
    else if (a == "--progress") o.progress = next();
    else if (a == "--case-limit") o.case_limit_s = atof(next().c_str());
    else { fprintf(stderr, "vh: unknown option %s\n", a.c_str()); exit(2); }
  }
  if (!o.progress.empty()) {
    int fd = open(o.progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) g().prog = static_cast<volatile char*>(m);
    }
    if (fd >= 0) close(fd);
  }
  if (with_watchdog) {
    pthread_t t;
    pthread_create(&t, nullptr, watchdog, nullptr);
    pthread_detach(t);
  }
}

inline int finish() {
  g().active = false;
  write_out();
  fflush(stdout);
  fflush(stderr);
#ifdef VH_GCOV  // see tools/coverage.py
  __gcov_dump();
#endif
  _exit(0);
}

// ---- small helpers ------------------------------------------------------------------------------------------
inline std::string hex(const void* p, size_t n, size_t maxn = 48) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  std::string s;
  for (size_t i = 0; i < n && i < maxn; i++) s += fmt("%02x", b[i]);
  if (n > maxn) s += fmt("..(%zu bytes)", n);
  return s;
}

// odometer over a mixed-radix space; calls fn(const std::vector<int>&)
template <class Fn>
inline void odometer(const std::vector<int>& radix, Fn&& fn) {
  for (int r : radix)
    if (r <= 0) return;
  std::vector<int> d(radix.size(), 0);
  for (;;) {
    fn(d);
    size_t k = radix.size();
    while (k > 0) {
      --k;
      if (++d[k] < radix[k]) break;
      d[k] = 0;
      if (k == 0) return;
    }
    if (radix.empty()) return;
  }
}

}  // namespace vh
