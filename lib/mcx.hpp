// Glue between the controlled scheduler (mc.hpp) and the exploration framework (vh.hpp)
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include "mc.hpp"
#include "vh.hpp"

namespace mcx {
inline long g_case;
inline std::string g_label;

inline void report(const char* key, const char* msg, const char* schedule) {
  vh::add_failure(vh::current_case(), g_label, key, std::string(msg) + "\n  schedule: " + schedule);
  vh::finish();
}

struct Violation {};

// Runs body under every schedule.  The body reports a violation by vh::fail (throws vh::Fail).
inline mc::Result explore_once(const std::string& label, const mc::Options& o, const std::function<void()>& body) {
  g_label = label;
  struct Ctx {
    const std::function<void()>* fn;
  } ctx{&body};
  auto tramp = [](void* p) {
    Ctx* c = static_cast<Ctx*>(p);
    mc::pause();
    vh::beat();
    mc::resume();
    try {
      (*c->fn)();
    } catch (const vh::Fail& f) {
      mc::pause();
      report(f.key.c_str(), f.msg.c_str(), mc::schedule());
    } catch (const std::exception& e) {
      mc::pause();
      report("unexpected-exception", e.what(), mc::schedule());
    }
  };
  mc::Result r = mc::explore(o, tramp, &ctx, report, [](uint64_t h) { vh::state(h); });
  if (getenv("MCX_VERBOSE")) fprintf(stderr, "MCX %s: %llu executions, %llu redundant, depth %llu\n", label.c_str(), (unsigned long long)r.executions, (unsigned long long)r.redundant, (unsigned long long)r.max_depth);
  vh::transition(r.transitions);
  vh::validated(r.executions);
  vh::extra("executions", r.executions);
  vh::extra("redundant_executions", r.redundant);
  vh::extra("plain_accesses_checked", r.accesses);
  vh::extra("executions_with_faults", r.faulted);
  if (r.diverged) vh::extra("diverged_scenarios");
  auto& mx = vh::g().extra["max_choice_depth"];
  if (r.max_depth > mx) mx = r.max_depth;
  auto& mt = vh::g().extra["max_threads"];
  if (r.max_threads > mt) mt = r.max_threads;
  if (r.capped) vh::g().capped = true;
  return r;
}

// As above; but when the tree needs so many synchronisation operations that the enumeration within the requested bound exceeds the
// processor time of this process, the scenario is explored within the largest smaller preemption bound that can be completed (and the evidence says so).
inline mc::Result explore(const std::string& label, mc::Options o, const std::function<void()>& body) {
  // processor time (microseconds) used by all processes of the check, and the bounds that were exceeded before
  struct Shared {
    uint64_t used;
    int exceeded[4];
  };
  static Shared* shared = [] {
    static Shared own;
    if (vh::g().opt.only >= 0) return &own;
    const int fd = open("mc-budget", O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return &own;
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return p == MAP_FAILED ? &own : static_cast<Shared*>(p);
  }();
  const double total = vh::thorough() ? 100000 : 1500;
  std::vector<int> bounds{o.preemptions};
  for (int b : {2, 1, 0})
    if (o.preemptions < 0 || b < o.preemptions) bounds.push_back(b);
  mc::Result r;
  for (int b : bounds) {
    int& ex = shared->exceeded[b < 0 || b > 2 ? 3 : b];
    const double left = std::max(0.0, total - __atomic_load_n(&shared->used, __ATOMIC_RELAXED) * 1e-6);
    o.preemptions = b;
    o.cpu_seconds = std::max(left * (__atomic_load_n(&ex, __ATOMIC_RELAXED) ? 0.003 : 0.06), b == 0 ? 0.5 : 0.05);
    timespec t0, t1;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
    r = explore_once(label, o, body);
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
    __atomic_add_fetch(&shared->used, (t1.tv_sec - t0.tv_sec) * 1000000ll + (t1.tv_nsec - t0.tv_nsec) / 1000, __ATOMIC_RELAXED);
    if (!r.out_of_time) {
      if (b != bounds[0]) vh::extra(vh::fmt("scenarios_reduced_to_preemption_bound_%d", b));
      return r;
    }
    __atomic_store_n(&ex, 1, __ATOMIC_RELAXED);
  }
  vh::extra("scenarios_cut_by_time");
  vh::g().capped = true;
  return r;
}
}  // namespace mcx
