// Fault enumeration: every allocation of an operation fails in turn (alone, or with all that follow it).
// Include in exactly one translation unit: it replaces the global operator new.
#pragma once
#include <memory>
#include <new>
#include <thread>

#include "gen.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace oom {
inline bool g_armed = false;
inline long g_count = 0;         // allocations since arm()
inline long g_first = -1;        // the allocation that fails (-1: none)
inline long g_last = -1;         // and all up to this one
inline long g_second = -1;       // another one
inline long g_injected = 0;
inline thread_local int t_main = 0;  // only the thread that runs the operation
inline void* take(size_t n) {
  if (g_armed && t_main) {
    const long k = g_count++;
    if ((g_first >= 0 && k >= g_first && k <= g_last) || (g_second >= 0 && k == g_second)) {
      g_injected++;
      throw std::bad_alloc();
    }
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
inline void* take_aligned(size_t n, size_t a) {
  if (g_armed && t_main) {
    const long k = g_count++;
    if ((g_first >= 0 && k >= g_first && k <= g_last) || (g_second >= 0 && k == g_second)) {
      g_injected++;
      throw std::bad_alloc();
    }
  }
  void* p = aligned_alloc(a, (n + a - 1) / a * a);
  if (!p) throw std::bad_alloc();
  return p;
}
// what is called while one of these lives may run out of memory
struct Armed {
  Armed() { g_armed = true; }
  ~Armed() { g_armed = false; }
};
struct Paused {
  bool was = g_armed;
  Paused() { g_armed = false; }
  ~Paused() { g_armed = was; }
};
// An instance of an operation: objects that live through several calls.
struct Op {
  virtual ~Op() = default;
  // calls the code under test (with Armed) for input `which`; true: it reported success, and the results were compared;
  // false or an exception: it reported failure
  virtual bool call(int which) = 0;
  // after a failed call: arguments are intact, objects can be read
  virtual void intact() {}
};
using Make = std::function<std::unique_ptr<Op>()>;
inline bool attempt(Op& o, int which, const char* when, bool may_fail) {
  const long before = g_injected;
  bool ok = false;
  std::string what = "it reported an error";
  vh::transition();
  try {
    ok = o.call(which);
  } catch (const vh::Fail&) {
    g_armed = false;
    throw;
  } catch (const std::exception& e) {
    what = e.what();
  } catch (...) {
    g_armed = false;
    vh::fail("exception", "%s: something else than a std::exception was thrown", when);
  }
  g_armed = false;
  if (!ok && g_injected == before) vh::fail("refused", "%s: the call fails although there is memory: %s", when, what.c_str());
  if (!ok && !may_fail) vh::fail("refused", "%s: %s", when, what.c_str());
  return ok;
}
// modes: 1 alone, 2 the following ones too, 3 the next one too, 4 another one later
inline void fault_run(const Make& make, int warm, long k, int mode, long second) {
  auto once = [&] {
    auto o = make();
    g_first = -1, g_second = -1;
    if (warm) attempt(*o, 1, "first call", false);
    g_count = 0, g_first = k, g_last = mode == 2 ? (1L << 60) : mode == 3 ? k + 1 : k, g_second = second;
    const bool ok = attempt(*o, 0, "call without memory", true);
    g_first = -1, g_second = -1;
    vh::outcome(ok ? "completed without the memory" : "failed");
    if (!ok) o->intact();
    attempt(*o, 1, "call after a failed one", false);
    attempt(*o, 0, "repeated call", false);
    vh::validated();
  };
  // caches of a thread begin empty
  auto fresh = [&] {
    std::exception_ptr e;
    std::thread th([&] {
      t_main = 1;
      try {
        once();
      } catch (...) {
        e = std::current_exception();
      }
    });
    th.join();
    g_armed = false;
    if (e) std::rethrow_exception(e);
  };
  // memory: caches may fill once, but nothing grows with every failure
  size_t last = 0;
  for (int i = 0; i < 5; i++) {
    const size_t a = __sanitizer_get_current_allocated_bytes();
    fresh();
    const size_t b = __sanitizer_get_current_allocated_bytes();
    if (b <= a) return;
    last = b - a;
  }
  vh::fail("leak", "every failure leaves memory behind (%zu bytes)", last);
}
inline void explore(const std::string& name, const Make& make, bool pairs = false) {
  for (int warm = 0; warm < 2; warm++) {
    long n = 0;
    std::exception_ptr e;
    std::thread th([&] {
      t_main = 1;
      try {
        auto o = make();
        if (warm) attempt(*o, 1, "first call", false);
        g_first = -1, g_second = -1, g_count = 0;
        attempt(*o, 0, "call", false);
        n = g_count;
      } catch (...) {
        e = std::current_exception();
      }
    });
    th.join();
    if (e) std::rethrow_exception(e);
    vh::extra("allocations that fail", n);
    for (long k = 0; k < n; k++) {
      for (int mode = 1; mode <= 3; mode++) {
        vh::beat();
        vh::state(vh::hash_bytes(name.data(), name.size(), uint64_t(k * 8 + mode * 2 + warm) * 0x9E3779B97F4A7C15ull));
        fault_run(make, warm, k, mode, -1);
      }
      if (pairs)
        for (long s = k + 1; s < n; s++) {
          vh::beat();
          vh::state(vh::hash_bytes(name.data(), name.size(), uint64_t((s * 4096 + k) * 8 + 7) * 0x9E3779B97F4A7C15ull));
          fault_run(make, warm, k, 4, s);
        }
    }
  }
}
}  // namespace oom
void* operator new(size_t n) { return oom::take(n); }
void* operator new[](size_t n) { return oom::take(n); }
void* operator new(size_t n, std::align_val_t a) { return oom::take_aligned(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return oom::take_aligned(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try {
    return oom::take(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  try {
    return oom::take(n);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
