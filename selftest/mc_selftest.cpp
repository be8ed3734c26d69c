// Sanity of the controlled scheduler: toy programs with known bugs (must be found) and known-good ones (must pass), and
// agreement of the reduced exploration with the unreduced one on the set of observable outcomes.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

#include "mcx.hpp"
static std::string want;
static void rep(const char* key, const char* msg, const char* sch) {
  printf("found %s: %s\n", key, msg);
  _exit(want == key ? 0 : 3);
}
template <class F>
static mc::Result ex(mc::Options o, F f) {
  static F* fp;
  fp = &f;
  return mc::explore(o, [](void*) { (*fp)(); }, nullptr, rep, nullptr);
}
int main(int argc, char** argv) {
  int k = atoi(argv[1]);
  mc::Options o;
  o.preemptions = atoi(argv[2]);
  std::set<int> outcomes;
  switch (k) {
    case 0: want = "deadlock"; ex(o, [] { std::mutex a, b; std::thread t([&] { std::lock_guard l(a); std::lock_guard m(b); }); { std::lock_guard m(b); std::lock_guard l(a); } t.join(); }); return 1;
    case 1: want = "race"; ex(o, [] { int x = 0; std::mutex m; std::thread t([&] { { std::lock_guard l(m); } x = 1; }); { std::lock_guard l(m); } x = 2; t.join(); }); return 1;
    case 2: want = "deadlock"; ex(o, [] { std::mutex m; std::condition_variable c; bool r = false; std::thread t([&] { { std::lock_guard l(m); r = true; } c.notify_one(); }); { bool q; { std::lock_guard l(m); q = r; } if (!q) { std::unique_lock l(m); c.wait(l); } } t.join(); }); return 1;
    case 3: {  // outcomes of 3 threads appending their id under a mutex: all 6 orders
      auto r = ex(o, [&] { std::mutex m; int v = 0; auto f = [&](int i) { std::lock_guard l(m); v = v * 10 + i; }; std::thread a(f, 1), b(f, 2), c(f, 3); a.join(); b.join(); c.join(); mc::pause(); outcomes.insert(v); mc::resume(); });
      printf("%zu outcomes, %llu executions, %llu redundant\n", outcomes.size(), (unsigned long long)r.executions, (unsigned long long)r.redundant);
      return outcomes.size() == 6 ? 0 : 1;
    }
    case 4: {  // store buffering on seq_cst atomics: (0,1) (1,0) (1,1)
      auto r = ex(o, [&] { std::atomic<int> x{0}, y{0}; int a = 0, b = 0; std::thread t([&] { x.store(1); a = y.load(); }), u([&] { y.store(1); b = x.load(); }); t.join(); u.join(); mc::pause(); outcomes.insert(a * 2 + b); mc::resume(); });
      printf("%zu outcomes, %llu executions, %llu redundant, %llu restarts\n", outcomes.size(), (unsigned long long)r.executions, (unsigned long long)r.redundant, (unsigned long long)r.restarts);
      return outcomes == std::set<int>{1, 2, 3} ? 0 : 1;
    }
    case 5: want = "race"; ex(o, [] { std::atomic<bool> f{false}; int d = 0; std::thread t([&] { d = 1; f.store(true, std::memory_order_relaxed); }); while (!f.load(std::memory_order_relaxed)) std::this_thread::yield(); d++; t.join(); }); return 1;
    case 6: {  // correct message passing with polling
      auto r = ex(o, [] { std::atomic<bool> f{false}; int d = 0; std::thread t([&] { d = 1; f.store(true, std::memory_order_release); }); while (!f.load(std::memory_order_acquire)) {} d++; t.join(); });
      printf("%llu executions\n", (unsigned long long)r.executions);
      return 0;
    }
    case 7: want = "thread-leak"; ex(o, [] { static std::mutex m; static std::condition_variable c; std::thread t([&] { std::unique_lock l(m); c.wait(l); }); t.detach(); }); return 1;
    case 8: {  // producer/consumer with 2 consumers, notify_one: every consumer order
      auto r = ex(o, [&] { std::mutex m; std::condition_variable c; int q = 0, out = 0; auto f = [&](int i) { std::unique_lock l(m); c.wait(l, [&] { return q > 0; }); q--; out = out * 10 + i; }; std::thread a(f, 1), b(f, 2); for (int i = 0; i < 2; i++) { { std::lock_guard l(m); q++; } c.notify_one(); } a.join(); b.join(); mc::pause(); outcomes.insert(out); mc::resume(); });
      printf("%zu outcomes %llu executions %llu redundant\n", outcomes.size(), (unsigned long long)r.executions, (unsigned long long)r.redundant);
      return outcomes.size() == 2 ? 0 : 1;
    }
    case 9: want = "leak"; o.check_leaks = true; ex(o, [&] { int n = mc::choose(3); if (n == 2) { auto* p = new int(n); asm volatile("" : : "r"(p) : "memory"); } }); return 1;
  }
  return 9;
}
