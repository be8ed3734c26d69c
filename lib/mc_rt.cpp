// See mc.hpp.  Compiled without instrumentation; provides the __tsan_* entry points, the pthread functions, operator
// new/delete and the wrappers (ld --wrap) of memcpy & co and of the compressors.
#include "mc.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <new>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOINSTR __attribute__((no_sanitize("thread")))

namespace {

constexpr int kMaxT = 12;
typedef uint32_t Clk;

// ---- minimal containers (no std templates: their instantiations could be shared with instrumented code) ---------
template <class T>
struct Arr {
  T* d = nullptr;
  size_t n = 0, cap = 0;
  T& operator[](size_t i) { return d[i]; }
  void push(const T& v) {
    if (n == cap) {
      size_t c = cap ? cap * 2 : 64;
      T* e = (T*)malloc(c * sizeof(T));
      for (size_t i = 0; i < n; i++) e[i] = d[i];
      free(d);
      d = e;
      cap = c;
    }
    d[n++] = v;
  }
  T& back() { return d[n - 1]; }
  void clear() { n = 0; }
};

struct VC {
  Clk c[kMaxT];
  void zero() {
    for (int i = 0; i < kMaxT; i++) c[i] = 0;
  }
  void join(const VC& o) {
    for (int i = 0; i < kMaxT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum Kind : uint8_t { K_NONE, K_START, K_CREATE, K_JOIN, K_EXIT, K_JOINALL, K_LOCK, K_UNLOCK, K_WAIT, K_REACQ, K_SIGNAL, K_BCAST,
  K_ALOAD, K_ASTORE, K_RDLOCK, K_SEMWAIT, K_SEMPOST, K_YIELD, K_FWAIT, K_FWAKE, K_FREACQ, K_GUARD };
const char* kname[] = {"none", "start", "create", "join", "exit", "join-all", "lock", "unlock", "cond-wait", "cond-resume", "signal",
  "broadcast", "atomic-load", "atomic-rmw", "rdlock", "sem-wait", "sem-post", "yield", "futex-wait", "futex-wake", "futex-resume", "guard"};

struct Obj {  // mutex, condition variable, rwlock, semaphore, atomic cell
  const void* addr;
  int owner;      // mutex / rwlock writer: tid or -1
  int depth;
  int readers;
  long count;     // semaphore
  int first;      // first thread that accessed it (atomics)
  uint64_t key;   // identity across executions (atomics)
  VC vc;
};
struct Block {
  uint64_t a, n, id;
};

struct Thr {
  int tid = -1;
  int go = 0;            // futex
  bool alive = false, finished = false, detached = false;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  VC vc;
  // pending operation
  Kind kind = K_NONE;
  int o1 = -1, o2 = -1;   // objects
  int target = -1;        // thread
  bool timed = false;
  bool can_fail = false;  // trylock
  // condition variable state
  int waiting = -1;       // cond object while waiting
  bool signaled = false;
  int variant = 0;        // variant chosen by the scheduler
  bool yielded = false;
  uint64_t steps = 0;
  uint64_t same_loads = 0;
  uint64_t allocs = 0;
  const void* last_load = nullptr;
};

struct Tr {
  int8_t tid, var;
  Kind kind;
  int o1, o2, target;
};

struct Node {
  bool data;
  int n, chosen;     // data: number of values; threads: number of transitions
  Tr tr[24];
  uint32_t asleep;   // bitmask over tr
  uint32_t todo;     // bitmask over tr: transitions that have to be explored (dynamic partial-order reduction)
  int preempt;       // preemptions used before this node
  int cur;           // thread that was running
  int spurious;      // spurious wake-ups used before this node
};

mc::Options opt;
mc::Report reporter;
void (*state_cb)(uint64_t);
bool active = false;
Thr thr[kMaxT];
int nthr = 0;
int current = 0;
Arr<Obj> objs;
Arr<Node> path;
size_t depth;      // position in path during the current execution
bool freerun;      // sleep-set blocked: finish without recording
int preempt_used, spurious_used, faults_used;
bool armed;
long steps;
long live_blocks;
Arr<Block> blocks;          // heap blocks allocated during this execution
Arr<uint64_t> shared_keys;  // atomics known to be used by several threads
bool restart;               // that set has grown: the exploration has to start again
bool diverged;
mc::Result res;
Arr<Tr> trace;
Tr sleepset[24];
int nsleep;
// executed transitions with their happens-before clocks (DPOR)
struct Done {
  Tr t;
  int node;   // index in path, or -1 if there was no alternative
  Clk n;      // sequence number within its thread
  VC vc;
};
Arr<Done> hist;
VC tclock[kMaxT];

thread_local Thr* self = nullptr;
thread_local int in_rt = 0;

struct Guard {
  Guard() { in_rt++; }
  ~Guard() { in_rt--; }
};
inline bool controlled() { return active && self && !in_rt; }

// ---- raw futex ------------------------------------------------------------------------------------------------
long raw_futex(int* a, int op, int v) {
  long r;
  register long r10 __asm__("r10") = 0;
  register long r8 __asm__("r8") = 0;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
void wake(Thr* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
void wait_go(Thr* t) {
  for (int i = 0; i < 200; i++) {
    if (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) break;
    __asm__ volatile("pause");
  }
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

// ---- reporting -------------------------------------------------------------------------------------------------
char schedbuf[16384];
const char* make_schedule() {
  size_t k = 0;
  size_t from = trace.n > 220 ? trace.n - 220 : 0;
  schedbuf[0] = 0;
  if (from) k += snprintf(schedbuf + k, sizeof schedbuf - k, "... ");
  for (size_t i = from; i < trace.n && k + 40 < sizeof schedbuf; i++) {
    Tr& t = trace[i];
    if (t.tid < 0)
      k += snprintf(schedbuf + k, sizeof schedbuf - k, "{choice %d} ", t.var);
    else
      k += snprintf(schedbuf + k, sizeof schedbuf - k, "T%d:%s", t.tid, kname[t.kind]),
          k += t.o1 >= 0 ? snprintf(schedbuf + k, sizeof schedbuf - k, "(%d) ", t.o1) : snprintf(schedbuf + k, sizeof schedbuf - k, " ");
  }
  return schedbuf;
}
[[noreturn]] void report(const char* key, const char* f, ...) {
  in_rt++;
  static char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  active = false;
  reporter(key, buf, make_schedule());
  _exit(2);
}

// ---- objects ---------------------------------------------------------------------------------------------------
int obj(const void* a) {
  for (size_t i = objs.n; i-- > 0;)
    if (objs[i].addr == a) return (int)i;
  Obj o;
  memset(&o, 0, sizeof o);
  o.addr = a;
  o.owner = -1;
  o.first = -1;
  objs.push(o);
  return (int)objs.n - 1;
}

// Identity of an address which does not depend on where the allocator placed the block
uint64_t key_of(const void* p) {
  uint64_t a = (uint64_t)p;
  for (size_t i = blocks.n; i-- > 0;)
    if (a >= blocks[i].a && a < blocks[i].a + blocks[i].n) return (blocks[i].id << 20) + (a - blocks[i].a) + (1ull << 63);
  return a;
}
// Is the operation on this atomic a scheduling point?  Not as long as a single thread uses it.
bool is_shared(int o) {
  Obj& x = objs[o];
  if (x.first < 0) {
    x.first = self->tid;
    x.key = key_of(x.addr);
  }
  for (size_t i = 0; i < shared_keys.n; i++)
    if (shared_keys[i] == x.key) return true;
  if (x.first == self->tid) return false;
  shared_keys.push(x.key);
  restart = true;
  freerun = true;
  return true;
}
void drop_objects(const void* p, size_t n) {
  for (size_t i = 0; i < objs.n; i++)
    if (objs[i].addr >= p && objs[i].addr < (const char*)p + n) objs[i].addr = nullptr;
}

// ---- enabledness -------------------------------------------------------------------------------------------------
bool mutex_free(int o) { return objs[o].owner < 0 && objs[o].readers == 0; }

// number of variants of the pending operation of t that can be taken now (0: blocked)
int variants(Thr& t) {
  switch (t.kind) {
    case K_LOCK: return t.can_fail || mutex_free(t.o1) || (objs[t.o1].owner == t.tid && objs[t.o1].depth > 0) ? 1 : 0;
    case K_RDLOCK: return t.can_fail || objs[t.o1].owner < 0 ? 1 : 0;
    case K_GUARD: return objs[t.o1].owner < 0 ? 1 : 0;
    case K_REACQ:
      if (!mutex_free(t.o2)) return 0;
      return t.signaled ? 1 : 0;
    case K_FREACQ: return t.signaled ? 1 : 0;
    case K_JOIN: return thr[t.target].finished ? 1 : 0;
    case K_JOINALL:
      for (int i = 0; i < nthr; i++)
        if (i != t.tid && !thr[i].finished) return 0;
      return 1;
    case K_SEMWAIT: return objs[t.o1].count > 0 ? 1 : 0;
    case K_SIGNAL: {
      int w = 0;
      for (int i = 0; i < nthr; i++)
        if (!thr[i].finished && thr[i].waiting == t.o1 && !thr[i].signaled) w++;
      return w > 1 ? w : 1;
    }
    default: return 1;
  }
}
bool can_spurious(Thr& t) {
  if (t.kind == K_REACQ && !t.signaled) return mutex_free(t.o2) && (spurious_used < opt.spurious || t.timed);
  if (t.kind == K_FREACQ && !t.signaled) return spurious_used < opt.spurious || t.timed;
  return false;
}

bool depends(const Tr& a, const Tr& b) {
  if (a.tid == b.tid) return true;
  auto touches = [](const Tr& t, int o) { return o >= 0 && (t.o1 == o || t.o2 == o); };
  if (a.kind == K_ALOAD && b.kind == K_ALOAD) return false;
  if (touches(a, b.o1) || touches(a, b.o2)) return true;
  if (a.target >= 0 && (a.target == b.tid || a.target == b.target)) return true;
  if (b.target >= 0 && b.target == a.tid) return true;
  if (a.kind == K_JOINALL || b.kind == K_JOINALL) return a.kind == K_EXIT || b.kind == K_EXIT;
  return false;
}

uint64_t mix(uint64_t h, uint64_t v) {
  h = (h ^ v) * 0x9E3779B97F4A7C15ULL;
  return h ^ (h >> 29);
}

uint64_t state_hash() {
  uint64_t h = 0x1234567;
  for (int i = 0; i < nthr; i++) {
    Thr& t = thr[i];
    h = mix(h, t.steps * 64 + t.kind);
    h = mix(h, (uint64_t)(t.o1 + 2) * 131 + (t.finished ? 1 : 0) + (t.signaled ? 2 : 0) + (uint64_t)(t.waiting + 2) * 4099);
  }
  for (size_t i = 0; i < objs.n; i++) h = mix(h, (uint64_t)(objs[i].owner + 2) * 977 + (uint64_t)objs[i].readers * 31 + (uint64_t)objs[i].count);
  return mix(h, (uint64_t)faults_used);
}

// Build the list of transitions enabled now.
int list_transitions(Tr* out) {
  int n = 0;
  bool any_nonyield = false;
  for (int pass = 0; pass < 2; pass++) {
    for (int k = 0; k < nthr; k++) {
      // the running thread first: the default schedule has no preemptions
      int i = k == 0 ? current : (k <= current ? k - 1 : k);
      Thr& t = thr[i];
      if (t.finished || !t.alive) continue;
      if (pass == 0 && t.kind == K_YIELD) continue;
      if (pass == 1 && t.kind != K_YIELD) continue;
      if (pass == 1 && any_nonyield) continue;  // fairness: a yielding thread lets the others go first
      int v = variants(t);
      for (int j = 0; j < v && n < 23; j++) out[n++] = Tr{(int8_t)i, (int8_t)j, t.kind, t.o1, t.o2, t.target}, any_nonyield = true;
      if (can_spurious(t) && n < 23) out[n++] = Tr{(int8_t)i, 100, t.kind, t.waiting, t.o2, t.target}, any_nonyield = true;
    }
  }
  return n;
}

[[noreturn]] void deadlock() {
  char b[1024];
  size_t k = 0;
  for (int i = 0; i < nthr; i++)
    if (!thr[i].finished) k += snprintf(b + k, sizeof b - k, "T%d blocked in %s(%d); ", i, kname[thr[i].kind], thr[i].o1);
  if (thr[0].kind == K_JOINALL) report("thread-leak", "a thread is still blocked after the objects were destroyed: %s", b);
  report("deadlock", "deadlock: %s", b);
}

void add_todo(Node& nd, int tid) {
  for (int i = 0; i < nd.n; i++)
    if (nd.tr[i].tid == tid) nd.todo |= 1u << i;
}
// Flanagan/Godefroid: for the pending operation of every thread, find the last executed transition that races with it,
// and make sure that the other order is explored as well.
void dpor_update() {
  for (int p = 0; p < nthr; p++) {
    Thr& t = thr[p];
    if (t.finished || !t.alive) continue;
    Tr np{(int8_t)p, 0, t.kind, t.o1, t.o2, t.target};
    for (size_t j = hist.n; j-- > 0;) {
      Done& d = hist[j];
      if (d.t.tid == p || tclock[p].c[(int)d.t.tid] >= d.n || !depends(d.t, np)) continue;
      if (d.node >= 0) {
        Node& nd = path[d.node];
        bool found = false;
        for (int i = 0; i < nd.n && !found; i++) found = nd.tr[i].tid == p;
        if (found) add_todo(nd, p);
        else {
          int q = -1;
          for (size_t k = j + 1; k < hist.n && q < 0; k++) {
            int z = hist[k].t.tid;
            if (tclock[p].c[z] < hist[k].n) continue;
            for (int i = 0; i < nd.n; i++)
              if (nd.tr[i].tid == z) q = z;
          }
          if (q >= 0) add_todo(nd, q);
          else nd.todo = ~0u;
        }
      }
      break;
    }
  }
}
void dpor_executed(const Tr& t, int node) {
  Done d;
  d.t = t;
  d.node = node;
  d.vc = tclock[(int)t.tid];
  for (size_t j = 0; j < hist.n; j++)
    if (depends(hist[j].t, t)) d.vc.join(hist[j].vc);
  d.n = ++d.vc.c[(int)t.tid];
  tclock[(int)t.tid] = d.vc;
  hist.push(d);
}

// Choose the next transition; called with everything quiescent (all threads have a pending op).
Tr pick() {
  if (++steps > opt.max_steps) report("livelock", "no progress after %ld synchronisation steps", steps);
  Tr list[24];
  int n = list_transitions(list);
  if (n == 0) deadlock();
  res.transitions++;
  Tr t;
  int node = -1;
  const bool reduce = opt.preemptions < 0;
  if (reduce && !freerun) dpor_update();
  if (freerun) {
    t = list[0];
    for (int i = 0; i < n; i++)
      if (list[i].var != 100) { t = list[i]; break; }
  } else if (n == 1 && nsleep == 0) {
    t = list[0];
  } else {
    if (depth < path.n) {
      Node& nd = path[depth];
      if (nd.data || nd.n != n) {
        diverged = true;
      } else
        for (int i = 0; i < n; i++)
          if (nd.tr[i].tid != list[i].tid || nd.tr[i].kind != list[i].kind || nd.tr[i].var != list[i].var) diverged = true;
      if (diverged) {
        freerun = true;
        t = list[0];
        goto chosen;
      }
      t = list[nd.chosen];
      // sleep set of the child
      if (opt.preemptions < 0) {
        int m = 0;
        Tr ns[24];
        for (int i = 0; i < n; i++)
          if (((nd.asleep >> i) & 1) && i != nd.chosen && !depends(list[i], t)) ns[m++] = list[i];
        nsleep = m;
        for (int i = 0; i < m; i++) sleepset[i] = ns[i];
      }
      node = (int)depth;
      preempt_used = nd.preempt + ((t.tid != nd.cur && list[0].tid == nd.cur && list[0].kind != K_YIELD) ? 1 : 0);
      depth++;
    } else {
      Node nd;
      memset(&nd, 0, sizeof nd);
      nd.data = false;
      nd.n = n;
      nd.preempt = preempt_used;
      nd.spurious = spurious_used;
      nd.cur = current;
      for (int i = 0; i < n; i++) nd.tr[i] = list[i];
      if (opt.preemptions < 0) {
        for (int i = 0; i < n; i++)
          for (int j = 0; j < nsleep; j++)
            if (sleepset[j].tid == list[i].tid && sleepset[j].var == list[i].var) nd.asleep |= 1u << i;
      } else if (preempt_used >= opt.preemptions && list[0].tid == current && list[0].kind != K_YIELD) {
        // no more preemptions: only the transitions of the running thread
        for (int i = 0; i < n; i++)
          if (list[i].tid != current) nd.asleep |= 1u << i;
      }
      int c = -1;
      for (int i = 0; i < n; i++)
        if (!((nd.asleep >> i) & 1)) { c = i; break; }
      if (c < 0) {
        freerun = true;
        res.redundant++;
        t = list[0];
        for (int i = 0; i < n; i++)
          if (list[i].var != 100) { t = list[i]; break; }
      } else {
        nd.chosen = c;
        if (reduce) add_todo(nd, list[c].tid);
        else nd.todo = ~0u;
        t = list[c];
        node = (int)depth;
        if (opt.preemptions < 0) {
          int m = 0;
          Tr ns[24];
          for (int i = 0; i < n; i++)
            if (((nd.asleep >> i) & 1) && !depends(list[i], t)) ns[m++] = list[i];
          nsleep = m;
          for (int i = 0; i < m; i++) sleepset[i] = ns[i];
        }
        preempt_used += (t.tid != current && list[0].tid == current && list[0].kind != K_YIELD) ? 1 : 0;
        path.push(nd);
        depth++;
      }
    }
  }
chosen:
  if (reduce && !freerun) dpor_executed(t, node);
  if (t.var == 100 && !thr[(int)t.tid].timed) spurious_used++;
  trace.push(t);
  if (path.n > res.max_depth) res.max_depth = path.n;
  if (state_cb && !freerun) state_cb(state_hash());
  return t;
}

void tick(Thr* t) { t->vc.c[t->tid]++; }

// The calling thread has set its pending op.  Returns when the op has been granted (and may be performed).
void sched(Thr* t) {
  Tr c = pick();
  Thr* nx = &thr[(int)c.tid];
  nx->variant = c.var;
  current = c.tid;
  if (nx != t) {
    wake(nx);
    wait_go(t);
  }
  t->steps++;
}

int data_choice(int n) {
  if (n <= 1) return 0;
  int v = 0;
  if (freerun) {
    v = 0;
  } else if (depth < path.n) {
    Node& nd = path[depth];
    if (!nd.data || nd.n != n) {
      diverged = freerun = true;
    } else {
      v = nd.chosen;
      depth++;
    }
  } else {
    Node nd;
    memset(&nd, 0, sizeof nd);
    nd.data = true;
    nd.n = n;
    nd.preempt = preempt_used;
    nd.spurious = spurious_used;
    nd.cur = current;
    path.push(nd);
    depth++;
  }
  trace.push(Tr{-1, (int8_t)v, K_NONE, -1, -1, -1});
  return v;
}

bool inject(unsigned kind) {
  if (!controlled() || !armed || !(opt.fault_kinds & kind) || faults_used >= opt.faults) return false;
  Guard g;
  if (data_choice(2) == 0) return false;
  faults_used++;
  return true;
}

// ---- race detector ---------------------------------------------------------------------------------------------
struct Cell {
  Clk clk;
  uint8_t tid, mask, wr, pad;
};
struct Granule {
  uint32_t gen;
  uint32_t n;
  Cell c[7];
};
struct Page {
  uint64_t key;
  Granule g[512];
};
constexpr size_t kHash = 1 << 16;
Page** table = nullptr;
uint32_t gen = 1;
Page* last_page = nullptr;

Page* page_of(uint64_t key, bool create) {
  if (last_page && last_page->key == key) return last_page;
  if (!table) table = (Page**)mmap(nullptr, kHash * sizeof(Page*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t h = (key * 0x9E3779B97F4A7C15ULL) >> 48;
  while (table[h & (kHash - 1)] && table[h & (kHash - 1)]->key != key) h++;
  Page*& p = table[h & (kHash - 1)];
  if (!p) {
    if (!create) return nullptr;
    p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p->key = key;
  }
  last_page = p;
  return p;
}

void race(uint64_t a, const Cell& o, bool wr, Thr* t, void* pc) {
  char w1[300] = "", w2[200] = "";
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname) snprintf(w1, sizeof w1, " in %s", di.dli_sname);
  (void)w2;
  report("race", "data race: T%d %s memory%s that T%d %s, without any synchronisation in between (address ...%03x)", t->tid,
         wr ? "writes" : "reads", w1, o.tid, o.wr ? "wrote" : "read", (unsigned)(a & 0xfff));
}

inline void access_granule(Thr* t, uint64_t ga, uint8_t mask, bool wr, void* pc) {
  Page* p = page_of(ga >> 12, true);
  Granule& g = p->g[(ga >> 3) & 511];
  const Clk now = t->vc.c[t->tid];
  if (g.gen != gen) {
    g.gen = gen;
    g.n = 1;
    g.c[0] = Cell{now, (uint8_t)t->tid, mask, (uint8_t)wr, 0};
    return;
  }
  int own = -1;
  for (uint32_t i = 0; i < g.n; i++) {
    Cell& c = g.c[i];
    if (c.tid == t->tid) {
      if (c.wr == wr) {
        if (c.mask == mask) {
          own = i;
          if (c.clk == now) return;
        } else if ((c.mask & mask) == c.mask && own < 0)
          own = i;
      }
      continue;
    }
    if (!(c.mask & mask) || !(c.wr | wr)) continue;
    if (c.clk > t->vc.c[c.tid]) race(ga, c, wr, t, pc);
  }
  if (own < 0) {
    if (g.n < 7) own = g.n++;
    else {
      own = 0;
      for (uint32_t i = 0; i < g.n; i++)
        if (g.c[i].tid == t->tid && !g.c[i].wr) own = i;
    }
  }
  g.c[own] = Cell{now, (uint8_t)t->tid, mask, (uint8_t)wr, 0};
}

void access(const void* ptr, size_t n, bool wr, void* pc) {
  Thr* t = self;
  res.accesses++;
  uint64_t a = (uint64_t)ptr, e = a + n;
  while (a < e) {
    uint64_t ga = a & ~7ull;
    uint64_t lo = a - ga, hi = e - ga < 8 ? e - ga : 8;
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
    access_granule(t, ga, mask, wr, pc);
    a = ga + 8;
  }
}
void forget(const void* ptr, size_t n) {
  uint64_t a = (uint64_t)ptr & ~7ull, e = (uint64_t)ptr + n;
  while (a < e) {
    Page* p = page_of(a >> 12, false);
    if (!p) {
      a = (a | 4095) + 1;
      continue;
    }
    p->g[(a >> 3) & 511].gen = 0;
    a += 8;
  }
}

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}

void* tramp(void* p) {
  Thr* t = (Thr*)p;
  in_rt = 1;
  self = t;
  wait_go(t);
  t->steps++;
  pthread_attr_t at;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void* a;
    size_t n;
    pthread_attr_getstack(&at, &a, &n);
    forget(a, n);
    pthread_attr_destroy(&at);
  }
  in_rt = 0;
  void* r = t->fn(t->arg);
  in_rt = 1;
  t->kind = K_EXIT;
  t->o1 = t->o2 = t->target = -1;
  sched(t);
  // EXIT granted: hand over to somebody else
  t->finished = true;
  tick(t);
  t->kind = K_NONE;
  Tr c = pick();
  Thr* nx = &thr[(int)c.tid];
  nx->variant = c.var;
  current = c.tid;
  self = nullptr;
  wake(nx);
  return r;
}

void acquire(int o) { self->vc.join(objs[o].vc); }
void release(int o) {
  objs[o].vc.join(self->vc);
  tick(self);
}

void op(Kind k, int o1, int o2 = -1, int target = -1) {
  Thr* t = self;
  t->kind = k;
  t->o1 = o1;
  t->o2 = o2;
  t->target = target;
  t->timed = false;
  t->can_fail = false;
  sched(t);
  t->kind = K_NONE;
}

int do_cond_wait(const void* c, const void* m, bool timed) {
  int oc = obj(c), om = obj(m);
  if (objs[om].owner != self->tid) report("misuse", "pthread_cond_wait without holding the mutex");
  op(K_WAIT, oc, om);
  // release and block
  objs[om].owner = -1;
  release(om);
  Thr* t = self;
  t->waiting = oc;
  t->signaled = false;
  t->kind = K_REACQ;
  t->o1 = oc;
  t->o2 = om;
  t->target = -1;
  t->timed = timed;
  sched(t);
  t->kind = K_NONE;
  t->waiting = -1;
  bool timeout = t->variant == 100 && timed;
  t->signaled = false;
  objs[om].owner = t->tid;
  acquire(om);
  return timeout ? ETIMEDOUT : 0;
}

void wake_waiter(int oc, int which) {  // which-th unsignaled waiter
  int k = 0;
  for (int i = 0; i < nthr; i++) {
    if (thr[i].finished || thr[i].waiting != oc || thr[i].signaled) continue;
    if (which < 0 || k == which) {
      thr[i].signaled = true;
      if (which >= 0) return;
    }
    k++;
  }
}

}  // namespace

// ================================================================================================== public interface
namespace mc {

Result explore(const Options& o, void (*body)(void*), void* arg, Report rep, void (*on_state)(uint64_t)) {
  Guard g0;
  opt = o;
  reporter = rep;
  state_cb = on_state;
  res = Result();
  path.clear();
  shared_keys.clear();
  mallopt(M_ARENA_MAX, 1);
  bool more = true;
  auto cpu = [] {
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  };
  const double start = opt.cpu_seconds > 0 ? cpu() : 0;
  while (more) {
    // one execution
    gen++;
    objs.clear();
    blocks.clear();
    hist.clear();
    for (int i = 0; i < kMaxT; i++) tclock[i].zero();
    restart = diverged = false;
    trace.clear();
    depth = 0;
    freerun = false;
    preempt_used = spurious_used = faults_used = 0;
    armed = false;
    steps = 0;
    live_blocks = 0;
    nsleep = 0;
    nthr = 1;
    Thr* t = &thr[0];
    *t = Thr();
    t->tid = 0;
    t->alive = true;
    t->vc.zero();
    t->vc.c[0] = 1;
    self = t;
    current = 0;
    active = true;
    in_rt--;
    body(arg);
    in_rt++;
    armed = false;
    op(K_JOINALL, -1);
    if (opt.check_leaks && live_blocks > 0 && res.executions > 0) report("leak", "%ld memory block(s) allocated during the execution were never released", live_blocks);
    active = false;
    self = nullptr;
    res.executions++;
    if (faults_used) res.faulted++;
    if ((uint64_t)nthr > res.max_threads) res.max_threads = nthr;
    // reap the threads that nobody joined is impossible here: JOINALL requires that they have finished
    // next schedule
    more = false;
    if (diverged) {
      // the behaviour is not a function of the schedule: give up on being exhaustive here (reported as a cap)
      res.capped = res.diverged = true;
      break;
    }
    if (restart) {
      path.clear();
      res.restarts++;
      more = true;
      continue;
    }
    while (path.n) {
      Node& nd = path.back();
      if (nd.data) {
        if (nd.chosen + 1 < nd.n) {
          nd.chosen++;
          more = true;
          break;
        }
      } else {
        nd.asleep |= 1u << nd.chosen;
        int c = -1;
        for (int i = 0; i < nd.n; i++)
          if (!((nd.asleep >> i) & 1) && ((nd.todo >> i) & 1)) { c = i; break; }
        if (c >= 0) {
          nd.chosen = c;
          more = true;
          break;
        }
      }
      path.n--;
    }
    if (more && opt.cpu_seconds > 0 && cpu() - start > opt.cpu_seconds) {
      res.out_of_time = true;
      break;
    }
    if (more && res.executions >= opt.max_execs) {
      res.capped = true;
      break;
    }
  }
  return res;
}

void read(const void* p, size_t n) {
  if (!controlled()) return;
  Guard g;
  access(p, n, false, __builtin_return_address(0));
}
void write(const void* p, size_t n) {
  if (!controlled()) return;
  Guard g;
  access(p, n, true, __builtin_return_address(0));
}
void arm(bool on) { armed = on; }
int faults_so_far() { return faults_used; }
int choose(int n) {
  if (!controlled()) return 0;
  Guard g;
  return data_choice(n);
}
const char* schedule() { return make_schedule(); }
void pause() { in_rt++; }
void resume() { in_rt--; }

}  // namespace mc

// ===================================================================================================== pthread layer
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = nullptr; if (!r) { Guard gg; r = real<ret (*)(__VA_ARGS__)>(#name); }

EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!controlled()) return r(th, at, fn, arg);
  if (inject(mc::kThread)) return EAGAIN;
  Guard g;
  op(K_CREATE, obj(&nthr));
  if (nthr >= kMaxT) report("too-many-threads", "more than %d threads were created", kMaxT);
  int id = nthr;
  trace.back().target = id;
  if (hist.n && !freerun) {
    hist.back().t.target = id;
    tclock[id] = hist.back().vc;
  }
  Thr* t = &thr[id];
  *t = Thr();
  t->tid = id;
  t->alive = true;
  t->fn = fn;
  t->arg = arg;
  t->vc = self->vc;
  t->vc.c[id] = 1;
  t->kind = K_START;
  nthr++;
  tick(self);
  pthread_attr_t a2;
  pthread_attr_init(&a2);
  pthread_attr_setstacksize(&a2, 512 * 1024);
  int rc = r(&t->real, &a2, tramp, t);
  pthread_attr_destroy(&a2);
  if (rc) report("harness", "cannot create a thread: %d", rc);
  *th = t->real;
  return 0;
}

EXPORT int pthread_join(pthread_t th, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  if (!controlled()) return r(th, ret);
  Guard g;
  for (int i = 0; i < nthr; i++)
    if (thr[i].alive && thr[i].real == th && i != 0) {
      if (i == self->tid) return EDEADLK;
      op(K_JOIN, -1, -1, i);
      self->vc.join(thr[i].vc);
      tick(self);
      thr[i].alive = false;
      return r(th, ret);
    }
  report("misuse", "join of an unknown or already joined thread");
}
EXPORT int pthread_detach(pthread_t th) {
  REAL(int, pthread_detach, pthread_t);
  return r(th);
}

static int mlock(const void* m, bool tryl) {
  Guard g;
  Thr* t = self;
  int o = obj(m);
  if (objs[o].owner == t->tid && !tryl) report("deadlock", "the thread locks a mutex that it already holds");
  t->kind = K_LOCK;
  t->o1 = o;
  t->o2 = t->target = -1;
  t->can_fail = tryl;
  t->timed = false;
  sched(t);
  t->kind = K_NONE;
  t->can_fail = false;
  if (!mutex_free(o)) return EBUSY;
  objs[o].owner = t->tid;
  acquire(o);
  return 0;
}
static int munlock(const void* m) {
  // Not a scheduling point: releasing a lock is a left mover (the threads that it enables are considered at the next
  // operation of this thread, and what happens in between is local or reported as a race).
  Guard g;
  int o = obj(m);
  trace.push(Tr{(int8_t)self->tid, 0, K_UNLOCK, o, -1, -1});
  if (objs[o].owner != self->tid) {
    if (objs[o].readers > 0) {
      objs[o].readers--;
      release(o);
      return 0;
    }
    report("misuse", "unlock of a mutex that the thread does not hold");
  }
  objs[o].owner = -1;
  release(o);
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_lock, pthread_mutex_t*);
  return controlled() ? mlock(m, false) : r(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
  return controlled() ? mlock(m, true) : r(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
  return controlled() ? munlock(m) : r(m);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
  return controlled() ? mlock(m, false) : r(m);
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
  if (!controlled()) return r(m);
  Guard g;
  int o = obj(m);
  op(K_RDLOCK, o);
  objs[o].readers++;
  acquire(o);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
  return controlled() ? munlock(m) : r(m);
}

// attempts with a time limit: the limit is never reached while the lock can still be obtained
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
  return controlled() ? mlock(m, true) : r(m, t);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*);
  return controlled() ? mlock(m, true) : r(m, k, t);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
  return controlled() ? mlock(m, true) : r(m);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
  if (!controlled()) return r(m);
  Guard g;
  int o = obj(m);
  op(K_ASTORE, o);
  if (objs[o].owner != -1) return EBUSY;
  objs[o].readers++;
  acquire(o);
  return 0;
}

EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
  if (!controlled()) return r(c, m);
  Guard g;
  return do_cond_wait(c, m, false);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  if (!controlled()) return r(c, m, ts);
  Guard g;
  return do_cond_wait(c, m, true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
  if (!controlled()) return r(c, m, k, ts);
  Guard g;
  return do_cond_wait(c, m, true);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  REAL(int, pthread_cond_signal, pthread_cond_t*);
  if (!controlled()) return r(c);
  Guard g;
  int o = obj(c);
  op(K_SIGNAL, o);
  wake_waiter(o, self->variant);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(int, pthread_cond_broadcast, pthread_cond_t*);
  if (!controlled()) return r(c);
  Guard g;
  int o = obj(c);
  op(K_BCAST, o);
  wake_waiter(o, -1);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(int, pthread_cond_destroy, pthread_cond_t*);
  if (!controlled()) return r(c);
  return 0;
}
EXPORT int sched_yield(void) {
  REAL(int, sched_yield, void);
  if (!controlled()) return r();
  Guard g;
  op(K_YIELD, -1);
  return 0;
}
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) {
  REAL(int, nanosleep, const struct timespec*, struct timespec*);
  if (!controlled()) return r(a, b);
  Guard g;
  op(K_YIELD, -1);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
  if (!controlled()) return r(k, f, a, b);
  Guard g;
  op(K_YIELD, -1);
  return 0;
}
EXPORT int sem_init(sem_t* s, int p, unsigned v) {
  REAL(int, sem_init, sem_t*, int, unsigned);
  if (controlled()) {
    Guard g;
    objs[obj(s)].count = v;
  }
  return r(s, p, v);
}
EXPORT int sem_wait(sem_t* s) {
  REAL(int, sem_wait, sem_t*);
  if (!controlled()) return r(s);
  Guard g;
  int o = obj(s);
  op(K_SEMWAIT, o);
  objs[o].count--;
  acquire(o);
  return 0;
}
EXPORT int sem_trywait(sem_t* s) {
  REAL(int, sem_trywait, sem_t*);
  if (!controlled()) return r(s);
  Guard g;
  int o = obj(s);
  op(K_SEMPOST, o);  // never blocks
  if (objs[o].count <= 0) {
    errno = EAGAIN;
    return -1;
  }
  objs[o].count--;
  acquire(o);
  return 0;
}
EXPORT int sem_timedwait(sem_t* s, const struct timespec* t) {
  REAL(int, sem_timedwait, sem_t*, const struct timespec*);
  if (!controlled()) return r(s, t);
  if (sem_trywait(s) == 0) return 0;
  errno = ETIMEDOUT;
  return -1;
}
EXPORT int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* t) {
  REAL(int, sem_clockwait, sem_t*, clockid_t, const struct timespec*);
  return controlled() ? sem_timedwait(s, t) : r(s, k, t);
}
EXPORT int sem_destroy(sem_t* s) {
  REAL(int, sem_destroy, sem_t*);
  return controlled() ? 0 : r(s);
}
EXPORT int sem_post(sem_t* s) {
  REAL(int, sem_post, sem_t*);
  if (!controlled()) return r(s);
  Guard g;
  int o = obj(s);
  op(K_SEMPOST, o);
  objs[o].count++;
  release(o);
  return 0;
}
// std::atomic::wait / std::future use the futex system call through syscall()
EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && controlled()) {
    Guard g;
    int cmd = a[1] & 127;
    int o = obj((void*)a[0]);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      op(K_FWAIT, o);
      if (*(volatile int*)a[0] != (int)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      Thr* t = self;
      t->waiting = o;
      t->signaled = false;
      t->kind = K_FREACQ;
      t->o1 = o;
      t->o2 = t->target = -1;
      t->timed = a[3] != 0;
      sched(t);
      t->kind = K_NONE;
      t->waiting = -1;
      bool to = t->variant == 100 && t->timed;
      t->signaled = false;
      if (to) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      op(K_FWAKE, o);
      int n = (int)a[2], k = 0;
      for (int i = 0; i < nthr && k < n; i++)
        if (!thr[i].finished && thr[i].waiting == o && !thr[i].signaled) thr[i].signaled = true, k++;
      return k;
    }
  }
  long rr;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(rr) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (rr < 0 && rr > -4096) {
    errno = (int)-rr;
    return -1;
  }
  return rr;
}
// function-local statics
EXPORT int __cxa_guard_acquire(uint64_t* gd) {
  uint8_t* b = (uint8_t*)gd;
  if (!controlled()) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    return 1;  // initialisation outside of the exploration is single threaded here
  }
  Guard g;
  int o = obj(gd);
  op(K_GUARD, o);
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
    acquire(o);
    return 0;
  }
  objs[o].owner = self->tid;
  acquire(o);
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t* gd) {
  __atomic_store_n((uint8_t*)gd, 1, __ATOMIC_RELEASE);
  if (!controlled()) return;
  Guard g;
  int o = obj(gd);
  objs[o].owner = -1;
  release(o);
}
EXPORT void __cxa_guard_abort(uint64_t* gd) {
  if (!controlled()) return;
  Guard g;
  int o = obj(gd);
  objs[o].owner = -1;
  release(o);
}

// std::call_once, std::future
EXPORT int pthread_once(pthread_once_t* c, void (*fn)()) {
  REAL(int, pthread_once, pthread_once_t*, void (*)());
  if (!controlled()) return r(c, fn);
  int o;
  {
    Guard g;
    // a global variable of a shared library (the C++ library): not a part of the program under test
    static int local;
    static const void* foreign[16];
    static int nforeign = 0;
    for (int i = 0; i < nforeign; i++)
      if (foreign[i] == c) return r(c, fn);
    Dl_info a, b;
    if (dladdr(c, &a) && dladdr(&local, &b) && a.dli_fbase != b.dli_fbase) {
      if (nforeign < 16) foreign[nforeign++] = c;
      return r(c, fn);
    }
    o = obj(c);
    if (__atomic_load_n((int*)c, __ATOMIC_ACQUIRE) == 2 && !objs[o].count) return 0;  // completed before this execution
    op(K_GUARD, o);
    if (__atomic_load_n((int*)c, __ATOMIC_ACQUIRE) == 2) {
      acquire(o);
      return 0;
    }
    objs[o].owner = self->tid;
    objs[o].count = 1;
    acquire(o);
  }
  auto done = [&](int v) {
    __atomic_store_n((int*)c, v, __ATOMIC_RELEASE);
    Guard g;
    objs[o].owner = -1;
    release(o);
  };
  try {
    fn();
  } catch (...) {
    done(0);
    throw;
  }
  done(2);
  return 0;
}

// ===================================================================================================== allocation
static void* do_new(size_t n, size_t al, bool nothrow) {
  if (inject(mc::kAlloc)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = nullptr;
  if (al) {
    if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
  } else
    p = malloc(n ? n : 1);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (controlled()) {
    Guard g;
    live_blocks++;
    drop_objects(p, malloc_usable_size(p));
    blocks.push(Block{(uint64_t)p, n, ((uint64_t)self->tid << 32) + self->allocs++});
    forget(p, malloc_usable_size(p));
  }
  return p;
}
static void do_delete(void* p) {
  if (!p) return;
  if (controlled()) {
    Guard g;
    live_blocks--;
    size_t n = malloc_usable_size(p);
    // A free() is a write to the whole block: another thread must not be using it.  Only blocks that were accessed
    // have shadow cells, and freeing costs nothing for the others.
    uint64_t a = (uint64_t)p & ~7ull, e = (uint64_t)p + n;
    while (a < e) {
      Page* pg = page_of(a >> 12, false);
      if (!pg) {
        a = (a | 4095) + 1;
        continue;
      }
      Granule& gr = pg->g[(a >> 3) & 511];
      if (gr.gen == gen)
        for (uint32_t i = 0; i < gr.n; i++)
          if (gr.c[i].tid != self->tid && gr.c[i].clk > self->vc.c[gr.c[i].tid]) race(a, gr.c[i], true, self, __builtin_return_address(0));
      gr.gen = 0;
      a += 8;
    }
  }
  free(p);
}
void* operator new(size_t n) { return do_new(n, 0, false); }
void* operator new[](size_t n) { return do_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

// ============================================================================ wrapped functions (-Wl,--wrap=...)
#define PC __builtin_return_address(0)
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (controlled() && n) { Guard g; access(s, n, false, PC); access(d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (controlled() && n) { Guard g; access(s, n, false, PC); access(d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (controlled() && n) { Guard g; access(d, n, true, PC); }
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (controlled() && n) { Guard g; access(a, n, false, PC); access(b, n, false, PC); }
  return __real_memcmp(a, b, n);
}

// compressors: the whole source is read and the produced bytes are written
size_t __real_ZSTD_compress(void*, size_t, const void*, size_t, int);
size_t __real_ZSTD_compressCCtx(void*, void*, size_t, const void*, size_t, int);
size_t __real_ZSTD_compress2(void*, void*, size_t, const void*, size_t);
unsigned ZSTD_isError(size_t);
int __real_LZ4_compress_default(const char*, char*, int, int);
int __real_LZ4_compress_fast(const char*, char*, int, int, int);
size_t __real_ZSTD_decompress(void*, size_t, const void*, size_t);
int __real_LZ4_decompress_safe(const char*, char*, int, int);

#define ZERR ((size_t)-70) /* ZSTD_error_dstSize_tooSmall */
static size_t zdone(size_t n, void* d, void* pc) {
  if (controlled() && !ZSTD_isError(n)) { Guard g; access(d, n, true, pc); }
  return n;
}
size_t __wrap_ZSTD_compress(void* d, size_t dc, const void* s, size_t n, int l) {
  if (!controlled()) return __real_ZSTD_compress(d, dc, s, n, l);
  if (inject(mc::kCompress)) return ZERR;
  size_t k;
  { Guard g; access(s, n, false, PC); k = __real_ZSTD_compress(d, dc, s, n, l); }
  return zdone(k, d, PC);
}
size_t __wrap_ZSTD_compressCCtx(void* c, void* d, size_t dc, const void* s, size_t n, int l) {
  if (!controlled()) return __real_ZSTD_compressCCtx(c, d, dc, s, n, l);
  if (inject(mc::kCompress)) return ZERR;
  size_t k;
  { Guard g; access(c, 8, true, PC); access(s, n, false, PC); k = __real_ZSTD_compressCCtx(c, d, dc, s, n, l); }
  return zdone(k, d, PC);
}
size_t __wrap_ZSTD_compress2(void* c, void* d, size_t dc, const void* s, size_t n) {
  if (!controlled()) return __real_ZSTD_compress2(c, d, dc, s, n);
  if (inject(mc::kCompress)) return ZERR;
  size_t k;
  { Guard g; access(c, 8, true, PC); access(s, n, false, PC); k = __real_ZSTD_compress2(c, d, dc, s, n); }
  return zdone(k, d, PC);
}
int __wrap_LZ4_compress_default(const char* s, char* d, int n, int dc) {
  if (!controlled()) return __real_LZ4_compress_default(s, d, n, dc);
  if (inject(mc::kCompress)) return 0;
  int k;
  { Guard g; access(s, n, false, PC); k = __real_LZ4_compress_default(s, d, n, dc); }
  if (k > 0) { Guard g; access(d, k, true, PC); }
  return k;
}
int __wrap_LZ4_compress_fast(const char* s, char* d, int n, int dc, int acc) {
  if (!controlled()) return __real_LZ4_compress_fast(s, d, n, dc, acc);
  if (inject(mc::kCompress)) return 0;
  int k;
  { Guard g; access(s, n, false, PC); k = __real_LZ4_compress_fast(s, d, n, dc, acc); }
  if (k > 0) { Guard g; access(d, k, true, PC); }
  return k;
}
size_t __wrap_ZSTD_decompress(void* d, size_t dc, const void* s, size_t n) {
  if (!controlled()) return __real_ZSTD_decompress(d, dc, s, n);
  size_t k;
  { Guard g; access(s, n, false, PC); k = __real_ZSTD_decompress(d, dc, s, n); }
  return zdone(k, d, PC);
}
int __wrap_LZ4_decompress_safe(const char* s, char* d, int n, int dc) {
  if (!controlled()) return __real_LZ4_decompress_safe(s, d, n, dc);
  int k;
  { Guard g; access(s, n, false, PC); k = __real_LZ4_decompress_safe(s, d, n, dc); }
  if (k > 0) { Guard g; access(d, k, true, PC); }
  return k;
}
}

// ===================================================================================================== __tsan_* ABI
#define ACC(fn, n, w)                                      \
  EXPORT void fn(void* p) {                                \
    if (controlled()) { Guard g; access(p, n, w, PC); }    \
  }
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false) ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true) ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false) ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true) ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false) ACC(__tsan_volatile_read2, 2, false) ACC(__tsan_volatile_read4, 4, false) ACC(__tsan_volatile_read8, 8, false)
ACC(__tsan_volatile_write1, 1, true) ACC(__tsan_volatile_write2, 2, true) ACC(__tsan_volatile_write4, 4, true) ACC(__tsan_volatile_write8, 8, true)
EXPORT void __tsan_read_range(void* p, size_t n) { if (controlled()) { Guard g; access(p, n, false, PC); } }
EXPORT void __tsan_write_range(void* p, size_t n) { if (controlled()) { Guard g; access(p, n, true, PC); } }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (controlled() && *p != v) { Guard g; access(p, 8, true, PC); } }
EXPORT void __tsan_vptr_read(void** p) { if (controlled()) { Guard g; access(p, 8, false, PC); } }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}

static void a_load(const volatile void* p, int mo) {
  Guard g;
  int o = obj((const void*)p);
  Thr* t = self;
  if (!is_shared(o)) {
    if (t->last_load == (const void*)p && ++t->same_loads > 1000) {  // polling something that nobody has touched yet
      shared_keys.push(objs[o].key);
      restart = freerun = true;
    } else if (t->last_load != (const void*)p)
      t->same_loads = 0, t->last_load = (const void*)p;
    acquire(o);
    return;
  }
  // a thread polling an atomic variable lets the others make progress
  if (t->last_load == (const void*)p) t->same_loads++;
  else t->same_loads = 0, t->last_load = (const void*)p;
  op(t->same_loads > 3 ? K_YIELD : K_ALOAD, o);
  if (mo != __ATOMIC_RELAXED) acquire(o);
}
static void a_store(const volatile void* p, int mo, bool rmw) {
  Guard g;
  int o = obj((const void*)p);
  self->last_load = nullptr;
  if (is_shared(o)) op(K_ASTORE, o);
  if (rmw && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(o);
  if (!rmw) objs[o].vc.zero();
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release(o);
}
#define ATOM(S, T)                                                                                                        \
  EXPORT T __tsan_atomic##S##_load(const volatile T* p, int mo) { if (controlled()) a_load(p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##S##_store(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_exchange(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_add(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_sub(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_and(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_or(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_xor(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_fetch_nand(volatile T* p, T v, int mo) { if (controlled()) a_store(p, mo, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##S##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { if (controlled()) a_store(p, mo, true); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##S##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { if (controlled()) a_store(p, mo, true); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##S##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { if (controlled()) a_store(p, mo, true); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
EXPORT void __tsan_atomic_signal_fence(int) {}
