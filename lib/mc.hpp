// Systematic concurrency testing of the real code: a controlled scheduler (one runnable thread at a time) that
// enumerates every interleaving of the synchronisation operations of a scenario, with a happens-before race detector
// for all the other memory accesses and enumerable faults (allocation, compression, thread creation).
// Implementation: mc_rt.cpp (never instrumented).
#pragma once
#include <cstddef>
#include <cstdint>

namespace mc {

enum FaultKind : unsigned { kAlloc = 1, kCompress = 2, kThread = 4 };

struct Options {
  int preemptions = -1;        // -1: unbounded, with sleep-set reduction; n: at most n preemptive switches
  int spurious = 0;            // spurious wake-ups allowed per execution
  int faults = 0;              // faults allowed per execution
  unsigned fault_kinds = 0;    // which kinds
  uint64_t max_execs = 2000000;
  double cpu_seconds = 0;      // 0: no limit; otherwise the exploration ends (out_of_time) when the process has used this time
  bool check_leaks = false;    // every block allocated by the body must have been released at its end
  long max_steps = 20000;      // per execution; more is reported as a livelock
};

struct Result {
  uint64_t executions = 0;   // complete executions of the scenario on the real code
  uint64_t redundant = 0;    // executions cut by the sleep sets (equivalent to another one)
  uint64_t transitions = 0;  // synchronisation operations executed
  uint64_t accesses = 0;     // plain memory accesses checked by the race detector
  uint64_t faulted = 0;      // executions in which at least one fault was injected
  uint64_t max_depth = 0;
  uint64_t max_threads = 0;
  uint64_t restarts = 0;     // the exploration was restarted (another atomic variable turned out to be shared)
  bool capped = false, diverged = false, out_of_time = false;
};

typedef void (*Report)(const char* key, const char* msg, const char* schedule);

// Runs body(arg) once per schedule.  `report` is called (and must not return) on a race, deadlock, livelock or leak.
Result explore(const Options& o, void (*body)(void*), void* arg, Report report, void (*on_state)(uint64_t));

// To be used inside the body
void read(const void* p, size_t n);    // annotate a read of the caller
void write(const void* p, size_t n);   // annotate a write of the caller
void arm(bool on);                     // enable / disable the injection of faults
int faults_so_far();
int choose(int n);                     // enumerated data choice
const char* schedule();                // textual form of the current execution
void pause();                          // suspend / resume the control of the calling thread (uncontrolled section)
void resume();

}  // namespace mc
