// Simulated threads: every access the instrumented library makes to memory goes
// through this runtime, which owns the schedule, the happens-before relation,
// the values weak atomic loads may return, and the life time of all storage.
#pragma once
#include "simcore.h"
namespace sim {
  constexpr int NT = 6;                       // 0 is the main thread
  struct Preempt { int kind; u64 at; int to; };     // kind 0: before an atomic operation or an operation of the plan; 1: before a plain access
  struct Stale { u64 at; int back; };               // the at-th atomic load that could return an older value returns one
  struct SchedPlan { std::vector<Preempt> pre; std::vector<Stale> stale; u64 order = 1; };
  void thr_start(SchedPlan const&, int n, std::function<void(int)> body);   // simulates n threads until all have ended, then returns
  int thr_self();
  void thr_point();                           // the calling thread may be switched out here
  // synchronisation the simulated program itself provides (hand-over of a value)
  struct Sync; Sync* sync_new(); void sync_release(Sync*); void sync_acquire(Sync*);
  struct ThrStats { u64 atomics = 0, plains = 0, switches = 0, stale = 0, stale_possible = 0; };
  extern ThrStats thr_stats;
  u64 thr_schedule_hash();
}
