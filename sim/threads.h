// Threads engine: threads that each own their handles to shared values, run under the
// simulated scheduler of thrt.cc, each checked against its own reference values.
#pragma once
#include "thrt.h"
#include "adapter.h"
#include "hist.h"
#include <deque>

namespace sim {
  enum ThrOp { H_ROOT, H_COPY, H_MOVE, H_READ, H_MUT, H_CONV, H_FINDEF, H_BYTES, H_JSON, H_CHILD, H_NEST, H_DROP, H_EQ, H_ITER, H_VIEW, H_INJ, H_SEND, H_RECV, H_WRAP, H_XMOG, H_QUIT, H_PRE, H_STALE, H_NOPS };
  static char const* const thr_opnames[] = {"ROOT", "COPY", "MOVE", "READ", "MUT", "CONV", "FINDEF", "BYTES", "JSON", "CHILD", "NEST", "DROP", "EQ", "ITER", "VIEW", "INJ", "SEND", "RECV", "WRAP", "XMOG", "QUIT", "PRE", "STALE"};
  void thr_run_shared(Plan const&); void thr_run_skinny(Plan const&);
  inline SchedPlan sched_of(Plan const& p, int pre, int stale) {
    SchedPlan s; s.order = (u64) p.get("order", 1);
    for (auto& o : p.ops) { if (o.code == pre) s.pre.push_back({(int) (o.a[0] & 1), (u64) o.a[1], (int) ((u64) o.a[2] % 64)}); if (o.code == stale) s.stale.push_back({(u64) o.a[0], 1 + (int) ((u64) o.a[1] % 8)}); }
    return s;
  }
}
