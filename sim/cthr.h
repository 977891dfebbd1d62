// C interface threads: operations and the plan's schedule.
#pragma once
#include "thrt.h"
namespace sim {
  enum CthrOp { Q_ROOT, Q_COPY, Q_MOVE, Q_DROP, Q_READ, Q_MUT, Q_CONV, Q_CHILD, Q_JSON, Q_PARSE, Q_BYTES, Q_ITER, Q_EQ, Q_FAIL, Q_NEST, Q_SEND, Q_RECV, Q_QUIT, Q_PRE, Q_STALE, Q_NOPS };
  static char const* const cthr_opnames[] = {"ROOT", "COPY", "MOVE", "DROP", "READ", "MUT", "CONV", "CHILD", "JSON", "PARSE", "BYTES", "ITER", "EQ", "FAIL", "NEST", "SEND", "RECV", "QUIT", "PRE", "STALE"};
  void cthr_run(Plan const&);
}
