#pragma once
#include <string>
#include "simcore.h"
namespace sim {
  enum { CO_INIT, CO_LIT, CO_VA, CO_COPY, CO_MOVE, CO_DROP, CO_MUT, CO_GET, CO_CONV, CO_PARSE, CO_JSON, CO_BYTES, CO_ITER, CO_EQUAL, CO_MISUSE, CO_SWAP, CO_CPP, CO_N };
  std::string damage_text(std::string s, Rng& r, int& what);
  void capi_run(Plan const& p);
}
