#include "simcore.h"
#include <unordered_set>
namespace sim {
  u64 rc_live = 0, rc_moved_reads = 0;
  // open-addressed set of live counter instances (harness memory)
  static std::unordered_set<void const*>* reg() { static auto* s = new std::unordered_set<void const*>; return s; }
  bool rc_registered(void const* p) { Out o; return reg()->count(p) != 0; }
  void rc_add(void const* p) { Out o; if (!reg()->insert(p).second) fail("protocol", "reference counter constructed over a live one"); ++rc_live; }
  void rc_del(void const* p) { Out o; if (!reg()->erase(p)) fail("protocol", "reference counter destroyed twice or never constructed"); --rc_live; }
  void rc_reset_registry() { Out o; reg()->clear(); rc_live = 0; }
}
