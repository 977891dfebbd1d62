#include "capi_cpp.h"
namespace sim {
  CppTable const cpp_safe = table<std::shared_ptr>();
  static CppTable const& tb(Hd& h) { return h.rc == SAFE ? cpp_safe : cpp_unsafe; }
  size_t cpp_size(CK k) { return 8 + (k == C_HEAP ? sizeof(dart::heap) : k == C_BUF ? sizeof(dart::buffer) : sizeof(dart::packet)); }
  bool cpp_reads(Hd& h, V const& v, int m, std::string& w) { return tb(h).reads(h, v, m, w); }
  bool cpp_finalized(Hd& h) { return tb(h).finalized(h); }
  size_t cpp_refcount(Hd& h) { return tb(h).refcount(h); }
  bool cpp_null(Hd& h) { return tb(h).null(h); }
  int cpp_build(Hd& h, V const& v, u64 s, int mixed) { return tb(h).make(h, v, s, mixed); }
  int cpp_copy(Hd& d, Hd& s, bool m) { return tb(s).copy(d, s, m); }
  void cpp_destroy(Hd& h) { tb(h).destroy(h); }
  int cpp_child(Hd& d, Hd& s, std::string const& k, size_t i, bool b) { return tb(s).child(d, s, k, i, b); }
  int cpp_mutate(Hd& h, int v, std::string const& k, size_t i, V const& x, u64 s, Hd* src, bool m) { return tb(h).mutate(h, v, k, i, x, s, src, m); }
  int cpp_finalize(Hd& h, bool f) { return tb(h).finalize(h, f); }
  int cpp_to_c(Hd& d, Hd& s, bool m) { return tb(s).to_c(d, s, m); }
  int cpp_from_c(Hd& d, Hd& s) { return tb(d).from_c(d, s); }
  int cpp_json(Hd& h, std::string& o) { return tb(h).json(h, o); }
  int cpp_parse(Hd& d, std::string const& t, V& o) { return tb(d).parse(d, t, o); }
  void const* cpp_bytes(Hd& h, size_t& n) { return tb(h).bytes(h, n); }
}
