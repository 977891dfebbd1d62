// The C interface under simulation: handles, and the C++ side's view of them.
#pragma once
#include "model.h"
#include <functional>

namespace sim {
  enum CK { C_NONE, C_HEAP, C_BUF, C_PKT };
  enum { SAFE = 1, UNSAFE = 2 };
  // One handle: eight bytes of run-time type followed by the C++ object, in a block of its own.
  struct Hd { CK k = C_NONE; int rc = SAFE; bool cpp = false; char* blk = nullptr; V v = mk(); bool fin = false; };

  extern char const* const ck_names[];
  // capi_cpp*.cc: the same handles through the C++ interface
  enum Out1 { O_OK, O_TYPE, O_LOGIC, O_STATE, O_PARSE, O_RUNTIME, O_CLIENT, O_OTHER };   // numbered as the C codes
  size_t cpp_size(CK k);
  bool cpp_reads(Hd& h, V const& v, int mode, std::string& why);
  bool cpp_finalized(Hd& h);
  size_t cpp_refcount(Hd& h);
  bool cpp_null(Hd& h);
  int cpp_build(Hd& h, V const& v, u64 seed, int mixed);            // constructs in place
  int cpp_copy(Hd& d, Hd& s, bool move);                            // constructs in place
  void cpp_destroy(Hd& h);
  int cpp_child(Hd& d, Hd& s, std::string const& key, size_t idx, bool bykey);
  int cpp_mutate(Hd& h, int verb, std::string const& k, size_t idx, V const& v, u64 seed, Hd* src, bool move);
  int cpp_finalize(Hd& h, bool fin);
  int cpp_to_c(Hd& d, Hd& s, bool move);                            // unsafe_api_swap, C++ -> C
  int cpp_from_c(Hd& d, Hd& s);                                     // unsafe_api_swap, C -> C++ (d constructed)
  int cpp_json(Hd& h, std::string& out);
  int cpp_parse(Hd& d, std::string const& text, V& out);            // constructs in place on success
  void const* cpp_bytes(Hd& h, size_t& n);                           // null when it has none
  enum { M_INS, M_SET, M_ERA, M_CLEAR, M_INSI, M_SETI, M_ERAI, M_RESIZE, M_RESERVE, M_NVERB };
}
