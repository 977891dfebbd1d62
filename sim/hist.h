// History engine: a world of handles of every kind, driven by seeded histories with
// allocation faults, each handle checked against its own reference value after
// every step.  One world per reference counter.
#pragma once
#include "rc.h"
#include "adapter.h"

namespace sim {
  enum OpCode {
    LIT, COPY, MOVE, ASSIGN, DROP, CONV, GET, MUT, VIEW, OWNER, WRAP, ITER, ITMOVE, FIN, XMOG, PARSE, TOJSON,
    BYTES, REFUSE, DRAIN, CANON, STARVE, EQUAL, SCRIBBLE, EPHEM, ROUTE, MATCH, DEEPTEXT, NOPS
  };
  static char const* const hist_opnames[] = {
    "LIT", "COPY", "MOVE", "ASSIGN", "DROP", "CONV", "GET", "MUT", "VIEW", "OWNER", "WRAP", "ITER", "ITMOVE", "FIN", "XMOG", "PARSE", "TOJSON",
    "BYTES", "REFUSE", "DRAIN", "CANON", "STARVE", "EQUAL", "SCRIBBLE", "EPHEM", "ROUTE", "MATCH", "DEEPTEXT"
  };
  enum Kind { K_NONE, K_H, K_B, K_P, K_HV, K_BV, K_PV, K_PO, K_PA, K_HO, K_HIT, K_BIT, K_PIT, K_BYT };
  static char const* const kind_names[] = {"-", "heap", "buffer", "packet", "heap view", "buffer view", "packet view", "packet object", "packet array", "heap object", "heap iterator", "buffer iterator", "packet iterator", "bytes"};
  enum Ex { X_FINE, X_TYPE, X_STATE, X_RANGE, X_INVAL, X_LEN, X_PARSE, X_VALID, X_OOM, X_LOGIC, X_RUNTIME, X_OTHER };
  static char const* const ex_names[] = {"ok", "type_error", "state_error", "out_of_range", "invalid_argument", "length_error", "parse_error", "validation_error", "bad_alloc", "logic_error", "runtime_error", "exception"};

  template <class F> Ex attempt(F&& f) {
    try { Lib l; f(); return X_FINE; }
    catch (std::bad_alloc const&) { return X_OOM; }
    catch (dart::type_error const&) { return X_TYPE; }
    catch (dart::state_error const&) { return X_STATE; }
    catch (dart::parse_error const&) { return X_PARSE; }
    catch (dart::validation_error const&) { return X_VALID; }
    catch (std::out_of_range const&) { return X_RANGE; }
    catch (std::invalid_argument const&) { return X_INVAL; }
    catch (std::length_error const&) { return X_LEN; }
    catch (std::logic_error const&) { return X_LOGIC; }
    catch (std::runtime_error const&) { return X_RUNTIME; }
    catch (std::exception const&) { return X_OTHER; }
    catch (...) { fail("value", "an exception that is not a std::exception crossed the interface"); }
  }

  template <class Tp> struct Opt {
    alignas(Tp) unsigned char mem_[sizeof(Tp)]; bool has = false;
    Opt() {} Opt(Opt const&) = delete;
    ~Opt() { reset(); }
    template <class... A> Tp& emplace(A&&... a) { reset(); new (mem_) Tp(std::forward<A>(a)...); has = true; return get(); }
    template <class F> Tp& with(F&& f) { reset(); new (mem_) Tp(f()); has = true; return get(); }
    Tp& get() { return *reinterpret_cast<Tp*>(mem_); }
    Tp& operator *() { return get(); }
    void reset() { if (has) { has = false; Lib l; get().~Tp(); } }
    void take(Opt& o) { Lib l; reset(); if (o.has) { new (mem_) Tp(std::move(o.get())); has = true; o.get().~Tp(); o.has = false; } }
  };

  // every observation a run makes; two worlds with the same plan must agree on it
  struct Obs { std::vector<std::string> lines; bool on = false; void add(std::string s) { if (on) lines.push_back(std::move(s)); } };

  void hist_run_shared(Plan const&, Obs&);
  void hist_run_unsafe(Plan const&, Obs&);
  void hist_run_skinny(Plan const&, Obs&);
  void hist_run_sim(Plan const&, Obs&);

  // One route of the wider reading interface (routes.h), compiled apart for each counter.
  struct Route {   // operands, drawn before the call
    u64 which = 0, sub = 0; std::string key, text; V at; bool present = false; size_t idx = 0; int64_t n = 0;
  };
  template <template <class> class RC> struct RouteTable {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    static void go(H const&, V const&, Route const&); static void go(B const&, V const&, Route const&); static void go(P const&, V const&, Route const&);
    static void go(typename H::view const&, V const&, Route const&); static void go(typename B::view const&, V const&, Route const&); static void go(typename P::view const&, V const&, Route const&);
  };

  extern bool starve_compare;   // compare with no memory left (no other fault is planned)
  // Comparison of a handle with another value in every form it can take (equal.h), compiled apart for each counter.
  template <template <class> class RC> struct EqualTable {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    static void go(H const&, V const&, bool, u64, u64); static void go(B const&, V const&, bool, u64, u64); static void go(P const&, V const&, bool, u64, u64);
    static void go(typename H::view const&, V const&, bool, u64, u64); static void go(typename B::view const&, V const&, bool, u64, u64); static void go(typename P::view const&, V const&, bool, u64, u64);
  };

  // JSON text out (through a handle, its view, its typed wrapper or a stream) and in (exactly), compiled apart for each counter.
  template <template <class> class RC> struct TextTable {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    static void write(H const&, T, int, bool, Opt<std::string>&); static void write(B const&, T, int, bool, Opt<std::string>&); static void write(P const&, T, int, bool, Opt<std::string>&);
    static void write(typename H::view const&, T, int, bool, Opt<std::string>&); static void write(typename B::view const&, T, int, bool, Opt<std::string>&); static void write(typename P::view const&, T, int, bool, Opt<std::string>&);
    static void read(dart::shim::string_view, int, Opt<H>&, Opt<B>&, Opt<P>&, bool = false);
  };

  // Packet bytes of a value, built one fixed way in zeroed memory: what every other history must agree with.
  std::string hist_reference_bytes(V const&);
}
