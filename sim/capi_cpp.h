// The C++ side of the handles in capi.h, for one reference counter.
#pragma once
#include "adapter.h"
#include "capi.h"
#include <dart/abi.h>
#include <dart/api_swap.h>

namespace sim {
  template <template <class> class RC> struct Cpp {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    template <class T> static T& as(Hd& h) { return *reinterpret_cast<T*>(h.blk + 8); }
    template <class F> static auto visit(Hd& h, F&& f) -> decltype(f(as<H>(h))) {
      switch (h.k) { case C_HEAP: return f(as<H>(h)); case C_BUF: return f(as<B>(h)); default: return f(as<P>(h)); }
    }
    template <class F> static int attempt(F&& f) {
      try { Lib l; f(); return O_OK; }
      catch (dart::type_error const&) { return O_TYPE; } catch (dart::state_error const&) { return O_STATE; }
      catch (dart::parse_error const&) { return O_PARSE; }
      catch (std::logic_error const&) { return O_LOGIC; } catch (std::runtime_error const&) { return O_RUNTIME; } catch (...) { return O_OTHER; }
    }
    static bool reads(Hd& h, V const& v, int mode, std::string& why) { Cmp c; c.mode = mode; c.quiet = true; visit(h, [&] (auto& x) { compare(x, v, c); return 0; }); why = c.why; return !c.bad; }
    static bool finalized(Hd& h) { return visit(h, [&] (auto& x) { Lib l; return x.is_finalized(); }); }
    static size_t refcount(Hd& h) { return visit(h, [&] (auto& x) { Lib l; return x.refcount(); }); }
    static bool null(Hd& h) { return visit(h, [&] (auto& x) { Lib l; return x.is_null(); }); }
    static int make(Hd& h, V const& v, u64 seed, int mixed) {
      return attempt([&] { Rng r(seed);
        switch (h.k) { case C_HEAP: new (h.blk + 8) H(build<H>(v, r)); break; case C_BUF: new (h.blk + 8) B(build<H>(v, r).finalize()); break;
          default: if (mixed) new (h.blk + 8) P(build_mixed<RC>(v, r, 40)); else new (h.blk + 8) P(build<P>(v, r)); } });
    }
    static int copy(Hd& d, Hd& s, bool mv) {
      return attempt([&] { switch (s.k) { case C_HEAP: if (mv) new (d.blk + 8) H(std::move(as<H>(s))); else new (d.blk + 8) H(as<H>(s)); break;
        case C_BUF: if (mv) new (d.blk + 8) B(std::move(as<B>(s))); else new (d.blk + 8) B(as<B>(s)); break;
        default: if (mv) new (d.blk + 8) P(std::move(as<P>(s))); else new (d.blk + 8) P(as<P>(s)); } });
    }
    static void destroy(Hd& h) { Lib l; switch (h.k) { case C_HEAP: as<H>(h).~H(); break; case C_BUF: as<B>(h).~B(); break; default: as<P>(h).~P(); } }
    static int child(Hd& d, Hd& s, std::string const& k, size_t i, bool bykey) {
      return attempt([&] { switch (s.k) {
        case C_HEAP: if (bykey) new (d.blk + 8) H(as<H>(s)[sv(k)]); else new (d.blk + 8) H(as<H>(s)[i]); break;
        case C_BUF: if (bykey) new (d.blk + 8) B(as<B>(s)[sv(k)]); else new (d.blk + 8) B(as<B>(s)[i]); break;
        default: if (bykey) new (d.blk + 8) P(as<P>(s)[sv(k)]); else new (d.blk + 8) P(as<P>(s)[i]); } });
    }
    template <class T> static int mut(T& x, int verb, std::string const& k, size_t i, V const& v, u64 seed, Hd* src, bool mv) {
      return attempt([&] { Rng r(seed);
        auto val = [&] () -> T { if (!src) return build<T>(v, r); if (mv) return std::move(as<T>(*src)); return as<T>(*src); };
        switch (verb) {
          case M_INS: if (seed & 1) x.add_field(sv(k), val()); else x.insert(sv(k), val()); break;
          case M_SET: x.set(sv(k), val()); break; case M_ERA: x.erase(sv(k)); break; case M_CLEAR: x.clear(); break;
          case M_INSI: x.insert(i, val()); break; case M_SETI: x.set(i, val()); break; case M_ERAI: x.erase(i); break;
          case M_RESIZE: x.resize(i); break; default: x.reserve(i); } });
    }
    static int mutate(Hd& h, int verb, std::string const& k, size_t i, V const& v, u64 seed, Hd* src, bool mv) {
      if (h.k == C_HEAP) return mut(as<H>(h), verb, k, i, v, seed, src, mv);
      return mut(as<P>(h), verb, k, i, v, seed, src, mv);
    }
    static int finalize(Hd& h, bool fin) { return attempt([&] { if (fin) as<P>(h).finalize(); else as<P>(h).definalize(); }); }
    static int to_c(Hd& d, Hd& s, bool mv) {
      return attempt([&] { switch (s.k) {
        case C_HEAP: if (mv) dart::unsafe_api_swap((dart_heap_t*) d.blk, std::move(as<H>(s))); else dart::unsafe_api_swap((dart_heap_t*) d.blk, as<H>(s)); break;
        case C_BUF: if (mv) dart::unsafe_api_swap((dart_buffer_t*) d.blk, std::move(as<B>(s))); else dart::unsafe_api_swap((dart_buffer_t*) d.blk, as<B>(s)); break;
        default: if (mv) dart::unsafe_api_swap((dart_packet_t*) d.blk, std::move(as<P>(s))); else dart::unsafe_api_swap((dart_packet_t*) d.blk, as<P>(s)); } });
    }
    static int from_c(Hd& d, Hd& s) {
      return attempt([&] { switch (d.k) {
        case C_HEAP: dart::unsafe_api_swap(as<H>(d), (dart_heap_t const*) s.blk); break; case C_BUF: dart::unsafe_api_swap(as<B>(d), (dart_buffer_t const*) s.blk); break;
        default: dart::unsafe_api_swap(as<P>(d), (dart_packet_t const*) s.blk); } });
    }
    static int json(Hd& h, std::string& out) { return attempt([&] { visit(h, [&] (auto& x) { auto t = x.to_json(); Out q; out.assign(t.data(), t.size()); return 0; }); }); }
    static int parse(Hd& d, std::string const& t, V& out) {
      int e = attempt([&] { switch (d.k) { case C_HEAP: new (d.blk + 8) H(H::from_json(sv(t))); break; case C_BUF: new (d.blk + 8) B(B::from_json(sv(t))); break; default: new (d.blk + 8) P(P::from_json(sv(t))); } });
      if (!e) out = visit(d, [&] (auto& x) { return extract(x); });
      return e;
    }
    static void const* bytes(Hd& h, size_t& n) {
      void const* p = nullptr; auto get = [&] (auto& x) { auto sp = x.get_bytes(); p = sp.data(); n = (size_t) sp.size(); };
      if (h.k == C_HEAP) return nullptr;
      return attempt([&] { if (h.k == C_BUF) get(as<B>(h)); else get(as<P>(h)); }) ? nullptr : p;
    }
  };
  struct CppTable {
    bool (*reads)(Hd&, V const&, int, std::string&); bool (*finalized)(Hd&); size_t (*refcount)(Hd&); bool (*null)(Hd&); int (*make)(Hd&, V const&, u64, int);
    int (*copy)(Hd&, Hd&, bool); void (*destroy)(Hd&); int (*child)(Hd&, Hd&, std::string const&, size_t, bool);
    int (*mutate)(Hd&, int, std::string const&, size_t, V const&, u64, Hd*, bool); int (*finalize)(Hd&, bool); int (*to_c)(Hd&, Hd&, bool); int (*from_c)(Hd&, Hd&);
    int (*json)(Hd&, std::string&); int (*parse)(Hd&, std::string const&, V&); void const* (*bytes)(Hd&, size_t&);
  };
  template <template <class> class RC> CppTable table() { using C = Cpp<RC>; return {C::reads, C::finalized, C::refcount, C::null, C::make, C::copy, C::destroy, C::child, C::mutate, C::finalize, C::to_c, C::from_c, C::json, C::parse, C::bytes}; }
  extern CppTable const cpp_safe, cpp_unsafe;
}
