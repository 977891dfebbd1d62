// Comparison: a live handle against another value held in one of the forms a value can take,
// both ways round, against equality in the model.
#pragma once
#include "hist.h"
#include <sstream>

namespace sim {
  template <template <class> class RC> struct Equals {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    template <class X, class Y> static void pair(X const& x, Y const& y, bool same, char const* form) {
      bool a, b, c, d; auto go = [&] { a = x == y; b = y == x; c = x != y; d = y != x; };
      if (starve_compare) { Arm none(F_FROM, 1); go(); } else go();
      if (a == same && b == same && c != same && d != same) return;
      Out o; Disarm da; fail("value", "%s values compared with a %s: == gives %d and %d, != gives %d and %d", same ? "equal" : "different", form, (int) a, (int) b, (int) c, (int) d);
    }
    template <class X> static void self(X const& x) { pair(x, x, true, "handle to themselves"); X c = x; pair(x, c, true, "copy"); }
    // a finalized value can only be an object, or part of one
    template <class HT, class F> static void fin(HT const& h, V const& v, F&& f) {
      if (v->t == T::Obj) { auto b = B {HT {h}.finalize()}; f(b); }
      else { HT o = HT::make_object("k", h); B b {o.finalize()}; B e = b["k"]; f(e); }
    }
    template <class W, class X, class HT> static void wrapped(X const& x, HT const& y, bool same, char const* form) { W w {y}; pair(x, w, same, form); if (same) { W u = w; pair(u, w, true, form); } }
    template <class X, class HT> static void wrap(X const& x, HT const& y, V const& w, bool same) {
      switch (w->t) {
        case T::Obj: wrapped<typename HT::object>(x, y, same, "object wrapper"); break;
        case T::Arr: wrapped<typename HT::array>(x, y, same, "array wrapper"); break;
        case T::Str: wrapped<typename HT::string>(x, y, same, "string wrapper"); break;
        case T::Int: case T::Dec: wrapped<typename HT::number>(x, y, same, "number wrapper"); break;
        case T::Bool: wrapped<typename HT::flag>(x, y, same, "flag wrapper"); break;
        default: wrapped<typename HT::null>(x, y, same, "null wrapper");
      }
    }
    template <class X> static void go(X const& x, V const& w, bool same, u64 form, u64 seed) {
      Rng r(seed);
      switch (form % 12) {
        case 0: { H y = build<H>(w, r); pair(x, y, same, "heap"); break; }
        case 1: { H h = build<H>(w, r); fin(h, w, [&] (B const& y) { pair(x, y, same, "buffer"); }); break; }
        case 2: { P y = build_mixed<RC>(w, r, 40); pair(x, y, same, "packet"); break; }
        case 3: { H h = build<H>(w, r); fin(h, w, [&] (B const& b) { P y {b}; pair(x, y, same, "finalized packet"); }); break; }
        case 4: { H h = build<H>(w, r); typename H::view y = h; pair(x, y, same, "heap view"); break; }
        case 5: { H h = build<H>(w, r); fin(h, w, [&] (B const& b) { typename B::view y = b; pair(x, y, same, "buffer view"); }); break; }
        case 6: { P p = build_mixed<RC>(w, r, 40); typename P::view y = p; pair(x, y, same, "packet view"); break; }
        case 7: { H y = build<H>(w, r); wrap(x, y, w, same); break; }
        case 8: { H h = build<H>(w, r); fin(h, w, [&] (B const& y) { wrap(x, y, w, same); }); break; }
        case 9: { P y = build_mixed<RC>(w, r, 40); wrap(x, y, w, same); break; }
        case 10: { H h = build<H>(w, r); fin(h, w, [&] (B const& b) { H y = b.definalize(); pair(x, y, same, "heap read back from a buffer"); }); break; }
        default: self(x);
      }
    }
  };
  template <template <class> class RC> void EqualTable<RC>::go(H const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }
  template <template <class> class RC> void EqualTable<RC>::go(B const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }
  template <template <class> class RC> void EqualTable<RC>::go(P const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }
  template <template <class> class RC> void EqualTable<RC>::go(typename H::view const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }
  template <template <class> class RC> void EqualTable<RC>::go(typename B::view const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }
  template <template <class> class RC> void EqualTable<RC>::go(typename P::view const& x, V const& w, bool s, u64 f, u64 n) { Equals<RC>::go(x, w, s, f, n); }

  template <template <class> class RC> struct Texts {
    template <bool nan, class HT> static std::string plain(HT const& h) { return h.template to_json<nan ? dart::write_nan : dart::write_default>(); }
    template <bool nan, class HT> static std::string wrapped(HT const& h, T t) {
      switch (t) {
        case T::Obj: return plain<nan>(typename HT::object {h}); case T::Arr: return plain<nan>(typename HT::array {h}); case T::Str: return plain<nan>(typename HT::string {h});
        case T::Int: case T::Dec: return plain<nan>(typename HT::number {h}); case T::Bool: return plain<nan>(typename HT::flag {h}); default: return plain<nan>(typename HT::null {h});
      }
    }
    template <class HT> static void write(HT const& h, T t, int route, bool nan, Opt<std::string>& o) {
      switch (route) {
        case 0: o.with([&] { return nan ? plain<true>(h) : plain<false>(h); }); break;
        case 1: o.with([&] { return nan ? wrapped<true>(h, t) : wrapped<false>(h, t); }); break;
        case 2: { typename HT::view v = h; o.with([&] { return nan ? plain<true>(v) : plain<false>(v); }); break; }
        default: { std::ostringstream s; s << h; o.with([&] { return s.str(); }); }
      }
    }
  };
  template <template <class> class RC> void TextTable<RC>::write(H const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::write(B const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::write(P const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::write(typename H::view const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::write(typename B::view const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::write(typename P::view const& h, T t, int r, bool n, Opt<std::string>& o) { Texts<RC>::write(h, t, r, n, o); }
  template <template <class> class RC> void TextTable<RC>::read(dart::shim::string_view s, int form, Opt<H>& h, Opt<B>& b, Opt<P>& p, bool permissive) {
    constexpr unsigned fl = rapidjson::kParseFullPrecisionFlag | dart::parse_nan, pm = dart::parse_permissive;
    if (!permissive) switch (form) {
      case 0: h.with([&] { return H::template from_json<fl>(s); }); break;
      case 1: b.with([&] { return B::template from_json<fl>(s); }); break;
      case 2: p.with([&] { return P::template parse<fl>(s, false); }); break;
      default: p.with([&] { return P::template from_json<fl>(s, true); });
    } else switch (form) {
      case 0: h.with([&] { return H::template parse<pm>(s); }); break;
      case 1: b.with([&] { return B::template parse<pm>(s); }); break;
      case 2: p.with([&] { return P::template from_json<pm>(s, false); }); break;
      default: p.with([&] { return P::template parse<pm>(s, true); });
    }
  }
}
