// The rest of the reading interface: wrapper and handle keys, rvalue forms, optional access,
// reverse and key-value iteration, the typed wrappers.  One call takes one such route over a
// handle and compares everything it gives with the reference value.
#pragma once
#include "hist.h"

namespace sim {
  // how a call that may be refused ended; exhausted memory passes through to the caller
  template <class F> Ex refused(F&& f) {
    try { f(); return X_FINE; }
    catch (std::bad_alloc const&) { throw; }
    catch (dart::type_error const&) { return X_TYPE; }
    catch (dart::state_error const&) { return X_STATE; }
    catch (std::out_of_range const&) { return X_RANGE; }
    catch (std::invalid_argument const&) { return X_INVAL; }
    catch (std::logic_error const&) { return X_LOGIC; }
    catch (std::exception const&) { return X_OTHER; }
  }
  inline void rt_that(bool ok, char const* what) { if (!ok) { Out o; Disarm d; fail("value", "%s", what); } }
  inline void rt_ex(Ex got, Ex want, char const* what) { if (got != want) { Out o; Disarm d; fail("outcome", "%s ended with %s, expected %s", what, ex_names[got], ex_names[want]); } }
  template <class HT> void rt_same(HT const& got, V const& want, char const* what) {
    Out o; Disarm d; Cmp c; c.quiet = true; c.mode = 0; c.absent = false; compare(got, want, c);
    if (c.bad) fail("value", "%s: %s", what, c.why.c_str());
  }
  inline void rt_str(dart::shim::string_view got, std::string const& want, char const* what) {
    rt_that(got.size() == want.size() && memcmp(got.data(), want.data(), want.size()) == 0, what);
  }

  template <template <class> class RC> struct Routes {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    template <class HT> using owns = std::integral_constant<bool, HT::is_owning_type::value>;
    template <class HT> struct is_buf : std::integral_constant<bool, std::is_same<HT, B>::value || std::is_same<HT, typename B::view>::value> {};
    using yes = std::true_type; using no = std::false_type;

    // ---- objects -------------------------------------------------------------------------
    template <class HT, class K> static void keyed(HT const& h, Route const& a, K const& k, char const* what) {
      V none = at_or_null(a);
      switch (a.sub % 6) {
        case 0: rt_same(h[k], none, what); break;
        case 1: rt_same(h.get(k), none, what); break;
        case 2: { Ex e = refused([&] { auto x = h.at(k); rt_same(x, a.at, what); }); rt_ex(e, a.present ? X_FINE : X_RANGE, what); break; }
        case 3: rt_that(h.has_key(k) == a.present, what); break;
        default: rt_same(h.get(k), none, what); rt_that(h.has_key(k) == a.present, what); break;
      }
    }
    static V at_or_null(Route const& a) { Out o; Disarm d; return a.present ? a.at : mk(); }
    template <class HT, class K> static void found(HT const& h, Route const& a, K const& k, char const* what) {
      auto it = h.find(k); rt_that((it != h.end()) == a.present, what); if (a.present) rt_same(*it, a.at, what);
      auto kt = h.find_key(k); rt_that((kt != h.key_end()) == a.present, what);
      if (a.present) { rt_str(kt->strv(), a.key, what); rt_str((*kt).strv(), a.key, what); }
    }
    template <class HT> static HT rv(HT const& h) { return h; }
    template <class HT, class K> static void rvalue_keyed(HT const& h, Route const& a, K const& k, char const* what) {
      V none = at_or_null(a);
      switch (a.sub % 3) {
        case 0: { HT c = h; HT e = std::move(c)[k]; rt_same(e, none, what); break; }
        case 1: { HT c = h; HT e = std::move(c).get(k); rt_same(e, none, what); break; }
        default: { Ex r = refused([&] { HT c = h; HT e = std::move(c).at(k); rt_same(e, a.at, what); }); rt_ex(r, a.present ? X_FINE : X_RANGE, what); break; }
      }
    }
    template <class HT> static void rvalue_obj(HT const& h, Route const& a, yes) {
      switch (a.sub / 3 % 3) {
        case 0: rvalue_keyed(h, a, sv(a.key), "element of a temporary by key"); break;
        case 1: { typename H::string k {sv(a.key)}; rvalue_keyed(h, a, k, "element of a temporary by string wrapper"); break; }
        default: { H k = H::make_string(sv(a.key)); rvalue_keyed(h, a, k, "element of a temporary by handle"); break; }
      }
    }
    template <class HT> static void rvalue_obj(HT const&, Route const&, no) {}
    template <class HT> static void or_obj(HT const& h, Route const& a, yes, no) {
      V none; { Out o; Disarm d; none = a.present ? a.at : mk_int(a.n); }
      typename H::string k {sv(a.key)}; H hk = H::make_string(sv(a.key));
      switch (a.sub % 5) {
        case 0: rt_same(h.get_or(sv(a.key), a.n), none, "get_or(key)"); break;
        case 1: rt_same(h.get_or(k, a.n), none, "get_or(string wrapper)"); break;
        case 2: rt_same(h.get_or(hk, a.n), none, "get_or(handle)"); break;
        case 3: { typename HT::object o {h}; rt_same(o.get_or(sv(a.key), a.n), none, "object wrapper get_or"); break; }
        default: { V w; { Out o; Disarm d; w = a.present ? a.at : mk_str(a.text); } rt_same(h.get_or(sv(a.key), sv(a.text)), w, "get_or with a string"); break; }
      }
    }
    template <class HT, class X, class Y> static void or_obj(HT const&, Route const&, X, Y) {}

    template <class HT> static void walk_obj(HT const& h, V const& v, Route const& a) {
      switch (a.sub % 6) {
        case 0: { auto it = h.cbegin(); auto en = h.cend(); for (auto& f : v->o) { rt_that(it != en, "cbegin() ended early"); auto old = it++; rt_same(*old, f.second, "postfix increment"); rt_that(old->get_type() == (*old).get_type(), "arrow"); } rt_that(it == en, "cbegin() has extra elements"); break; }
        case 1: { auto it = h.end(); auto i = v->o.rbegin(); auto bg = h.begin(); for (; i != v->o.rend(); ++i) { rt_that(it != bg, "backwards from end() stopped early"); --it; rt_same(*it, i->second, "prefix decrement"); } rt_that(it == bg, "backwards from end()"); break; }
        case 2: { auto it = h.end(); auto n = v->o.size(); while (n) { auto old = it--; (void) old; --n; } rt_that(it == h.begin(), "postfix decrement"); break; }
        case 3: { auto it = h.rbegin(); auto en = h.rend(); for (auto i = v->o.rbegin(); i != v->o.rend(); ++i) { rt_that(it != en, "rbegin() ended early"); rt_same(*it, i->second, "reverse iteration"); it++; } rt_that(it == en, "rbegin() has extra elements"); break; }
        case 4: { auto it = h.rkey_begin(); auto en = h.rkey_end(); for (auto i = v->o.rbegin(); i != v->o.rend(); ++i) { rt_that(it != en, "rkey_begin() ended early"); auto k = *it; rt_str(k.strv(), i->first, "reverse key iteration"); ++it; } rt_that(it == en, "rkey_begin() has extra elements"); break; }
        default: { auto kv = h.rkvbegin(); auto en = h.rkvend(); auto& k = std::get<0>(kv); auto& x = std::get<1>(kv);
          for (auto i = v->o.rbegin(); i != v->o.rend(); ++i) { rt_that(x != std::get<1>(en) && k != std::get<0>(en), "rkvbegin() ended early"); auto key = *k; rt_str(key.strv(), i->first, "reverse key-value iteration"); rt_same(*x, i->second, "reverse key-value iteration"); ++k; ++x; }
          rt_that(x == std::get<1>(en) && k == std::get<0>(en), "rkvbegin() has extra elements"); break; }
      }
      auto kv = h.kvbegin(); auto ke = h.kvend(); rt_that((std::get<0>(kv) == std::get<0>(ke)) == v->o.empty() && (std::get<1>(kv) == std::get<1>(ke)) == v->o.empty(), "kvend()");
    }
    // every typed wrapper and refused conversions between them
    template <class W, class HT> static void wrap_refused(HT const& h, bool ok, char const* what) {
      Ex e = refused([&] { W w {h}; (void) w; }); rt_ex(e, ok ? X_FINE : X_TYPE, what);
      e = refused([&] { HT c = h; W w {std::move(c)}; (void) w; }); rt_ex(e, ok ? X_FINE : X_TYPE, what);
    }
    template <class HT> static void wrappers(HT const& h, V const& v) {
      wrap_refused<typename HT::object>(h, v->t == T::Obj, "object wrapper");
      wrap_refused<typename HT::array>(h, v->t == T::Arr, "array wrapper");
      wrap_refused<typename HT::string>(h, v->t == T::Str, "string wrapper");
      wrap_refused<typename HT::number>(h, v->t == T::Int || v->t == T::Dec, "number wrapper");
      wrap_refused<typename HT::flag>(h, v->t == T::Bool, "flag wrapper");
      wrap_refused<typename HT::null>(h, v->t == T::Null, "null wrapper");
    }
    template <class W> static void intro(W const& w, V const& v, bool fin, size_t rc, char const* what) {
      bool obj = v->t == T::Obj, arr = v->t == T::Arr, str = v->t == T::Str, i = v->t == T::Int, dd = v->t == T::Dec, b = v->t == T::Bool, n = v->t == T::Null;
      rt_that(w.is_object() == obj && w.is_array() == arr && w.is_str() == str && w.is_integer() == i && w.is_decimal() == dd && w.is_numeric() == (i || dd) && w.is_boolean() == b && w.is_null() == n && w.is_aggregate() == (obj || arr), what);
      rt_that(n || w.is_primitive() == !(obj || arr), what);
      rt_that(tof(w.get_type()) == v->t, what); (void) fin; (void) rc;
    }
    template <class W, class HT> static void common(W const& w, HT const& h, V const& v, char const* what, yes) {
      intro(w, v, false, 0, what);
      W c = w; W m = std::move(c); c = m; rt_same(c.dynamic(), v, what);
      typename W::value_type back = m; rt_same(back, v, what); typename W::value_type back2 = std::move(m); rt_same(back2, v, what);
      typename W::view vw = c; rt_same(vw.dynamic(), v, what); intro(vw, v, false, 0, what); rt_that(vw.is_view() && !c.is_view(), what);
      auto ow = vw.as_owner(); rt_same(ow.dynamic(), v, what);
      rt_that(c.is_finalized() == h.is_finalized(), what);
      rt_that(c == w && !(c != w) && c == h && vw == w, what);
    }
    template <class W, class HT> static void common(W const& w, HT const& h, V const& v, char const* what, no) {
      intro(w, v, false, 0, what); W c = w; W m = std::move(c); c = m; rt_same(c.dynamic(), v, what); typename W::value_type back = m; rt_same(back, v, what); rt_that(w.is_view(), what); auto ow = w.as_owner(); rt_same(ow.dynamic(), v, what); rt_that(w.is_finalized() == h.is_finalized(), what);
    }
    template <class HT> static void obj_wrapper(HT const& h, V const& v, Route const& a) {
      typename HT::object o {h}; V none = at_or_null(a); typename H::string k {sv(a.key)};
      switch (a.sub % 8) {
        case 0: rt_same(o[sv(a.key)], none, "object wrapper subscript"); rt_same(o[k], none, "object wrapper subscript by wrapper"); break;
        case 1: rt_same(o.get(sv(a.key)), none, "object wrapper get"); rt_same(o.get(k), none, "object wrapper get by wrapper"); break;
        case 2: { Ex e = refused([&] { rt_same(o.at(sv(a.key)), a.at, "object wrapper at"); }); rt_ex(e, a.present ? X_FINE : X_RANGE, "object wrapper at"); break; }
        case 3: rt_that(o.has_key(sv(a.key)) == a.present && o.has_key(k) == a.present, "object wrapper has_key"); found(o, a, sv(a.key), "object wrapper find"); found(o, a, k, "object wrapper find by wrapper"); break;
        case 4: { auto ks = o.keys(); auto vs = o.values(); rt_that(ks.size() == v->o.size() && vs.size() == v->o.size(), "object wrapper keys/values"); size_t i = 0; for (auto& f : v->o) { rt_str(ks[i].strv(), f.first, "object wrapper keys"); rt_same(vs[i], f.second, "object wrapper values"); ++i; } break; }
        case 5: walk_obj(o, v, a); break;
        case 6: rt_that(o.size() == v->o.size() && o.empty() == v->o.empty() && (bool) o, "object wrapper size"); common(o, h, v, "object wrapper", owns<HT> {}); break;
        default: if (!a.key.empty() && !has_nul_or_sep(a.key)) rt_same(o.get_nested(sv(a.key), '\x7e'), nested(v, a.key), "object wrapper get_nested"); break;
      }
    }
    static bool has_nul_or_sep(std::string const& k) { return k.find('\x7e') != std::string::npos; }
    static V nested(V v, std::string const& path) {
      Out o; Disarm d; size_t i = 0;
      for (;;) { size_t j = path.find('\x7e', i); std::string k = path.substr(i, j == std::string::npos ? j : j - i); if (v->t != T::Obj || !v->o.count(k)) return mk(); v = v->o.find(k)->second; if (j == std::string::npos) return v; i = j + 1; }
    }
    // the state changes the wrapper offers, on copies
    template <class HT> static void obj_states(HT const& h, V const& v, Route const& a, yes, no) {
      typename HT::object o {h};
      switch (a.sub % 4) {
        case 0: { auto f = typename HT::object {h}.finalize(); rt_same(f.dynamic(), v, "object wrapper finalize()"); rt_that(f.is_finalized(), "object wrapper finalize()"); bytes_of(f, v); break; }
        case 1: { auto f = typename HT::object {h}.lower(); auto d = typename decltype(f)::value_type(f).definalize(); rt_same(d, v, "definalize() of a lowered object"); rt_same(f.dynamic(), v, "lower()"); break; }
        case 2: { auto d = typename HT::object {h}.definalize(); rt_same(d.dynamic(), v, "object wrapper definalize()"); rt_that(!d.is_finalized(), "object wrapper definalize()"); break; }
        default: { auto d = typename HT::object {h}.lift(); rt_same(d.dynamic(), v, "object wrapper lift()"); rt_that(!d.is_finalized(), "object wrapper lift()"); auto f = std::move(d).finalize(); rt_same(f.dynamic(), v, "finalize() of a lifted object"); break; }
      }
      rt_same(o.dynamic(), v, "object wrapper beside a converted copy"); rt_same(h, v, "handle beside a converted wrapper");
    }
    template <class HT> static void obj_states(HT const& h, V const& v, Route const& a, yes, yes) {
      typename HT::object o {h};
      if (a.sub & 1) { auto d = typename HT::object {h}.definalize(); rt_same(d.dynamic(), v, "buffer object wrapper definalize()"); } else { auto d = typename HT::object {h}.lift(); rt_same(d.dynamic(), v, "buffer object wrapper lift()"); }
      bytes_of(o, v);
    }
    template <class HT, class X, class Y> static void obj_states(HT const&, V const&, Route const&, X, Y) {}
    template <class O> static void bytes_of(O const& o, V const& v) {
      auto sp = o.get_bytes(); size_t n = 0; auto dup = o.dup_bytes(n); auto dup2 = o.dup_bytes();
      rt_that(n == (size_t) sp.size() && memcmp(dup.get(), sp.data(), n) == 0 && memcmp(dup2.get(), sp.data(), n) == 0, "object wrapper dup_bytes()");
      B b {std::move(dup)}; rt_same(b, v, "packet from the bytes of an object wrapper");
    }
    template <class HT> static void wrong_obj(HT const& h, V const& v, Route const& a) {
      H k = a.sub & 1 ? H::make_boolean(true) : H::make_null(); H n = H::make_integer(0); typename H::number nw {0};
      Ex w = v->t == T::Obj || v->t == T::Arr ? X_TYPE : X_TYPE;
      switch (a.sub % 9) {
        case 0: rt_ex(refused([&] { (void) h[k]; }), w, "subscript by a handle that is no key"); break;
        case 1: rt_ex(refused([&] { (void) h.get(k); }), w, "get by a handle that is no key"); break;
        case 2: rt_ex(refused([&] { (void) h.at(k); }), w, "at by a handle that is no key"); break;
        case 3: if (v->t == T::Obj) rt_ex(refused([&] { (void) h[n]; }), w, "subscript of an object by an integer handle"); break;
        case 4: if (v->t == T::Obj) rt_ex(refused([&] { (void) h.get(nw); }), w, "get of an object by a number wrapper"); break;
        case 5: if (v->t != T::Arr) { rt_ex(refused([&] { (void) h.at((size_t) 0); }), w, "at of a value that is no array by an index"); rt_ex(refused([&] { (void) h.at(nw); }), w, "at of a value that is no array by a number wrapper"); rt_ex(refused([&] { (void) h.at_back(); }), w, "at_back of a value that is no array"); rt_ex(refused([&] { (void) h.front(); }), w, "front of a value that is no array"); } break;
        case 6: if (v->t == T::Arr) rt_ex(refused([&] { (void) h[sv(a.key)]; }), w, "subscript of an array by a key"); break;
        case 7: if (v->t == T::Arr) { typename H::string s {sv(a.key)}; rt_ex(refused([&] { (void) h.at(s); }), w, "at of an array by a string wrapper"); } break;
        default: if (v->t != T::Obj && v->t != T::Arr) { rt_ex(refused([&] { (void) h.rbegin(); }), w, "rbegin of a scalar"); rt_ex(refused([&] { (void) h.rkey_begin(); }), w, "rkey_begin of a scalar"); rt_ex(refused([&] { (void) h.kvbegin(); }), w, "kvbegin of a scalar"); rt_ex(refused([&] { (void) h.rkvbegin(); }), w, "rkvbegin of a scalar"); rt_ex(refused([&] { (void) h.key_begin(); }), w, "key_begin of a scalar"); } break;
      }
    }
    template <class HT> static void obj(HT const& h, V const& v, Route const& a) {
      switch (a.which % 12) {
        case 0: { typename H::string k {sv(a.key)}; keyed(h, a, k, "lookup by string wrapper"); break; }
        case 1: { typename P::string k {sv(a.key)}; keyed(h, a, k, "lookup by packet string wrapper"); break; }
        case 2: { H k = H::make_string(sv(a.key)); keyed(h, a, k, "lookup by handle"); break; }
        case 3: { P k = P::make_string(sv(a.key)); keyed(h, a, k, "lookup by packet handle"); break; }
        case 4: { typename H::string k {sv(a.key)}; found(h, a, k, "find by string wrapper"); break; }
        case 5: rvalue_obj(h, a, owns<HT> {}); break;
        case 6: or_obj(h, a, owns<HT> {}, is_buf<HT> {}); break;
        case 7: walk_obj(h, v, a); break;
        case 8: obj_wrapper(h, v, a); break;
        case 9: obj_states(h, v, a, owns<HT> {}, is_buf<HT> {}); break;
        case 10: wrappers(h, v); break;
        default: wrong_obj(h, v, a); break;
      }
    }

    // ---- arrays --------------------------------------------------------------------------------
    template <class HT, class I> static void indexed(HT const& h, Route const& a, I const& i, char const* what) {
      V none = at_or_null(a);
      switch (a.sub % 3) {
        case 0: rt_same(h[i], none, what); break;
        case 1: rt_same(h.get(i), none, what); break;
        default: { Ex e = refused([&] { auto x = h.at(i); rt_same(x, a.at, what); }); rt_ex(e, a.present ? X_FINE : X_RANGE, what); break; }
      }
    }
    template <class HT> static void rvalue_arr(HT const& h, V const& v, Route const& a, yes) {
      V none = at_or_null(a); typename H::number nw {(int64_t) a.idx}; H nh = H::make_integer((int64_t) a.idx); size_t n = v->a.size();
      switch (a.sub % 11) {
        case 0: { HT c = h; HT e = std::move(c)[a.idx]; rt_same(e, none, "element of a temporary"); break; }
        case 1: { HT c = h; HT e = std::move(c)[nw]; rt_same(e, none, "element of a temporary by number wrapper"); break; }
        case 2: { HT c = h; HT e = std::move(c)[nh]; rt_same(e, none, "element of a temporary by handle"); break; }
        case 3: { HT c = h; HT e = std::move(c).get(a.idx); rt_same(e, none, "get of a temporary"); break; }
        case 4: { HT c = h; HT e = std::move(c).get(nw); rt_same(e, none, "get of a temporary by number wrapper"); break; }
        case 5: { HT c = h; HT e = std::move(c).get(nh); rt_same(e, none, "get of a temporary by handle"); break; }
        case 6: rt_ex(refused([&] { HT c = h; HT e = std::move(c).at(a.idx); rt_same(e, a.at, "at of a temporary"); }), a.present ? X_FINE : X_RANGE, "at of a temporary"); break;
        case 7: rt_ex(refused([&] { HT c = h; HT e = std::move(c).at(nw); rt_same(e, a.at, "at of a temporary"); }), a.present ? X_FINE : X_RANGE, "at of a temporary by number wrapper"); break;
        case 8: rt_ex(refused([&] { HT c = h; HT e = std::move(c).at(nh); rt_same(e, a.at, "at of a temporary"); }), a.present ? X_FINE : X_RANGE, "at of a temporary by handle"); break;
        case 9: rt_ex(refused([&] { HT c = h; HT e = std::move(c).at_front(); rt_same(e, v->a[0], "at_front of a temporary"); }), n ? X_FINE : X_RANGE, "at_front of a temporary");
                rt_ex(refused([&] { HT c = h; HT e = std::move(c).at_back(); rt_same(e, v->a[n - 1], "at_back of a temporary"); }), n ? X_FINE : X_RANGE, "at_back of a temporary"); break;
        default: { HT c = h; HT e = std::move(c).front(); rt_same(e, end_or(v, 0, nullptr), "front of a temporary"); HT c2 = h; HT e2 = std::move(c2).back(); rt_same(e2, end_or(v, n - 1, nullptr), "back of a temporary"); break; }
      }
    }
    template <class HT> static void rvalue_arr(HT const&, V const&, Route const&, no) {}
    static V end_or(V const& v, size_t i, V const& alt) { Out o; Disarm d; return v->a.empty() ? (alt ? alt : mk()) : v->a[i]; }
    template <class HT> static void or_arr(HT const& h, V const& v, Route const& a, yes, no) {
      V none, fr, bk; { Out o; Disarm d; V alt = mk_int(a.n); none = a.present ? a.at : alt; fr = end_or(v, 0, alt); bk = end_or(v, v->a.size() - 1, alt); }
      typename H::number nw {(int64_t) a.idx}; H nh = H::make_integer((int64_t) a.idx); typename HT::array w {h};
      switch (a.sub % 7) {
        case 0: rt_same(h.get_or(a.idx, a.n), none, "get_or(index)"); break;
        case 1: rt_same(h.get_or(nw, a.n), none, "get_or(number wrapper)"); break;
        case 2: rt_same(h.get_or(nh, a.n), none, "get_or(integer handle)"); break;
        case 3: rt_same(h.front_or(a.n), fr, "front_or"); break;
        case 4: rt_same(h.back_or(a.n), bk, "back_or"); break;
        case 5: rt_same(w.get_or(a.idx, a.n), none, "array wrapper get_or"); break;
        default: rt_same(w.front_or(a.n), fr, "array wrapper front_or"); rt_same(w.back_or(a.n), bk, "array wrapper back_or"); break;
      }
    }
    template <class HT, class X, class Y> static void or_arr(HT const&, V const&, Route const&, X, Y) {}
    template <class HT> static void walk_arr(HT const& h, V const& v, Route const& a) {
      switch (a.sub % 4) {
        case 0: { auto it = h.cbegin(); auto en = h.cend(); for (auto& f : v->a) { rt_that(it != en, "cbegin() ended early"); auto old = it++; rt_same(*old, f, "postfix increment"); rt_that(old->get_type() == (*old).get_type(), "arrow"); } rt_that(it == en, "cbegin() has extra elements"); break; }
        case 1: { auto it = h.end(); auto bg = h.begin(); for (auto i = v->a.rbegin(); i != v->a.rend(); ++i) { rt_that(it != bg, "backwards from end() stopped early"); --it; rt_same(*it, *i, "prefix decrement"); } rt_that(it == bg, "backwards from end()"); break; }
        case 2: { auto it = h.end(); auto n = v->a.size(); while (n) { auto old = it--; (void) old; --n; } rt_that(it == h.begin(), "postfix decrement"); break; }
        default: { auto it = h.rbegin(); auto en = h.rend(); for (auto i = v->a.rbegin(); i != v->a.rend(); ++i) { rt_that(it != en, "rbegin() ended early"); rt_same(*it, *i, "reverse iteration"); it++; } rt_that(it == en, "rbegin() has extra elements"); break; }
      }
    }
    template <class HT> static void arr_wrapper(HT const& h, V const& v, Route const& a) {
      typename HT::array w {h}; V none = at_or_null(a); typename H::number nw {(int64_t) a.idx}; size_t n = v->a.size();
      switch (a.sub % 8) {
        case 0: rt_same(w[a.idx], none, "array wrapper subscript"); rt_same(w[nw], none, "array wrapper subscript by number wrapper"); break;
        case 1: rt_same(w.get(a.idx), none, "array wrapper get"); rt_same(w.get(nw), none, "array wrapper get by number wrapper"); break;
        case 2: rt_ex(refused([&] { rt_same(w.at(a.idx), a.at, "array wrapper at"); }), a.present ? X_FINE : X_RANGE, "array wrapper at"); break;
        case 3: rt_ex(refused([&] { rt_same(w.at_front(), v->a[0], "array wrapper at_front"); }), n ? X_FINE : X_RANGE, "array wrapper at_front"); rt_ex(refused([&] { rt_same(w.at_back(), v->a[n - 1], "array wrapper at_back"); }), n ? X_FINE : X_RANGE, "array wrapper at_back"); break;
        case 4: rt_same(w.front(), end_or(v, 0, nullptr), "array wrapper front"); rt_same(w.back(), end_or(v, n - 1, nullptr), "array wrapper back"); break;
        case 5: { auto vs = w.values(); rt_that(vs.size() == n, "array wrapper values"); for (size_t i = 0; i < n; ++i) rt_same(vs[i], v->a[i], "array wrapper values"); break; }
        case 6: walk_arr(w, v, a); break;
        default: rt_that(w.size() == n && w.empty() == v->a.empty() && (bool) w, "array wrapper size"); common(w, h, v, "array wrapper", owns<HT> {}); break;
      }
    }
    template <class HT> static void arr(HT const& h, V const& v, Route const& a) {
      switch (a.which % 9) {
        case 0: { typename H::number i {(int64_t) a.idx}; indexed(h, a, i, "lookup by number wrapper"); break; }
        case 1: { typename P::number i {(int64_t) a.idx}; indexed(h, a, i, "lookup by packet number wrapper"); break; }
        case 2: { H i = H::make_integer((int64_t) a.idx); indexed(h, a, i, "lookup by handle"); break; }
        case 3: rvalue_arr(h, v, a, owns<HT> {}); break;
        case 4: or_arr(h, v, a, owns<HT> {}, is_buf<HT> {}); break;
        case 5: walk_arr(h, v, a); break;
        case 6: arr_wrapper(h, v, a); break;
        case 7: wrappers(h, v); break;
        default: wrong_obj(h, v, a); break;
      }
    }

    // ---- scalars ----------------------------------------------------------------------------------
    template <class HT> static void change_str(HT const& h, V const& v, Route const& a, yes, no) {
      typename HT::string w {h}; typename HT::string c = w;
      V cat, txt; { Out o; Disarm d; cat = mk_str(v->s + a.text); txt = mk_str(a.text); }
      if (a.sub & 1) { c += sv(a.text); rt_same(c.dynamic(), cat, "string wrapper +="); } else { c = sv(a.text); rt_same(c.dynamic(), txt, "string wrapper ="); }
      rt_same(w.dynamic(), v, "string wrapper beside its changed copy"); rt_same(h, v, "string beside its changed copy");
    }
    template <class HT, class X, class Y> static void change_str(HT const&, V const&, Route const&, X, Y) {}
    template <class HT> static void change_num(HT const& h, V const& v, Route const& a, yes, no) {
      typename HT::number w {h}; typename HT::number c = w; V want; bool isint = v->t == T::Int; int64_t n = a.n % 1000 + 1; if (n == 0) n = 3;
      int op = (int) (a.sub % 10); double x = isint ? (double) v->i : v->d;
      int64_t small = 0; if (isint) { small = v->i % 100000; typename HT::number t {H2<HT>(small)}; c = t; }
      { Out o; Disarm d;
        if (isint) { int64_t r = small; switch (op) { case 0: r += n; break; case 1: r -= n; break; case 2: r *= n; break; case 3: r /= n; break; case 4: case 6: ++r; break; case 5: case 7: --r; break; case 8: r = n; break; default: r = n; break; } want = op == 9 ? mk_dec((double) n / 8) : mk_int(r); }
        else { double r = x; switch (op) { case 0: r += (double) n; break; case 1: r -= (double) n; break; case 2: r *= (double) n; break; case 3: r /= (double) n; break; case 4: case 6: r += 1; break; case 5: case 7: r -= 1; break; default: break; } want = op == 8 ? mk_int(n) : op == 9 ? mk_dec((double) n / 8) : mk_dec(r); } }
      switch (op) {
        case 0: c += n; break; case 1: c -= n; break; case 2: c *= n; break; case 3: c /= n; break; case 4: ++c; break; case 5: --c; break;
        case 6: { auto old = c++; rt_that(old.numeric() == (isint ? (double) small : x) || x != x, "number wrapper postfix ++"); break; } case 7: { auto old = c--; rt_that(old.numeric() == (isint ? (double) small : x) || x != x, "number wrapper postfix --"); break; }
        case 8: c = n; break; default: c = (double) n / 8; break;
      }
      if (isint || op >= 8) rt_same(c.dynamic(), want, "number wrapper arithmetic"); else rt_that(c.is_decimal() && (c.decimal() == want->d || want->d != want->d), "number wrapper arithmetic on a decimal");
      rt_same(w.dynamic(), v, "number beside its changed copy"); rt_same(h, v, "number beside its changed copy");
    }
    template <class HT> static HT H2(int64_t n) { return HT::make_integer(n); }
    template <class HT, class X, class Y> static void change_num(HT const&, V const&, Route const&, X, Y) {}
    template <class HT> static void change_flag(HT const& h, V const& v, yes, no) { typename HT::flag w {h}; typename HT::flag c = w; c = !v->b; rt_that(c.boolean() == !v->b && w.boolean() == v->b && h.boolean() == v->b, "flag wrapper ="); }
    template <class HT, class X, class Y> static void change_flag(HT const&, V const&, X, Y) {}
    template <class HT> static void scalar(HT const& h, V const& v, Route const& a) {
      switch (a.which % 4) {
        case 0: wrappers(h, v); return;
        case 1: wrong_obj(h, v, a); return;
        case 2: {
          rt_that(h.is_primitive() == (v->t != T::Null) && !h.is_aggregate(), "scalar predicate");
          bool str = v->t == T::Str, i = v->t == T::Int, d = v->t == T::Dec, b = v->t == T::Bool;
          rt_str(h.strv_or("alt"), str ? v->s : "alt", "strv_or"); char const* alt = "other"; char const* p = h.str_or(alt); rt_that(str ? (p != alt && memcmp(p, v->s.data(), v->s.size() + 1) == 0) : p == alt, "str_or");
          rt_that(h.integer_or(a.n) == (i ? v->i : a.n) && h.boolean_or(a.n & 1) == (b ? v->b : (bool) (a.n & 1)), "integer_or/boolean_or");
          rt_that(bits_eq(h.decimal_or(0.25), d ? v->d : 0.25) && bits_eq(h.numeric_or(0.25), d ? v->d : i ? (double) v->i : 0.25), "decimal_or/numeric_or");
          return; }
        default: break;
      }
      switch (v->t) {
        case T::Str: { typename HT::string w {h}; rt_str(w.strv(), v->s, "string wrapper strv"); rt_str(*w, v->s, "string wrapper *"); rt_that(w.size() == v->s.size() && w.empty() == v->s.empty() && memcmp(w.str(), v->s.c_str(), v->s.size() + 1) == 0, "string wrapper");
          if (!v->s.empty()) { size_t i = a.idx % v->s.size(); rt_that(w[i] == v->s[i], "string wrapper []"); } { dart::shim::string_view s = w; rt_str(s, v->s, "string wrapper to view"); } { std::string s {w}; Out o; Disarm d; if (s != v->s) fail("value", "string wrapper to std::string"); }
          common(w, h, v, "string wrapper", owns<HT> {}); change_str(h, v, a, owns<HT> {}, is_buf<HT> {}); break; }
        case T::Int: case T::Dec: { typename HT::number w {h}; double x = v->t == T::Int ? (double) v->i : v->d; rt_that(bits_eq(w.numeric(), x) && bits_eq(*w, x), "number wrapper");
          rt_ex(refused([&] { rt_that(w.integer() == v->i, "number wrapper integer"); }), v->t == T::Int ? X_FINE : X_TYPE, "number wrapper integer()"); rt_ex(refused([&] { rt_that(bits_eq(w.decimal(), v->d), "number wrapper decimal"); }), v->t == T::Dec ? X_FINE : X_TYPE, "number wrapper decimal()");
          common(w, h, v, "number wrapper", owns<HT> {}); change_num(h, v, a, owns<HT> {}, is_buf<HT> {}); break; }
        case T::Bool: { typename HT::flag w {h}; rt_that(w.boolean() == v->b && *w == v->b && (bool) w == v->b, "flag wrapper"); common(w, h, v, "flag wrapper", owns<HT> {}); change_flag(h, v, owns<HT> {}, is_buf<HT> {}); break; }
        default: { typename HT::null w {h}; intro(w, v, false, 0, "null wrapper"); rt_that(!w && w.dynamic().is_null(), "null wrapper"); break; }
      }
    }
    template <class HT> static void go(HT const& h, V const& v, Route const& a) {
      if (v->t == T::Obj) obj(h, v, a); else if (v->t == T::Arr) arr(h, v, a); else scalar(h, v, a);
    }
  };
  template <template <class> class RC> void RouteTable<RC>::go(H const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
  template <template <class> class RC> void RouteTable<RC>::go(B const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
  template <template <class> class RC> void RouteTable<RC>::go(P const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
  template <template <class> class RC> void RouteTable<RC>::go(typename H::view const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
  template <template <class> class RC> void RouteTable<RC>::go(typename B::view const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
  template <template <class> class RC> void RouteTable<RC>::go(typename P::view const& h, V const& v, Route const& a) { Routes<RC>::go(h, v, a); }
}
