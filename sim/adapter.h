// Moves values between the reference model and real dart handles, and compares
// what a handle reads as (through every access path) with the model.
#pragma once
#include "model.h"
#include <dart.h>

namespace sim {
  inline T tof(dart::detail::type t) {
    switch (t) {
      case dart::detail::type::object: return T::Obj; case dart::detail::type::array: return T::Arr;
      case dart::detail::type::string: return T::Str; case dart::detail::type::integer: return T::Int;
      case dart::detail::type::decimal: return T::Dec; case dart::detail::type::boolean: return T::Bool;
      default: return T::Null;
    }
  }
  inline dart::shim::string_view sv(std::string const& s) { return dart::shim::string_view(s.data(), s.size()); }

  // ---- build: model -> mutable handle (heap or packet) through varying API routes -------
  template <class H> H build(V const& v, Rng& r);
  template <class H> H build_scalar(V const& v) {
    switch (v->t) {
      case T::Null: return H::make_null();
      case T::Bool: return H::make_boolean(v->b);
      case T::Int: return H::make_integer(v->i);
      case T::Dec: return H::make_decimal(v->d);
      default: { if (v->s.size() > 4 && (v->s.size() & 1)) return H::make_string(sv(v->s).substr(0, v->s.size() / 2), sv(v->s).substr(v->s.size() / 2)); return H::make_string(sv(v->s)); }
    }
  }
  template <class H> H build_obj(V const& v, Rng& r) {
    std::vector<Fields::const_iterator> it;
    { Out o; for (auto i = v->o.begin(); i != v->o.end(); ++i) it.push_back(i);
      for (size_t i = it.size(); i > 1; --i) std::swap(it[i - 1], it[r.below(i)]); }
    int style = (int) r.below(4);
    if (style == 0) {
      std::vector<H> pairs; { Out o; pairs.reserve(it.size() * 2); }
      for (auto& f : it) { pairs.push_back(H::make_string(sv(f->first))); pairs.push_back(build<H>(f->second, r)); }
      H h = H::make_object(gsl::span<H const>(pairs.data(), (std::ptrdiff_t) pairs.size()));
      return h;
    }
    H h = H::make_object();
    for (auto& f : it) {
      if (style == 1) h.add_field(sv(f->first), build<H>(f->second, r));
      else if (style == 2) h.insert(sv(f->first), build<H>(f->second, r));
      else { h.add_field(sv(f->first), nullptr); h.set(sv(f->first), build<H>(f->second, r)); }
    }
    return h;
  }
  template <class H> H build_arr(V const& v, Rng& r) {
    int style = (int) r.below(4);
    if (style == 0) {
      std::vector<H> el; { Out o; el.reserve(v->a.size()); }
      for (auto& e : v->a) el.push_back(build<H>(e, r));
      return H::make_array(gsl::span<H const>(el.data(), (std::ptrdiff_t) el.size()));
    }
    H h = H::make_array();
    if (style == 1) { for (auto& e : v->a) h.push_back(build<H>(e, r)); }
    else if (style == 2) { for (size_t i = v->a.size(); i-- > 0;) h.push_front(build<H>(v->a[i], r)); }
    else { h.resize(v->a.size()); for (size_t i = 0; i < v->a.size(); ++i) h.set(i, build<H>(v->a[i], r)); }
    return h;
  }
  template <class H> H build(V const& v, Rng& r) {
    if (v->t == T::Obj) return build_obj<H>(v, r);
    if (v->t == T::Arr) return build_arr<H>(v, r);
    return build_scalar<H>(v);
  }
  // packets may nest finalized objects inside mutable ones
  template <template <class> class RC> dart::basic_packet<RC> build_mixed(V const& v, Rng& r, unsigned fin_pct) {
    using P = dart::basic_packet<RC>;
    if (v->t == T::Obj) {
      P h = P::make_object();
      for (auto& f : v->o) h.add_field(sv(f.first), build_mixed<RC>(f.second, r, fin_pct));
      if (r.chance(fin_pct)) h.finalize();
      return h;
    }
    if (v->t == T::Arr) { P h = P::make_array(); for (auto& e : v->a) h.push_back(build_mixed<RC>(e, r, fin_pct)); return h; }
    return build_scalar<P>(v);
  }

  // ---- compare -----------------------------------------------------------------------------
  struct Cmp {
    int mode = 0;            // access route
    bool noalloc = false;    // only routes that never allocate
    bool absent = true;      // also look up what is not there
    char const* kind = "value";
    std::string path;
    bool nodeep = false;
    bool quiet = false;      // report by return value
    bool bad = false; std::string why;
  };
  inline void cmp_fail(Cmp& c, std::string const& what) {
    in_lib = 0;
    if (c.quiet) { c.bad = true; if (c.why.empty()) c.why = c.path + ": " + what; return; }
    fail(c.kind, "at %s: %s", c.path.empty() ? "." : c.path.c_str(), what.c_str());
  }
#define CMP_CHECK(cond, ...) do { bool ok_; { Lib l_; ok_ = (cond); } if (!ok_) { cmp_fail(c, strf(__VA_ARGS__)); return; } } while (0)

  template <class H> void compare(H const& h, V const& v, Cmp& c);
  struct PathPush { Cmp& c; size_t n; PathPush(Cmp& c, std::string const& s) : c(c), n(c.path.size()) { int s_ = in_lib; in_lib = 0; c.path += s; in_lib = s_; } ~PathPush() { c.path.resize(n); } };

  template <class H> void compare_scalar(H const& h, V const& v, Cmp& c) {
    switch (v->t) {
      case T::Null:
        CMP_CHECK(h.is_null() && !h.is_str() && !h.is_aggregate(), "null predicate wrong");
        CMP_CHECK(h.integer_or(42) == 42 && !h.boolean_or(false), "optional accessor on null ignored its default");
        break;
      case T::Bool:
        CMP_CHECK(h.is_boolean() && h.is_primitive(), "bool predicate wrong");
        CMP_CHECK(h.boolean() == v->b && h.boolean_or(!v->b) == v->b, "boolean differs, expected %d", (int) v->b);
        break;
      case T::Int: {
        CMP_CHECK(h.is_integer() && h.is_numeric() && !h.is_decimal(), "integer predicate wrong");
        int64_t got; { Lib l; got = h.integer(); }
        CMP_CHECK(got == v->i && h.integer_or(v->i ^ 1) == v->i, "integer is %lld, expected %lld", (long long) got, (long long) v->i);
        CMP_CHECK(h.numeric() == (double) v->i, "numeric() differs from %lld", (long long) v->i);
        break; }
      case T::Dec: {
        CMP_CHECK(h.is_decimal() && h.is_numeric() && !h.is_integer(), "decimal predicate wrong");
        double got; { Lib l; got = h.decimal(); }
        CMP_CHECK(bits_eq(got, v->d) && bits_eq(h.decimal_or(1234.5), v->d) && bits_eq(h.numeric(), v->d), "decimal is %.17g, expected %.17g", got, v->d);
        break; }
      case T::Str: {
        CMP_CHECK(h.is_str(), "string predicate wrong");
        dart::shim::string_view s; size_t n; { Lib l; s = h.strv(); n = h.size(); }
        CMP_CHECK(n == v->s.size() && s.size() == v->s.size(), "string has %zu bytes, expected %zu", s.size(), v->s.size());
        CMP_CHECK(memcmp(s.data(), v->s.data(), s.size()) == 0, "string is %s, expected %s", qstr(std::string(s.data(), s.size())).c_str(), qstr(v->s).c_str());
        char const* p; { Lib l; p = h.str(); }
        CMP_CHECK(p[v->s.size()] == 0, "string of %zu bytes is not terminated", v->s.size());
        CMP_CHECK(h.strv_or("no").size() == v->s.size() && h.empty() == v->s.empty(), "strv_or/empty differ");
        break; }
      default: break;
    }
  }
  template <class H> void compare_obj(H const& h, V const& v, Cmp& c) {
    size_t n; { Lib l; n = h.size(); }
    CMP_CHECK(n == v->o.size() && h.empty() == v->o.empty(), "object has %zu fields, expected %zu", n, v->o.size());
    CMP_CHECK(h.is_object() && h.is_aggregate(), "object predicate wrong");
    int mode = c.mode;
    switch (mode) {
      case 0: case 1: case 2:
        for (auto& f : v->o) {
          PathPush pp(c, "[" + qstr(f.first) + "]");
          CMP_CHECK(h.has_key(sv(f.first)), "has_key is false for a present key");
          if (mode == 0) { auto get = [&] { Lib l; return h[sv(f.first)]; }; auto e = get(); compare(e, f.second, c); Lib l; auto drop = std::move(e); }
          else if (mode == 1) { auto get = [&] { Lib l; return h.at(sv(f.first)); }; auto e = get(); compare(e, f.second, c); Lib l; auto drop = std::move(e); }
          else {
            auto fnd = [&] { Lib l; return h.find(sv(f.first)); }; auto it = fnd();
            CMP_CHECK(it != h.end(), "find() missed a present key");
            auto der = [&] { Lib l; return *it; }; auto e = der(); compare(e, f.second, c);
            auto fk = [&] { Lib l; return h.find_key(sv(f.first)); }; auto kt = fk();
            auto kd = [&] { Lib l; return *kt; }; auto k = kd();
            CMP_CHECK(k.strv() == sv(f.first), "find_key() gave %s", qstr(std::string(k.strv().data(), k.strv().size())).c_str());
            Lib l; auto d1 = std::move(e); auto d2 = std::move(k); auto d3 = std::move(it); auto d4 = std::move(kt);
          }
          if (c.bad) return;
        }
        break;
      case 3: {
        auto kb = [&] { Lib l; return h.kvbegin(); }; auto kv = kb(); auto en = [&] { Lib l; return h.end(); }; auto end = en();
        auto& k = std::get<0>(kv); auto& it = std::get<1>(kv);
        for (auto& f : v->o) {
          PathPush pp(c, "{" + qstr(f.first) + "}");
          CMP_CHECK(it != end, "iteration ended early");
          auto dk = [&] { Lib l; return *k; }; auto dv = [&] { Lib l; return *it; };
          auto key = dk(); auto val = dv();
          V km = mk_str(f.first); { auto save = c.mode; compare(key, km, c); c.mode = save; }
          compare(val, f.second, c);
          if (c.bad) return;
          Lib l; ++k; ++it; auto d1 = std::move(key); auto d2 = std::move(val);
        }
        CMP_CHECK(it == end, "iteration has extra elements");
        Lib l; auto d1 = std::move(kv); auto d2 = std::move(end);
        break; }
      case 4: {   // listings and reverse iteration; allocate
        if (c.noalloc) { c.mode = 3; compare_obj(h, v, c); c.mode = 4; return; }
        auto ks = [&] { Lib l; return h.keys(); }; auto vs = [&] { Lib l; return h.values(); };
        auto keys = ks(); auto vals = vs();
        CMP_CHECK(keys.size() == v->o.size() && vals.size() == v->o.size(), "keys()/values() list %zu/%zu entries, expected %zu", keys.size(), vals.size(), v->o.size());
        size_t i = 0;
        for (auto& f : v->o) {
          PathPush pp(c, "<" + qstr(f.first) + ">");
          CMP_CHECK(keys[i].strv() == sv(f.first), "keys() out of order or wrong");
          compare(vals[i], f.second, c); if (c.bad) return; ++i;
        }
        auto rb = [&] { Lib l; return h.rbegin(); }; auto re = [&] { Lib l; return h.rend(); };
        auto a = rb(); auto b = re(); auto m = v->o.rbegin();
        for (; m != v->o.rend(); ++m) {
          PathPush pp(c, "~" + qstr(m->first));
          CMP_CHECK(a != b, "reverse iteration ended early");
          auto d = [&] { Lib l; return *a; }; auto e = d(); int save = c.mode; c.mode = 0; compare(e, m->second, c); c.mode = save; if (c.bad) return;
          Lib l; ++a; auto d1 = std::move(e);
        }
        CMP_CHECK(a == b, "reverse iteration has extra elements");
        Lib l; auto d1 = std::move(keys); auto d2 = std::move(vals); auto d3 = std::move(a); auto d4 = std::move(b);
        break; }
    }
    if (c.absent) {
      // a handful of keys that are not there, neighbours of the ones that are
      char probe_[2] = {'~', 0}; std::string cand[4] = {std::string(probe_), "", "", ""}; int nc = 1;
      if (!v->o.empty()) {
        std::string const& k = v->o.begin()->first; std::string const& z = v->o.rbegin()->first;
        if (z.size() < 70000) cand[nc++] = z + std::string(1, '\0');
        if (!k.empty()) { std::string q = k; q[q.size() - 1] = (char) (q[q.size() - 1] ^ 0x80); cand[nc++] = q; }
        if (z.size() > 1) cand[nc++] = z.substr(0, z.size() - 1);
      }
      for (int i = 0; i < nc; ++i) if (!v->o.count(cand[i])) {
        std::string& k = cand[i]; PathPush pp(c, "!" + qstr(k));
        CMP_CHECK(!h.has_key(sv(k)), "has_key is true for an absent key");
        CMP_CHECK(h[sv(k)].is_null(), "subscript of an absent key is not null");
        CMP_CHECK(h.find(sv(k)) == h.end(), "find() of an absent key is not end()");
        if (!c.noalloc && i == 0) {
          bool thrown = false; try { Lib l; (void) h.at(sv(k)); } catch (std::out_of_range const&) { thrown = true; }
          CMP_CHECK(thrown, "at() of an absent key did not throw out_of_range");
        }
      }
    }
  }
  template <class H> void compare_arr(H const& h, V const& v, Cmp& c) {
    size_t n; { Lib l; n = h.size(); }
    CMP_CHECK(n == v->a.size() && h.empty() == v->a.empty(), "array has %zu elements, expected %zu", n, v->a.size());
    CMP_CHECK(h.is_array() && h.is_aggregate() && h.capacity() >= n, "array predicate wrong");
    if (c.mode <= 2) {
      for (size_t i = 0; i < n; ++i) {
        PathPush pp(c, strf("[%zu]", i));
        auto get = [&] { Lib l; if (c.mode == 0) return h[i]; if (c.mode == 1) return h.at(i); return h.get(i); };
        auto e = get(); compare(e, v->a[i], c); if (c.bad) return;
        Lib l; auto d = std::move(e);
      }
      if (n) {
        { PathPush pp(c, ".front"); auto f = [&] { Lib l; return c.mode == 1 ? h.at_front() : h.front(); }; auto e = f(); if (v->a[0]->t <= T::Str) compare(e, v->a[0], c); Lib l; auto d = std::move(e); }
        { PathPush pp(c, ".back"); auto f = [&] { Lib l; return c.mode == 1 ? h.at_back() : h.back(); }; auto e = f(); if (v->a[n - 1]->t <= T::Str) compare(e, v->a[n - 1], c); Lib l; auto d = std::move(e); }
      } else { CMP_CHECK(h.front().is_null() && h.back().is_null(), "front/back of an empty array is not null"); }
    } else if (c.mode == 3 || c.noalloc) {
      auto b = [&] { Lib l; return h.begin(); }; auto e_ = [&] { Lib l; return h.end(); }; auto it = b(); auto end = e_();
      for (size_t i = 0; i < n; ++i) {
        PathPush pp(c, strf("{%zu}", i));
        CMP_CHECK(it != end, "iteration ended early");
        auto d = [&] { Lib l; return *it; }; auto e = d(); compare(e, v->a[i], c); if (c.bad) return;
        Lib l; ++it; auto d1 = std::move(e);
      }
      CMP_CHECK(it == end, "iteration has extra elements");
      Lib l; auto d1 = std::move(it); auto d2 = std::move(end);
    } else {
      auto vs = [&] { Lib l; return h.values(); }; auto vals = vs();
      CMP_CHECK(vals.size() == n, "values() lists %zu entries, expected %zu", vals.size(), n);
      for (size_t i = 0; i < n; ++i) { PathPush pp(c, strf("<%zu>", i)); compare(vals[i], v->a[i], c); if (c.bad) return; }
      auto b = [&] { Lib l; return h.rbegin(); }; auto e_ = [&] { Lib l; return h.rend(); }; auto it = b(); auto end = e_();
      for (size_t i = n; i-- > 0;) {
        PathPush pp(c, strf("~%zu", i)); CMP_CHECK(it != end, "reverse iteration ended early");
        auto d = [&] { Lib l; return *it; }; auto e = d(); int s = c.mode; c.mode = 0; compare(e, v->a[i], c); c.mode = s; if (c.bad) return; Lib l; ++it; auto d1 = std::move(e);
      }
      CMP_CHECK(it == end, "reverse iteration has extra elements");
      Lib l; auto d1 = std::move(vals); auto d2 = std::move(it); auto d3 = std::move(end);
    }
    if (c.absent) {
      CMP_CHECK(h[n].is_null() && h.get(n + 7).is_null(), "subscript past the end is not null");
      if (!c.noalloc && c.mode == 1) {
        bool thrown = false; try { Lib l; (void) h.at(n); } catch (std::out_of_range const&) { thrown = true; }
        CMP_CHECK(thrown, "at() past the end did not throw out_of_range");
      }
    }
  }
  template <class H> void compare(H const& h, V const& v, Cmp& c) {
    T t; { Lib l; t = tof(h.get_type()); }
    if (t != v->t) { cmp_fail(c, strf("has type %d, expected %s", (int) t, show(v, 60).c_str())); return; }
    if (t == T::Obj) compare_obj(h, v, c); else if (t == T::Arr) compare_arr(h, v, c); else compare_scalar(h, v, c);
  }

  // Reads a handle out as a model value (used where no expectation exists).
  template <class H> V extract(H const& h, size_t budget = 20000) {
    T t; { Lib l; t = tof(h.get_type()); }
    switch (t) {
      case T::Null: return mk();
      case T::Bool: { Lib l; bool b = h.boolean(); Out o; return mk_bool(b); }
      case T::Int: { Lib l; auto i = h.integer(); Out o; return mk_int(i); }
      case T::Dec: { Lib l; auto d = h.decimal(); Out o; return mk_dec(d); }
      case T::Str: { Lib l; auto s = h.strv(); Out o; return mk_str(std::string(s.data(), s.size())); }
      case T::Arr: { std::vector<V> a; size_t n; { Lib l; n = h.size(); } for (size_t i = 0; i < n && i < budget; ++i) { auto g = [&] { Lib l; return h[i]; }; auto e = g(); a.push_back(extract(e, budget)); Lib l; auto d = std::move(e); } return mk_arr(std::move(a)); }
      default: {
        Fields f; auto kb = [&] { Lib l; return h.kvbegin(); }; auto kv = kb(); auto en = [&] { Lib l; return h.end(); }; auto end = en();
        for (;;) {
          bool more; { Lib l; more = std::get<1>(kv) != end; } if (!more) break;
          auto dk = [&] { Lib l; return *std::get<0>(kv); }; auto dv = [&] { Lib l; return *std::get<1>(kv); };
          auto k = dk(); auto v = dv(); std::string ks; { Lib l; auto s = k.strv(); Out o; ks.assign(s.data(), s.size()); }
          f[ks] = extract(v, budget); Lib l; ++std::get<0>(kv); ++std::get<1>(kv); auto d1 = std::move(k); auto d2 = std::move(v);
        }
        Lib l; auto d1 = std::move(kv); auto d2 = std::move(end);
        Out o; return mk_obj(std::move(f)); }
    }
  }
}
