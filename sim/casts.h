// Casts engine: a history of conversions between native types and handles, with seeded allocation failures.
#pragma once
#include "routes.h"
#include "natives.h"

namespace sim {
  template <template <class> class RC> using basic_packet_of = dart::basic_packet<RC>;
  enum CastOp { X_TO, X_INTO, X_FROM, X_CMP, X_LITM, X_FIN, X_COPY, X_DROP, X_NOPS };
  constexpr int CS = 6;

  template <template <class> class RC> struct CastWorld {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    struct Slot { Kind kind = K_NONE; V v = mk(); int type = 0; Opt<H> h; Opt<B> b; Opt<P> p; };
    struct Entry { char const* name; void (*run)(CastWorld&, Op const&); };
    using Group = std::vector<Entry>;
    Slot s[CS]; Plan const& plan; int opi = 0; std::vector<Entry> types; int cur = 0;
    explicit CastWorld(Plan const& p) : plan(p) { Group a = group_seq(), b = group_map(), c = group_misc(), d = group_deep(); for (auto* g : {&a, &b, &c, &d}) types.insert(types.end(), g->begin(), g->end()); }
    static Group group_seq(); static Group group_map(); static Group group_misc(); static Group group_deep();

    template <class F> void visit(Slot& t, F&& f) { switch (t.kind) { case K_H: f(*t.h); break; case K_B: f(*t.b); break; case K_P: f(*t.p); break; default: break; } }
    void wipe(int i) { s[i].h.reset(); s[i].b.reset(); s[i].p.reset(); s[i].kind = K_NONE; s[i].v = mk(); }
    bool reads(Slot& t, V const& v, std::string* why) { Cmp c; c.mode = (opi + (int) (&t - s)) % 4; c.quiet = true; visit(t, [&] (auto& h) { compare(h, v, c); }); *why = c.why; return !c.bad; }
    void check_all(char const* when, int except = -1) { std::string why; for (int i = 0; i < CS; ++i) if (i != except && s[i].kind != K_NONE && !reads(s[i], s[i].v, &why)) fail("value", "slot %d no longer reads as its own value %s: %s", i, when, why.c_str()); }
    int any(i64 a, bool mut = false) { for (int k = 0; k < CS; ++k) { int i = (int) (((u64) a + (u64) k) % CS); if (s[i].kind == K_NONE) continue; if (!mut) return i; bool fin = true; visit(s[i], [&] (auto& h) { Lib l; fin = h.is_finalized(); }); if (!fin && (s[i].v->t == T::Obj || s[i].v->t == T::Arr)) return i; } return -1; }
    char const* name() { return types[(size_t) cur].name; }

    // once with the planned fault, then for real; f leaves nothing behind when it fails
    template <class F> Ex act(Op const& op, F&& f, Ex want, char const* what, int target = -1, V newv = nullptr, bool open = false) {
      if (op.fk) {
        Ex o; u64 fired; { Arm arm(op.fk, op.fn); o = attempt(f); fired = fault.fired; }
        if (fired) {
          probe(o == X_FINE ? "fault:absorbed" : "fault:reported"); check_all("after a failed allocation", target);
          if (o != X_OOM && o != want && !open) fail("outcome", "%s (%s) ended with %s under a failed allocation, expected %s or bad_alloc", what, name(), ex_names[o], ex_names[want]);
          if (target >= 0) { std::string w1, w2; bool is_old = reads(s[target], s[target].v, &w1), is_new = newv && reads(s[target], newv, &w2);
            if (o == X_FINE && want == X_FINE && newv && !is_new) fail("value", "%s (%s) reported success under a failed allocation, but: %s", what, name(), w2.c_str());
            if (!is_old && !is_new) fail("value", "%s (%s): after a failed allocation neither the old nor the new value: %s / %s", what, name(), w1.c_str(), w2.c_str());
            if (is_new && !is_old) return X_FINE; if (o == X_FINE) return o; }
          probe("fault:retried");
        } else if (o == want || open) return o; else fail("outcome", "%s (%s) ended with %s, expected %s", what, name(), ex_names[o], ex_names[want]);
      }
      Ex o = attempt(f); if (o != want && !open) fail("outcome", "%s (%s) ended with %s, expected %s", what, name(), ex_names[o], ex_names[want]);
      return o;
    }
    Opt<H>& cell(Slot& t, H*) { return t.h; } Opt<P>& cell(Slot& t, P*) { return t.p; }

    void common(Op const& op) {
      switch (op.code) {
        case X_FIN: { int a = any(op.a[0]); if (a < 0 || s[a].kind == K_B) return; int d = (int) ((u64) op.a[1] % CS); Slot& f = s[a]; bool obj = f.v->t == T::Obj; V v = f.v; int ty = f.type; Opt<B> b;   // finalize, inside another object when it is none itself
          attempt([&] { visit(f, [&] (auto& h) { using HT = std::decay_t<decltype(h)>; if (obj) { HT c = h; b.with([&] { return B {c.finalize()}; }); } else { HT o = HT::make_object("x", h); b.with([&] { B w {o.finalize()}; return w["x"]; }); } }); });
          wipe(d); s[d].kind = K_B; s[d].v = v; s[d].type = ty; s[d].b.take(b); break; }
        case X_COPY: { int a = any(op.a[0]); int d = (int) ((u64) op.a[1] % CS); if (a < 0 || a == d) return; wipe(d); Slot& t = s[d]; Slot& f = s[a]; { Lib l; switch (f.kind) { case K_H: t.h.with([&] { return *f.h; }); break; case K_B: if (op.a[2] & 1) { t.p.with([&] { return P {*f.b}; }); } else t.b.with([&] { return *f.b; }); break; default: t.p.with([&] { return *f.p; }); } } t.kind = t.p.has ? K_P : f.kind; t.v = f.v; t.type = f.type; break; }
        default: { int a = any(op.a[0]); if (a >= 0) wipe(a); }
      }
    }
    void run() {
      for (auto& op : plan.ops) {
        set_op(opi); u64 k = 0; for (int i = 0; i < CS; ++i) k = k * 64 + (u64) s[i].kind * 8 + (u64) s[i].v->t;
        cur = (int) ((u64) op.a[3] % types.size()); if ((op.code == X_FROM || op.code == X_CMP) && (u64) op.a[4] % 100 < 65) { int a = any(op.a[0]); if (a >= 0) cur = s[a].type; }
        note_history(mix(mix((u64) op.code, k), mix((u64) cur, (u64) op.a[2]))); note_state(mix(k, mix((u64) op.code, (u64) cur)));
        if (op.code >= X_FIN) common(op); else types[(size_t) cur].run(*this, op);
        logf("%d %d %s", opi, op.code, name()); check_all("after this step"); ++opi;
      }
      set_op(opi); for (int i = 0; i < CS; ++i) wipe(i);
      if (mem.live_blocks > mem.base) suspect("leak", "everything was destroyed but storage is still held: %s", mem_describe_leaks().c_str());
    }
  };

  template <template <class> class RC, class N> struct CastOf {
    using W = CastWorld<RC>; using H = typename W::H; using B = typename W::B; using P = typename W::P; using Na = Nat<N>;
    static N twin(N const& n) { Disarm d; return n; }
    static void run(W& w, Op const& op) {
      Rng r((u64) op.a[5] * 0x10001 + (u64) op.a[1]);
      switch (op.code) {
        case X_TO: if (op.a[2] & 1) to<H>(w, op, r, K_H); else to<P>(w, op, r, K_P); break;
        case X_INTO: { int a = w.any(op.a[0], true); if (a < 0) return; if (w.s[a].kind == K_H) into(w, op, r, a, *w.s[a].h); else into(w, op, r, a, *w.s[a].p); break; }
        case X_FROM: { int a = w.any(op.a[0]); if (a < 0) return; V v = w.s[a].v; w.visit(w.s[a], [&] (auto& h) { from(w, op, h, v); }); break; }
        case X_CMP: { int a = w.any(op.a[0]); if (a < 0) return; V v = w.s[a].v; w.visit(w.s[a], [&] (auto& h) { cmp(w, op, r, h, v); }); break; }
        default: { int d = (int) ((u64) op.a[0] % CS); w.wipe(d); V v = Na::to(Na::gen(r)); for (u64 k = r.below(3); k > 0; --k) v = vary(v, r, nat_cfg()); auto& t = w.s[d]; Lib l; if (op.a[2] & 1) { t.h.with([&] { return build<H>(v, r); }); t.kind = K_H; } else { t.p.with([&] { return op.a[2] & 2 ? build_mixed<RC>(v, r, 40) : build<P>(v, r); }); t.kind = K_P; } t.v = v; t.type = w.cur; }
      }
    }
    template <class HT> static void to(W& w, Op const& op, Rng& r, Kind k) {
      N n = Na::gen(r); V v = Na::to(n); int d = (int) ((u64) op.a[0] % CS); int style = (int) ((u64) op.a[2] / 2 % 6); Opt<HT> res; V want = v; w.wipe(d);
      if (style == 4) want = mk_arr({v, mk_int(7), v}); if (style == 5) { Fields f; f["n"] = v; f["m"] = v; want = mk_obj(f); }
      bool ok = makes(n);
      w.act(op, [&] { res.with([&] () -> HT {
        switch (style) {
          case 0: return dart::convert::cast<HT>(n);
          case 1: { N m = twin(n); return dart::convert::cast<HT>(std::move(m)); }
          case 2: { N const c = twin(n); return dart::convert::cast<HT>(c); }
          case 3: { HT a = HT::make_array(); N m = twin(n); a.push_back(std::move(m)); return a[0]; }
          case 4: { N m = twin(n); return HT::make_array(n, 7, std::move(m)); }
          default: { N m = twin(n); return HT::make_object("n", n, "m", std::move(m)); }
        } }); }, ok ? X_FINE : X_TYPE, "converting to a value"); if (!ok) return;
      auto& t = w.s[d]; t.kind = k; t.v = want; t.type = w.cur; w.cell(t, (HT*) nullptr).take(res);
      { Lib l; bool e = true, x = true; if (style < 4) { auto& h = w.cell(t, (HT*) nullptr).get(); e = h == n; x = h != n; } else x = false; in_lib = 0; if (!e || x) fail("value", "a value made from a native (%s) does not equal it", w.name()); in_lib = 1; }
    }
    template <class HT> static void into(W& w, Op const& op, Rng& r, int a, HT& h) {
      N n = Na::gen(r); if (!makes(n)) return; V v = Na::to(n); auto& t = w.s[a]; V nv; int style = (int) ((u64) op.a[2] % 6); bool mv = op.a[4] & 1; std::string key; size_t idx = 0;
      if (t.v->t == T::Arr) { auto x = t.v->a; if (x.size() > 60) return; if (style >= 4 && x.empty()) style = 0; idx = x.empty() ? 0 : r.below(x.size() + (style < 4)); if (style == 0 || style == 3) { idx = x.size(); x.push_back(v); } else if (style == 1) x.insert(x.begin(), v); else if (style == 2) x.insert(x.begin() + (long) idx, v); else { if (idx >= x.size()) idx = 0; x[idx] = v; } nv = mk_arr(x); }
      else { auto x = t.v->o; if (x.size() > 60) return; if (style >= 4 && x.empty()) style = 0; if (style >= 4 || (!x.empty() && r.chance(40))) { auto i = x.begin(); std::advance(i, (long) r.below(x.size())); key = i->first; } else key = nat_key(r); x[key] = v; nv = mk_obj(x); }
      bool arr = t.v->t == T::Arr; dart::shim::string_view k = sv(key);
      auto go = [&] (auto&& x) {
        using X = decltype(x);
        if (arr) switch (style) { case 0: case 3: h.push_back(std::forward<X>(x)); break; case 1: h.push_front(std::forward<X>(x)); break; case 2: h.insert(idx, std::forward<X>(x)); break; default: h.set(idx, std::forward<X>(x)); }
        else switch (style) { case 0: case 1: h.add_field(k, std::forward<X>(x)); break; case 2: case 3: h.insert(k, std::forward<X>(x)); break; default: h.set(k, std::forward<X>(x)); }
      };
      w.act(op, [&] { if (mv) { N m = twin(n); go(std::move(m)); } else go(n); }, X_FINE, "storing a native value", a, nv);
      t.v = nv; t.type = w.cur;
    }
    static void got(W& w, N const& x, V const& want, char const* what) { Out o; Disarm d; V g = Na::to(x); if (Hashed<N>::value ? !eq(sorted(g), sorted(want)) : !eq(g, want)) fail("value", "%s (%s) gave %s, expected %s", what, w.name(), show(g).c_str(), show(want).c_str()); }
    template <class HT> static N via_wrapper(HT const& h, std::integral_constant<Shape, S_ARR>) { typename HT::array a {h}; return dart::convert::cast<N>(a); }
    template <class HT> static N via_wrapper(HT const& h, std::integral_constant<Shape, S_OBJ>) { typename HT::object a {h}; return dart::convert::cast<N>(a); }
    template <class HT> static N via_wrapper(HT const& h, std::integral_constant<Shape, S_OTHER>) { return h.template as<N>(); }
    template <class HT> static void from(W& w, Op const& op, HT const& h, V const& v) { from_(w, op, h, v, readable<N> {}); }
    template <class X, class = void> struct readable : std::true_type {};
    template <class E> struct readable<gsl::span<E>> : std::false_type {};
    template <class HT> static void from_(W&, Op const&, HT const&, V const&, std::false_type) {}
    template <class HT> static void from_(W& w, Op const& op, HT const& h, V const& v, std::true_type) {
      int fit = Na::fits(v); bool open = fit == OPEN; V want = fit == FITS ? Na::to(Na::from(v)) : mk(); u64 blocks = mem.live_blocks; int style = (int) ((u64) op.a[2] % 8); auto judge = [&] (N const& x) { if (fit == FITS) got(w, x, want, "reading a value back"); };
      w.act(op, [&] {
        switch (style) {
          case 0: { N x = h.template as<N>(); judge(x); break; }
          case 1: { N x = dart::convert::cast<N>(h); judge(x); break; }
          case 2: { HT c = h; N x = std::move(c).template as<N>(); judge(x); break; }
          case 3: { typename HT::view y = h; N x = y.template as<N>(); judge(x); break; }
          case 4: { N x = h.operator N(); judge(x); break; }
          case 5: { u64 before = fault.fired; auto x = h.template maybe_as<N>(); bool hit = fault.fired != before; Out o; Disarm d; bool has = present(x); if (!open && !hit && has != (fit == FITS)) fail("value", "maybe_as (%s) %s", w.name(), has ? "found something where nothing fits" : "found nothing"); if (has) judge(value(x)); if (fit == NO) throw dart::type_error(""); break; }
          case 7: { if (!((Na::shape == S_ARR && v->t == T::Arr) || (Na::shape == S_OBJ && v->t == T::Obj))) { N x = h.template as<N>(); judge(x); break; } N x = via_wrapper(h, std::integral_constant<Shape, Na::shape> {}); judge(x); break; }
          default: { HT c = h; u64 before = fault.fired; auto x = std::move(c).template maybe_as<N>(); bool hit = fault.fired != before; Out o; Disarm d; bool has = present(x); if (!open && !hit && has != (fit == FITS)) fail("value", "maybe_as of a temporary (%s) %s", w.name(), has ? "found something where nothing fits" : "found nothing"); if (has) judge(value(x)); if (fit == NO) throw dart::type_error(""); break; }
        }
      }, fit == NO ? X_TYPE : X_FINE, "reading a value back", -1, nullptr, open);
      if (mem.live_blocks != blocks) suspect("leak", "reading a value back (%s) left %lld blocks behind", w.name(), (long long) (mem.live_blocks - blocks));
    }
    static bool present(dart::shim::optional<N> const& x) { return (bool) x; } static N const& value(dart::shim::optional<N> const& x) { return *x; }
    template <class X> static bool present(X const&) { return true; } template <class X> static N const& value(X const& x) { return x; }
    template <class HT> using can = std::integral_constant<bool, dart::convert::are_comparable<N, HT>::value>;
    template <class HT> static bool alike(HT const& h, N const& n, std::true_type, bool) { return h == n; }
    template <class HT> static bool alike(HT const&, N const&, std::false_type, bool want) { return want; }
    template <class HT> static void cmp(W& w, Op const& op, Rng& r, HT const& h, V const& v) { cmp_(w, op, r, h, v, can<HT> {}); }
    template <class HT> static void cmp_(W&, Op const&, Rng&, HT const&, V const&, std::false_type) {}
    template <class HT> static void cmp_(W& w, Op const& op, Rng& r, HT const& h, V const& v, std::true_type) {
      int fit = Na::fits(v); N n = fit == FITS && readable<N>::value && r.chance(60) ? Na::from(v) : Na::gen(r);
      V x; if (fit == FITS && r.chance(45)) { x = vary(Na::to(n), r, nat_cfg()); if (Na::fits(x) == FITS && readable<N>::value) n = Na::from(x); }
      bool want = Na::same(v, n); u64 blocks = mem.live_blocks; int style = (int) ((u64) op.a[2] % 6);
      w.act(op, [&] {
        bool g;
        switch (style) { case 0: g = h == n; break; case 1: g = n == h; break; case 2: g = !(h != n); break; case 3: { typename HT::view y = h; g = alike(y, n, can<typename HT::view> {}, want); break; } case 4: g = dart::convert::compare(h, n); break;
          default: if (v->t == T::Obj) { typename HT::object o {h}; g = o == n; } else if (v->t == T::Arr) { typename HT::array o {h}; g = n == o; } else g = !(n != h); }
        if (g != want) { Out o; Disarm d; fail("value", "a value %s compares %s to a native (%s) worth %s", show(v).c_str(), g ? "equal" : "unequal", w.name(), show(Na::to(n)).c_str()); }
      }, X_FINE, "comparing with a native value");
      if (mem.live_blocks != blocks) suspect("leak", "comparing with a native value (%s) left %lld blocks behind", w.name(), (long long) (mem.live_blocks - blocks));
    }
  };
#define CAST_ENTRY(...) {#__VA_ARGS__, &CastOf<RC, __VA_ARGS__>::run}
  void casts_run_shared(Plan const&); void casts_run_skinny(Plan const&);
}
