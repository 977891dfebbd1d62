#pragma once
#include "hist.h"

namespace sim {
  constexpr int NS = 8;

  inline bool json_safe(V const& v) {
    switch (v->t) {
      case T::Dec: return std::isfinite(v->d);
      case T::Arr: for (auto& e : v->a) if (!json_safe(e)) return false; return true;
      case T::Obj: for (auto& f : v->o) if (!json_safe(f.second)) return false; return true;
      default: return true;
    }
  }
  inline bool has_nul(std::string const& s) { return s.find('\0') != std::string::npos; }
  std::string damage_text(std::string s, Rng& r, int& what);
  std::string yaml_text(V const& v, Rng& r); std::string yaml_lines(V const& v);
  V yaml_value(V const& v);

  template <template <class> class RC, template <class> class RC2> struct World {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    using HV = typename H::view; using BV = typename B::view; using PV = typename P::view;
    using PO = typename P::object; using PA = typename P::array; using HO = typename H::object;
    using HIT = typename H::iterator; using BIT = typename B::iterator; using PIT = typename P::iterator;
    using Bytes = std::unique_ptr<gsl::byte const[], void (*)(gsl::byte const*)>;
    using Shared = RC<gsl::byte const>;

    struct Slot {
      Kind kind = K_NONE; V v = mk(); int parent = -1;
      i64 fam = 0;                              // ownership family of the root storage (0 = not tracked)
      Opt<H> h; Opt<B> b; Opt<P> p; Opt<HV> hv; Opt<BV> bv; Opt<PV> pv; Opt<PO> po; Opt<PA> pa; Opt<HO> ho;
      Opt<HIT> hit; Opt<BIT> bit; Opt<PIT> pit; Opt<Bytes> byt; size_t nbytes = 0;
      std::vector<V> seq; std::vector<std::string> keyseq; size_t pos = 0; bool keys = false, frombuf = false;
    };
    Slot s[NS];
    struct Fam { int live = 0; bool escaped = false; };
    std::map<i64, Fam> fams; i64 nextfam = 1;
    Plan const& plan; Obs& obs; GenCfg g; std::vector<std::string> keys; int opi = 0; bool faults_seen = false;
    int ops_after_fault = 0;

    World(Plan const& p, Obs& o) : plan(p), obs(o) {
      g.maxdepth = (int) p.get("depth", 2); g.maxwidth = (int) p.get("width", 4); g.json = p.get("json") != 0; g.nonfinite = p.get("nonfinite") != 0; g.big = p.get("big") != 0;
      Rng r((u64) p.get("keyseed", 1));
      for (int i = 0; i < 7; ++i) keys.push_back(gen_key(r, g));
      keys.push_back("a");
    }

    // ---- small helpers -------------------------------------------------------------------
    static bool value_kind(Kind k) { return k >= K_H && k <= K_HO; }
    static bool owning(Kind k) { return k == K_H || k == K_B || k == K_P || k == K_PO || k == K_PA || k == K_HO; }
    static bool is_view(Kind k) { return k == K_HV || k == K_BV || k == K_PV; }
    template <class F> void visit(Slot& t, F&& f) {
      switch (t.kind) {
        case K_H: f(*t.h); break; case K_B: f(*t.b); break; case K_P: f(*t.p); break;
        case K_HV: f(*t.hv); break; case K_BV: f(*t.bv); break; case K_PV: f(*t.pv); break;
        case K_PO: f((*t.po).dynamic()); break; case K_PA: f((*t.pa).dynamic()); break; case K_HO: f((*t.ho).dynamic()); break;
        default: break;
      }
    }
    bool finalized(Slot& t) { bool r = false; visit(t, [&] (auto& h) { Lib l; r = h.is_finalized(); }); return r; }
    size_t refcount(Slot& t) { size_t r = 0; visit(t, [&] (auto& h) { Lib l; r = h.refcount(); }); return r; }
    int any(i64 a, bool (*ok)(Kind)) { for (int k = 0; k < NS; ++k) { int i = (int) (((u64) a + (u64) k) % NS); if (ok(s[i].kind)) return i; } return -1; }
    int any_where(i64 a, std::function<bool(Slot&)> ok) { for (int k = 0; k < NS; ++k) { int i = (int) (((u64) a + (u64) k) % NS); if (ok(s[i])) return i; } return -1; }
    int dst(i64 a) { int d = (int) ((u64) a % NS); return d; }

    void leave(Slot& t) { if (t.fam) { auto it = fams.find(t.fam); if (it != fams.end() && --it->second.live == 0) fams.erase(it); t.fam = 0; } }
    void join(Slot& t, i64 f) { if (f) { ++fams[f].live; } t.fam = f; }
    i64 fresh() { return nextfam++; }
    void escape(Slot& t) { if (t.fam) fams[t.fam].escaped = true; }

    // destroys a slot; anything that only borrows from it goes first
    void clear_deps(int i) { for (int k = 0; k < NS; ++k) if (k != i && s[k].parent == i) wipe(k); }
    void wipe(int i) {
      clear_deps(i); Slot& t = s[i];
      if (t.kind == K_NONE) return;
      t.h.reset(); t.b.reset(); t.p.reset(); t.hv.reset(); t.bv.reset(); t.pv.reset(); t.po.reset(); t.pa.reset(); t.ho.reset(); t.hit.reset(); t.bit.reset(); t.pit.reset(); t.byt.reset();
      leave(t); t.kind = K_NONE; t.parent = -1; t.v = mk(); t.seq.clear(); t.keyseq.clear();
    }
    Slot& put(int i, Kind k, V v, i64 fam) { wipe(i); Slot& t = s[i]; t.kind = k; t.v = std::move(v); t.parent = -1; join(t, fam); return t; }

    // ---- checking ---------------------------------------------------------------------------
    bool reads_as(Slot& t, V const& v, int mode, std::string* why = nullptr) {
      Cmp c; c.mode = mode; c.quiet = true; visit(t, [&] (auto& h) { compare(h, v, c); });
      if (why) *why = c.why; return !c.bad;
    }
    void check_slot(int i, int mode, char const* when) {
      Slot& t = s[i];
      if (t.kind == K_NONE) return;
      if (value_kind(t.kind)) {
        std::string why;
        if (!reads_as(t, t.v, mode, &why)) fail("value", "slot %d (%s) no longer reads as its own value %s: %s", i, kind_names[t.kind], when, why.c_str());
        check_count(i, when);
      } else if (t.kind == K_BYT) {
        std::string ref = t.keyseq.empty() ? "" : t.keyseq[0];
        if (t.nbytes != ref.size() || memcmp((*t.byt).get(), ref.data(), ref.size())) fail("value", "slot %d: duplicated bytes changed %s", i, when);
      } else check_iter(i, when);
    }
    void check_iter(int i, char const* when) {
      Slot& t = s[i];
      auto one = [&] (auto& it) {
        if (t.pos < t.seq.size()) {
          auto d = [&] { Lib l; return *it; }; auto e = d(); Cmp c; c.quiet = true; c.mode = 0; compare(e, t.keys ? mk_str(t.keyseq[t.pos]) : t.seq[t.pos], c);
          { Lib l; auto x = std::move(e); }
          if (c.bad) fail("value", "slot %d (%s at position %zu) no longer denotes its element %s: %s", i, kind_names[t.kind], t.pos, when, c.why.c_str());
        }
      };
      if (t.kind == K_HIT) one(*t.hit); else if (t.kind == K_BIT) one(*t.bit); else one(*t.pit);
    }
    void check_count(int i, char const* when) {
      Slot& t = s[i]; if (!owning(t.kind)) return;
      if (t.v->t == T::Null) { if (size_t n = refcount(t)) fail("count", "slot %d (%s) is null and reports %zu owners %s", i, kind_names[t.kind], n, when); return; }
      if (!t.fam) return;
      size_t rc = refcount(t); Fam& f = fams[t.fam];
      if (rc < (size_t) f.live || (!f.escaped && rc != (size_t) f.live))
        fail("count", "slot %d (%s) reports %zu owners %s, %s%d exist", i, kind_names[t.kind], rc, when, f.escaped ? "at least " : "", f.live);
    }
    void check_all(char const* when, int except = -1) {
      for (int i = 0; i < NS; ++i) if (i != except) check_slot(i, (opi + i) % 5, when);
    }
    void observe(char const* what, Ex e) {
      if (!obs.on) return;
      std::string o = strf("%d %s %s", opi, what, ex_names[e]);
      for (int i = 0; i < NS; ++i) if (value_kind(s[i].kind)) o += strf(" %d:%s/%zu/%d", i, kind_names[s[i].kind], refcount(s[i]), (int) finalized(s[i]));
      obs.add(o);
    }
    void log(char const* what, int a, int b, Ex e) { logf("%d %s %d %d %s", opi, what, a, b, ex_names[e]); observe(what, e); }

    // One library operation, first with the planned allocation fault, then for real.
    // target: slot being changed (-1: none); old/new: what it may read as.
    template <class F> Ex act(Op const& op, F&& f, Ex want, int target, V newv, bool any_error = false) {
      if (op.fk) {
        Ex o; bool cm = op.code == PARSE && (op.a[2] & 1); u64 fired;
        { Arm arm(op.fk, op.fn, cm); o = attempt(f); fired = fault.fired; }
        if (fired) {
          faults_seen = true; probe(o == X_FINE ? "fault:absorbed" : "fault:reported");
          i64 of = 0; bool oesc = false; bool tgt = target >= 0 && value_kind(s[target].kind) && (s[target].kind == K_H || owning(s[target].kind));
          if (tgt) { of = s[target].fam; if (of) oesc = fams[of].escaped; join_fresh(target); }
          check_all("after a failed allocation", target);
          if (tgt && of && s[target].fam) {     // did the target detach from what it shared?
            size_t rc = refcount(s[target]); bool known = fams.count(of) != 0;
            if (rc == 1) { fams[s[target].fam].escaped = false; if (known) fams[of].escaped = oesc; }
            else if (known && !oesc && rc == (size_t) fams[of].live + 1) { leave(s[target]); join(s[target], of); fams[of].escaped = oesc; }
          }
          if (target >= 0 && value_kind(s[target].kind)) {
            Slot& t = s[target]; V old = t.v; std::string w1, w2;
            bool is_old = reads_as(t, old, 0, &w1), is_new = newv && reads_as(t, newv, 0, &w2);
            if (o == X_FINE && want == X_FINE && newv && !is_new) fail("value", "slot %d: the call reported success under a failed allocation but the value is not the new one: %s", target, w2.c_str());
            if (!is_old && !is_new) fail("value", "slot %d: after a failed allocation the value is neither the old nor the new one: %s / %s", target, w1.c_str(), w2.c_str());
            if (o == X_FINE && want != X_FINE && !any_error) fail("value", "the call succeeded where %s is the rule", ex_names[want]);
            if (is_new && !is_old) return X_FINE;
          } else if (o == X_FINE && want == X_FINE) return X_FINE;
          probe("fault:retried");
        } else { judge(o, want, any_error); return o; }
      }
      Ex o = attempt(f);
      judge(o, want, any_error);
      return o;
    }
    void join_fresh(int i) {   // ownership of the target is no longer known exactly after a partly done change
      Slot& t = s[i]; i64 f = t.fam; if (f) fams[f].escaped = true;
      leave(t); i64 n = fresh(); join(t, n); fams[n].escaped = true; settle(i);
    }
    void judge(Ex o, Ex want, bool any_error) {
      if (o == want || (any_error && want != X_FINE && o != X_FINE)) return;
      fail("outcome", "the call ended with %s, expected %s", ex_names[o], ex_names[want]);
    }

    V gen(u64 seed, int cls, bool aggregate = false) {
      Rng r(seed);
      switch (cls) {
        case 0: return gen_object(r, g, g.maxdepth);
        case 1: if (aggregate) return gen_object(r, g, g.maxdepth); return gen_array(r, g, g.maxdepth);
        case 2: if (!aggregate) return gen_scalar(r, g); return gen_object(r, g, 1);
        case 3: { // keys from the shared pool: histories meet on the same fields
          Fields f; size_t n = r.below(7); for (size_t i = 0; i < n; ++i) f[keys[r.below(keys.size())]] = gen_value(r, g, g.maxdepth - 1); return mk_obj(f); }
        default: return aggregate ? gen_object(r, g, 1) : gen_value(r, g, g.maxdepth);
      }
    }

    // ---- operations ----------------------------------------------------------------------------
    void op_lit(Op const& op) {
      int d = dst(op.a[0]); int rep = (int) ((u64) op.a[3] % 4); V v = gen((u64) op.a[1], (int) ((u64) op.a[2] % 5), rep == 1); u64 rs = (u64) op.a[1] ^ 77;
      wipe(d); Ex e;
      if (rep == 0) { Opt<H> t; e = act(op, [&] { Rng r(rs); t.with([&] { return build<H>(v, r); }); }, X_FINE, -1, nullptr); put(d, K_H, v, fresh()).h.take(t); }
      else if (rep == 1) { Opt<B> t; e = act(op, [&] { Rng r(rs); t.with([&] { auto h = build<H>(v, r); return h.finalize(); }); }, X_FINE, -1, nullptr); put(d, K_B, v, fresh()).b.take(t); }
      else if (rep == 2) { Opt<P> t; e = act(op, [&] { Rng r(rs); t.with([&] { return build<P>(v, r); }); }, X_FINE, -1, nullptr); put(d, K_P, v, fresh()).p.take(t); }
      else { Opt<P> t; e = act(op, [&] { Rng r(rs); t.with([&] { return build_mixed<RC>(v, r, 40); }); }, X_FINE, -1, nullptr); put(d, K_P, v, fresh()).p.take(t); }
      settle(d); log("LIT", d, rep, e);
    }
    // inline values and nulls have no shared storage to count
    void settle(int d) { Slot& t = s[d]; bool agg = t.v->t == T::Obj || t.v->t == T::Arr || (t.kind == K_B) || (finalized(t)); if (!agg || (t.v->t == T::Null && refcount(t) == 0)) leave(t); }

    void op_copy(Op const& op) {
      int a = any(op.a[0], value_kind); if (a < 0) return; int d = dst(op.a[1]); if (d == a) d = (d + 1) % NS;
      if (s[a].parent == d) return;
      wipe(d); Slot& f = s[a]; size_t before = refcount(f); Ex e = X_FINE; i64 fam = f.fam; Kind k = f.kind; V v = f.v; int par = f.parent;
      auto cp = [&] (auto& to, auto& from) { e = act(op, [&] { to.with([&] { return from; }); }, X_FINE, -1, nullptr); };
      Slot& t = s[d];
      switch (k) {
        case K_H: cp(t.h, *f.h); break; case K_B: cp(t.b, *f.b); break; case K_P: cp(t.p, *f.p); break; case K_HV: cp(t.hv, *f.hv); break; case K_BV: cp(t.bv, *f.bv); break;
        case K_PV: cp(t.pv, *f.pv); break; case K_PO: cp(t.po, *f.po); break; case K_PA: cp(t.pa, *f.pa); break; case K_HO: cp(t.ho, *f.ho); break; default: break;
      }
      t.kind = k; t.v = v; t.parent = par; join(t, fam);
      counted_copy(a, d, before); log("COPY", a, d, e);
    }
    void counted_copy(int a, int d, size_t before) {
      Slot& f = s[a]; size_t after = refcount(f), own = refcount(s[d]);
      bool counted = f.v->t == T::Obj || f.v->t == T::Arr;
      if (is_view(f.kind)) { if (f.v->t != T::Str && after != before) fail("count", "copying a view changed the owner count from %zu to %zu", before, after); }
      else if (counted && (after != before + 1 || own != after)) fail("count", "copying a handle with %zu owners left %zu and %zu", before, after, own);
    }
    void op_move(Op const& op) {
      int a = any(op.a[0], value_kind); if (a < 0) return; int d = dst(op.a[1]); if (d == a) d = (d + 1) % NS;
      if (s[a].parent == d) return;
      wipe(d); clear_deps(a); Slot& f = s[a]; Slot& t = s[d]; size_t before = refcount(f); Kind k = f.kind; V v = f.v; i64 fam = f.fam; int par = f.parent;
      auto mv = [&] (auto& to, auto& from) { using Tp = typename std::decay<decltype(*from)>::type; Ex e = act(op, [&] { to.with([&] () -> Tp { return std::move(*from); }); }, X_FINE, -1, nullptr); (void) e; };
      switch (k) {
        case K_H: mv(t.h, f.h); break; case K_B: mv(t.b, f.b); break; case K_P: mv(t.p, f.p); break; case K_HV: mv(t.hv, f.hv); break; case K_BV: mv(t.bv, f.bv); break;
        case K_PV: mv(t.pv, f.pv); break; case K_PO: mv(t.po, f.po); break; case K_PA: mv(t.pa, f.pa); break; case K_HO: mv(t.ho, f.ho); break; default: break;
      }
      t.kind = k; t.v = v; t.parent = par; if (fam) ++fams[fam].live; t.fam = fam;
      wipe(a); size_t after = refcount(t);
      if (after != before) fail("count", "moving a handle changed the owner count from %zu to %zu", before, after);
      log("MOVE", a, d, X_FINE);
    }
    void op_assign(Op const& op) {   // d = a, between slots of one kind, itself included
      int a = any(op.a[0], value_kind); if (a < 0) return; Kind k = s[a].kind; int style = (int) ((u64) op.a[2] % 2);
      int d = any_where(op.a[1], [&] (Slot& x) { return x.kind == k; }); if (d < 0) return;
      if (s[a].parent == d) return;
      if (style == 1 && d == a) style = 0;
      if (d != a) clear_deps(d);
      Slot& f = s[a]; Slot& t = s[d]; V v = f.v; i64 fam = f.fam; int par = f.parent; Op o = op; if (style == 1) { o.fk = 0; clear_deps(a); }
      auto as = [&] (auto& to, auto& from) { if (style == 0) return act(o, [&] { *to = *from; }, X_FINE, d, v); return act(o, [&] { *to = std::move(*from); }, X_FINE, d, v); };
      Ex e = X_FINE;
      switch (k) {
        case K_H: e = as(t.h, f.h); break; case K_B: e = as(t.b, f.b); break; case K_P: e = as(t.p, f.p); break; case K_HV: e = as(t.hv, f.hv); break; case K_BV: e = as(t.bv, f.bv); break;
        case K_PV: e = as(t.pv, f.pv); break; case K_PO: e = as(t.po, f.po); break; case K_PA: e = as(t.pa, f.pa); break; case K_HO: e = as(t.ho, f.ho); break; default: break;
      }
      if (d != a) { leave(t); join(t, fam); t.v = v; t.parent = par; if (style == 1) wipe(a); }
      log("ASSIGN", a, d, e);
    }
    void op_drop(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k != K_NONE; }); if (a < 0) return;
      Slot& t = s[a]; bool agg = owning(t.kind) && (t.v->t == T::Obj || t.v->t == T::Arr || (t.kind == K_B && t.fam)); bool sole = agg && refcount(t) == 1;
      clear_deps(a); u64 before = mem.live_blocks; wipe(a);
      if (sole && mem.live_blocks >= before) fail("count", "the last owner of a value was destroyed and nothing was released");
      if (!sole && !agg && mem.live_blocks > before) suspect("count", "destroying a handle allocated storage");
      log("DROP", a, 0, X_FINE);
    }

    // conversions among handle kinds
    void op_conv(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_B || k == K_P; }); if (a < 0) return; int d = dst(op.a[1]); int style = (int) ((u64) op.a[3] % 4);
      Slot& f = s[a]; Kind want = (Kind) (K_H + (int) ((u64) op.a[2] % 3)); V v = f.v; bool fin = finalized(f); bool obj = v->t == T::Obj;
      Opt<H> h; Opt<B> b; Opt<P> p; Ex e = X_FINE, expect = X_FINE; bool moved = style == 3 && !op.fk; bool anyerr = false;
      if (f.kind == K_H) {
        if (want == K_H) { if (style == 1) e = act(op, [&] { h.with([&] { return f.h.get().definalize(); }); }, X_FINE, -1, nullptr); else e = act(op, [&] { h.with([&] { return (H) f.h.get().lift(); }); }, X_FINE, -1, nullptr); moved = false; }
        else if (want == K_B) { expect = obj ? X_FINE : X_TYPE; moved = false;
          if (style == 0) e = act(op, [&] { b.with([&] { return (*f.h).finalize(); }); }, expect, -1, nullptr); else if (style == 1) e = act(op, [&] { b.with([&] { return (*f.h).lower(); }); }, expect, -1, nullptr);
          else e = act(op, [&] { b.with([&] { return static_cast<B>(*f.h); }); }, expect, -1, nullptr); }
        else { if (moved) { clear_deps(a); e = act(op, [&] { p.with([&] { return P {std::move(*f.h)}; }); }, X_FINE, -1, nullptr); } else e = act(op, [&] { p.with([&] { return P {*f.h}; }); }, X_FINE, -1, nullptr); }
      } else if (f.kind == K_B) {
        if (want == K_B) { e = act(op, [&] { b.with([&] { return style & 1 ? B {(*f.b).finalize()} : B {(*f.b).lower()}; }); }, X_FINE, -1, nullptr); moved = false; }
        else if (want == K_H) { moved = false;
          if (style == 0) e = act(op, [&] { h.with([&] { return (*f.b).definalize(); }); }, X_FINE, -1, nullptr); else if (style == 1) e = act(op, [&] { h.with([&] { return (*f.b).lift(); }); }, X_FINE, -1, nullptr);
          else e = act(op, [&] { h.with([&] { return static_cast<H>(*f.b); }); }, X_FINE, -1, nullptr); }
        else { if (moved) { clear_deps(a); e = act(op, [&] { p.with([&] { return P {std::move(*f.b)}; }); }, X_FINE, -1, nullptr); } else e = act(op, [&] { p.with([&] { return P {*f.b}; }); }, X_FINE, -1, nullptr); }
      } else {
        if (want == K_P) { moved = false; expect = (style >= 2 && !fin && !obj) ? X_TYPE : X_FINE;
          if (style < 2) e = act(op, [&] { P t = *f.p; p.with([&] () -> P { return std::move(t).definalize(); }); }, expect, -1, nullptr); else e = act(op, [&] { P t = *f.p; p.with([&] () -> P { return std::move(t).finalize(); }); }, expect, -1, nullptr); }
        else if (want == K_H) { if (moved) { clear_deps(a); e = act(op, [&] { h.with([&] { return static_cast<H>(std::move(*f.p)); }); }, X_FINE, -1, nullptr); } else e = act(op, [&] { h.with([&] { return static_cast<H>(*f.p); }); }, X_FINE, -1, nullptr); }
        else { expect = (!fin && !obj) ? X_TYPE : X_FINE; if (expect != X_FINE) moved = false;
          if (moved) { clear_deps(a); e = act(op, [&] { b.with([&] { return static_cast<B>(std::move(*f.p)); }); }, expect, -1, nullptr, anyerr); } else e = act(op, [&] { b.with([&] { return static_cast<B>(*f.p); }); }, expect, -1, nullptr, anyerr); }
      }
      int kfrom = f.kind;
      i64 fam = 0;
      if (e == X_FINE) {
        bool shares = (kfrom == K_H && want != K_B) || (kfrom == K_B && want != K_H) || (kfrom == K_P && ((want == K_H && !fin) || (want == K_B && fin)));
        if (kfrom == K_P && want == K_P) shares = fin == (style >= 2);
        fam = shares && s[a].fam ? s[a].fam : fresh();
        bool whole = shares && !s[a].fam;    // the source was not tracked
        ++fams[fam].live; if (moved) wipe(a);
        i64 f2 = fam;
        Opt<H> hh; Opt<B> bb; Opt<P> pp; hh.take(h); bb.take(b); pp.take(p);
        Slot& t = put(d, want, v, f2);
        t.h.take(hh); t.b.take(bb); t.p.take(pp);
        if (--fams[f2].live == 0) fams.erase(f2); if (whole) fams[f2].escaped = true;
        settle(d);
      }
      log("CONV", a, want, e);
    }

    // child extraction
    template <class HT> Ex get_child(Op const& op, HT& h, Slot& f, int route, std::string const& k, size_t idx, bool bykey, Ex want, Opt<HT>& out) {
      auto view_key = sv(k);
      if (bykey) switch (route) {
        case 0: return act(op, [&] { out.with([&] { return h[view_key]; }); }, want, -1, nullptr);
        case 1: return act(op, [&] { out.with([&] { return h.at(view_key); }); }, want, -1, nullptr);
        case 2: return act(op, [&] { out.with([&] { return h.get(view_key); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] { auto it = h.find(view_key); if (it == h.end()) throw std::out_of_range("x"); return *it; }); }, want, -1, nullptr);
      }
      switch (route) {
        case 0: return act(op, [&] { out.with([&] { return h[idx]; }); }, want, -1, nullptr);
        case 1: return act(op, [&] { out.with([&] { return h.at(idx); }); }, want, -1, nullptr);
        case 2: return act(op, [&] { out.with([&] { return h.get(idx); }); }, want, -1, nullptr);
        case 3: return act(op, [&] { out.with([&] { auto it = h.begin(); size_t n = h.size(); if (idx >= n) throw std::out_of_range("x"); for (size_t i = 0; i < idx; ++i) ++it; return *it; }); }, want, -1, nullptr);
        case 4: return act(op, [&] { out.with([&] { return h.front(); }); }, want, -1, nullptr);
        case 5: return act(op, [&] { out.with([&] { return h.back(); }); }, want, -1, nullptr);
        case 6: return act(op, [&] { out.with([&] { return h.at_front(); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] { return h.at_back(); }); }, want, -1, nullptr);
      }
    }
    // routes that consume a temporary handle, or allocate
    template <class HT> Ex get_child_extra(Op const& op, HT& h, int route, std::string const& k, size_t idx, bool bykey, Ex want, Opt<HT>& out) {
      auto vk = sv(k);
      if (bykey) switch (route) {
        case 0: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t)[vk]; }); }, want, -1, nullptr);
        case 1: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).at(vk); }); }, want, -1, nullptr);
        case 2: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).get(vk); }); }, want, -1, nullptr);
        case 3: return act(op, [&] { HT key = HT(h.begin() == h.end() ? *h.key_begin() : *h.key_begin()); out.with([&] () -> HT { return h[key]; }); }, want, -1, nullptr);
        case 4: return act(op, [&] { out.with([&] () -> HT { auto it = h.find_key(vk); if (it == h.end()) throw std::out_of_range("x"); return h[*it]; }); }, want, -1, nullptr);
        case 5: return act(op, [&] { out.with([&] () -> HT { return h.get_nested(vk, '\x7e'); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] () -> HT { typename HT::object o {h}; return o[vk]; }); }, want, -1, nullptr);
      }
      switch (route) {
        case 0: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t)[idx]; }); }, want, -1, nullptr);
        case 1: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).at(idx); }); }, want, -1, nullptr);
        case 2: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).get(idx); }); }, want, -1, nullptr);
        case 3: return act(op, [&] { out.with([&] () -> HT { auto v = h.values(); return v.at(idx); }); }, want, -1, nullptr);
        case 4: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).at_front(); }); }, want, -1, nullptr);
        case 5: return act(op, [&] { out.with([&] () -> HT { HT t = h; return std::move(t).at_back(); }); }, want, -1, nullptr);
        case 6: return act(op, [&] { out.with([&] () -> HT { typename HT::array o {h}; return o.at(idx); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] () -> HT { auto it = h.rbegin(); size_t n = h.size(); if (idx >= n) throw std::out_of_range("x"); for (size_t i = n - 1; i > idx; --i) ++it; return *it; }); }, want, -1, nullptr);
      }
    }
    void op_get(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return value_kind(x.kind) && x.kind <= K_PV && (x.v->t == T::Obj || x.v->t == T::Arr); }); if (a < 0) return;
      int d = dst(op.a[1]); Slot& f = s[a]; bool obj = f.v->t == T::Obj; V v = f.v; bool extra = (op.a[4] & 1) && f.kind <= K_P;
      V child = mk(); bool present = false; std::string k; size_t idx = 0; int route = (int) ((u64) op.a[3] % 8); Ex want = X_FINE;
      if (obj) {
        route %= extra ? 7 : 4;
        if (!v->o.empty() && (u64) op.a[2] % 8 != 7) { auto it = v->o.begin(); std::advance(it, (long) ((u64) op.a[2] / 8 % v->o.size())); k = it->first; }
        else k = keys[(u64) op.a[2] / 8 % keys.size()];
        if (extra && route == 3) { if (v->o.empty()) return; k = v->o.begin()->first; }
        if (extra && route == 5 && (k.empty() || k.find('\x7e') != std::string::npos)) route = 0;
        auto it = v->o.find(k); present = it != v->o.end(); if (present) child = it->second;
        if (extra && route == 5) {   // a path of several keys, which may run off the end of the value
          Rng r((u64) op.a[2] * 31 + (u64) op.a[3]);
          for (int hop = 0; hop < 3 && r.chance(60); ++hop) {
            std::string q; if (child->t == T::Obj && !child->o.empty() && r.chance(85)) { auto i2 = child->o.begin(); std::advance(i2, (long) r.below(child->o.size())); q = i2->first; } else q = r.chance(60) ? std::string(1 + r.below(2), (char) ('a' + r.below(26))) : keys[r.below(keys.size())];
            if (q.empty() || q.find('\x7e') != std::string::npos) break;
            k += '\x7e'; k += q; if (child->t == T::Obj && child->o.count(q)) { V c = child->o.at(q); child = c; } else { child = mk(); present = false; }
          }
        }
        if (!present && (extra ? (route == 1 || route == 4) : (route == 1 || route == 3))) want = X_RANGE;
      } else {
        idx = v->a.empty() ? (u64) op.a[2] % 3 : (u64) op.a[2] % (v->a.size() + 1);
        if (extra) { if (route == 4) idx = 0; if (route == 5) idx = v->a.empty() ? 0 : v->a.size() - 1; } else { if (route == 4 || route == 6) idx = 0; if (route == 5 || route == 7) idx = v->a.empty() ? 0 : v->a.size() - 1; }
        present = idx < v->a.size(); if (present) child = v->a[idx];
        if (!present && (extra ? route == 1 || route >= 3 : route == 1 || route == 3 || route == 6 || route == 7)) want = X_RANGE;
      }
      Ex e = X_FINE; Opt<H> h; Opt<B> b; Opt<P> p; Opt<HV> hv; Opt<BV> bv; Opt<PV> pv; Kind k0 = f.kind; int par = is_view(k0) ? f.parent : -1; bool fin = finalized(f);
      if (is_view(k0) && par == d) return;
      switch (k0) {
        case K_H: e = extra ? get_extra_heap(op, *f.h, route, k, idx, obj, want, h) : get_child(op, *f.h, f, route, k, idx, obj, want, h); break;
        case K_B: e = extra ? get_child_extra(op, *f.b, route, k, idx, obj, want, b) : get_child(op, *f.b, f, route, k, idx, obj, want, b); break;
        case K_P: e = extra ? get_child_extra(op, *f.p, route, k, idx, obj, want, p) : get_child(op, *f.p, f, route, k, idx, obj, want, p); break;
        case K_HV: e = get_child(op, *f.hv, f, route, k, idx, obj, want, hv); break; case K_BV: e = get_child(op, *f.bv, f, route, k, idx, obj, want, bv); break;
        case K_PV: e = get_child(op, *f.pv, f, route, k, idx, obj, want, pv); break; default: break;
      }
      if (e == X_FINE) {
        i64 fam = 0; if (fin && owning(k0) && present) fam = f.fam; if (fam) ++fams[fam].live;
        if (!fin) mark_shared_child(a);
        Slot& t = put(d, k0, child, fam); if (fam && --fams[fam].live == 0) fams.erase(fam);
        t.h.take(h); t.b.take(b); t.p.take(p); t.hv.take(hv); t.bv.take(bv); t.pv.take(pv); t.parent = par;
        if (fin && child->t == T::Null && refcount(t) == 0) leave(t);
      }
      log(extra ? "GETX" : "GET", a, d, e);
    }
    Ex get_extra_heap(Op const& op, H& h, int route, std::string const& k, size_t idx, bool obj, Ex want, Opt<H>& out) {
      auto vk = sv(k);
      if (obj) switch (route) {
        case 0: return act(op, [&] { out.with([&] () -> H { return h.get_or(vk, nullptr); }); }, want == X_FINE ? X_FINE : X_FINE, -1, nullptr);
        case 1: return act(op, [&] { out.with([&] () -> H { HO o {h}; return o.at(vk); }); }, want, -1, nullptr);
        case 3: return act(op, [&] { out.with([&] () -> H { H key = *h.key_begin(); return h[key]; }); }, want, -1, nullptr);
        case 4: return act(op, [&] { out.with([&] () -> H { auto it = h.find_key(vk); if (it == h.end()) throw std::out_of_range("x"); return h[*it]; }); }, want, -1, nullptr);
        case 5: return act(op, [&] { out.with([&] () -> H { return h.get_nested(vk, '\x7e'); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] () -> H { HO o {h}; return o[vk]; }); }, want, -1, nullptr);
      }
      switch (route) {
        case 0: case 2: return act(op, [&] { out.with([&] () -> H { return h.get_or(idx, nullptr); }); }, X_FINE, -1, nullptr);
        case 1: case 6: return act(op, [&] { out.with([&] () -> H { typename H::array o {h}; return o.at(idx); }); }, want, -1, nullptr);
        case 4: return act(op, [&] { out.with([&] () -> H { return h.at_front(); }); }, want, -1, nullptr);
        case 5: return act(op, [&] { out.with([&] () -> H { return h.at_back(); }); }, want, -1, nullptr);
        default: return act(op, [&] { out.with([&] () -> H { auto v = h.values(); return v.at(idx); }); }, want, -1, nullptr);
      }
    }
    void mark_shared_child(int) {}

    // ---- mutation --------------------------------------------------------------------------------
    enum Verb { ADD, INS, SET, REM, ERA, ERAIT, SETIT, INSIT, CLEAR, INJ, PROJ, PUSHB, PUSHF, POPB, POPF, INSI, SETI, ERAI, INSII, SETII, ERAII, RESERVE, RESIZE, RADD, RREM, RPUSHB, RPUSHF, RPOPB, RPOPF, NVERB };

    struct Src { int how = 0; V v; Opt<H> h; Opt<P> p; Opt<B> b; int slot = -1; std::vector<std::pair<std::string, V>> more; int form = 0; bool odd = false; };
    // how: 0 handle of the target's own representation; 1 int; 2 string; 3 bool; 4 null; 5 double; 6 other representation; 7 buffer; 8 wrapper
    template <class HT> struct ValArg {};

    // the key-value list of an injection, as handles of one kind
    static void pair_of(std::vector<H>& o, std::string const& k, V const& v, Rng& r) { o.push_back(H::make_string(sv(k))); o.push_back(build<H>(v, r)); }
    static void pair_of(std::vector<P>& o, std::string const& k, V const& v, Rng& r) { o.push_back(P::make_string(sv(k))); o.push_back(build_mixed<RC>(v, r, 40)); }
    static void pair_of(std::vector<B>& o, std::string const& k, V const& v, Rng& r) {
      H h = H::make_object(); h.add_field("k", H::make_string(sv(k))); h.add_field("v", build<H>(v, r)); B b = h.finalize(); o.push_back(b["k"]); o.push_back(b["v"]);
    }
    template <class HT> std::vector<HT> pair_list(Src& sr, std::string const& k) {
      std::vector<HT> o; o.reserve(2 + 2 * sr.more.size()); Rng r(7);
      pair_of(o, k, sr.v, r); for (auto& m : sr.more) pair_of(o, m.first, m.second, r);
      if (sr.odd) o.pop_back();
      return o;
    }
    template <class HT> static HT project(HT& h, std::vector<std::string> const& ks, int style) {
      if (style == 0) return h.project(gsl::span<std::string const>(ks.data(), (std::ptrdiff_t) ks.size()));
      if (style == 1) { std::vector<dart::shim::string_view> v; for (auto& k : ks) v.push_back(sv(k)); return h.project(gsl::span<dart::shim::string_view const>(v.data(), (std::ptrdiff_t) v.size())); }
      auto k = [&] (size_t i) { return sv(ks[i]); };
      switch (ks.size()) {
        case 0: return h.project({}); case 1: return h.project({k(0)}); case 2: return h.project({k(0), k(1)}); case 3: return h.project({k(0), k(1), k(2)});
        case 8: return h.project({k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7)}); case 9: return h.project({k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8)});
        case 10: return h.project({k(0), k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8), k(9)});
        default: return h.project(gsl::span<std::string const>(ks.data(), (std::ptrdiff_t) ks.size()));
      }
    }
    // calls f with the chosen argument
    template <class F> void with_value(Src& sr, bool heap, bool mv, F&& f) {
      switch (sr.how) {
        case 1: f(sr.v->i); break;
        case 2: f(sv(sr.v->s)); break;
        case 3: f(sr.v->b); break;
        case 4: f(nullptr); break;
        case 5: f(sr.v->d); break;
        default:
          if (heap) { if (mv) { H t = *sr.h; f(std::move(t)); } else f(*sr.h); }
          else { if (mv) { P t = *sr.p; f(std::move(t)); } else f(*sr.p); }
      }
    }
    struct Expect { Ex err = X_FINE; V v; bool noop = false; };
    Expect model(V const& cur, bool fin, int verb, std::string const& k, size_t idx, size_t n, V const& val, std::vector<std::string> const& ks, Src const* sr = nullptr) {
      Expect x; x.v = cur; bool obj = cur->t == T::Obj, arr = cur->t == T::Arr;
      if (fin) { x.err = X_STATE; return x; }
      auto fld = [&] (Fields f) { x.v = mk_obj(std::move(f)); }; auto els = [&] (std::vector<V> a) { x.v = mk_arr(std::move(a)); };
      switch (verb) {
        case ADD: case INS: case RADD: case INJ:
          if (!obj) { x.err = X_TYPE; return x; }
          if (k.size() > 65535) { x.err = X_INVAL; return x; }
          { Fields f = cur->o; f[k] = val; if (sr && verb == INJ) { if (sr->odd) { x.err = X_INVAL; return x; } for (auto& m : sr->more) f[m.first] = m.second; } fld(f); } return x;
        case SET:
          if (!obj) { x.err = X_TYPE; return x; } if (!cur->o.count(k)) { x.err = X_RANGE; return x; }
          { Fields f = cur->o; f[k] = val; fld(f); } return x;
        case SETIT: case INSIT: { Fields f = cur->o; f[k] = val; fld(f); return x; }
        case REM: case RREM: case ERA: if (!obj) { x.err = X_TYPE; return x; } { Fields f = cur->o; x.noop = !f.count(k); f.erase(k); fld(f); } return x;
        case ERAIT: { Fields f = cur->o; f.erase(k); fld(f); return x; }
        case CLEAR: if (obj) fld({}); else if (arr) els({}); else x.err = X_TYPE; return x;
        case PROJ: if (!obj) { x.err = X_TYPE; return x; } { Fields f; for (auto& q : ks) { auto it = cur->o.find(q); if (it != cur->o.end()) f[q] = it->second; } fld(f); } return x;
        default: break;
      }
      if (!arr) { x.err = X_TYPE; return x; }
      std::vector<V> a = cur->a;
      switch (verb) {
        case PUSHB: case RPUSHB: a.push_back(val); break; case PUSHF: case RPUSHF: a.insert(a.begin(), val); break;
        case POPB: case RPOPB: if (a.empty()) x.noop = true; else a.pop_back(); break; case POPF: case RPOPF: if (a.empty()) x.noop = true; else a.erase(a.begin()); break;
        case INSI: if (idx > a.size()) { x.err = X_RANGE; return x; } a.insert(a.begin() + (long) idx, val); break;
        case INSII: a.insert(a.begin() + (long) idx, val); break;
        case SETI: if (idx >= a.size()) { x.err = X_RANGE; return x; } a[idx] = val; break;
        case SETII: a[idx] = val; break;
        case ERAI: if (idx >= a.size()) x.noop = true; else a.erase(a.begin() + (long) idx); break;
        case ERAII: a.erase(a.begin() + (long) idx); break;
        case RESERVE: x.noop = true; break;
        case RESIZE: a.resize(n, val); break;
        default: break;
      }
      x.v = mk_arr(std::move(a)); return x;
    }

    // key passed as string_view, or as a handle
    template <class HT, class F> void with_key(int ks, std::string const& k, F&& f) { if (ks == 0) f(sv(k)); else f(HT::make_string(sv(k))); }

    template <class HT> Ex mutate(Op const& op, int ti, HT& h, int verb, std::string const& k, size_t idx, size_t n, Src& sr, bool mv, int keystyle, std::vector<std::string> const& ks, Expect& x) {
      constexpr bool heap = std::is_same<HT, H>::value; Ex w = x.err; V nv = x.v; bool ae = false;
      bool fin = finalized(s[ti]);
      switch (verb) {
        case ADD: return act(op, [&] { with_key<HT>(keystyle, k, [&] (auto&& key) { with_value(sr, heap, mv, [&] (auto&& val) { h.add_field(std::forward<decltype(key)>(key), std::forward<decltype(val)>(val)); }); }); }, w, ti, nv, ae);
        case INS: return act(op, [&] { with_key<HT>(keystyle, k, [&] (auto&& key) { with_value(sr, heap, mv, [&] (auto&& val) { h.insert(std::forward<decltype(key)>(key), std::forward<decltype(val)>(val)); }); }); }, w, ti, nv, ae);
        case SET: return act(op, [&] { with_key<HT>(keystyle, k, [&] (auto&& key) { with_value(sr, heap, mv, [&] (auto&& val) { h.set(std::forward<decltype(key)>(key), std::forward<decltype(val)>(val)); }); }); }, w, ti, nv, ae);
        case REM: return act(op, [&] { with_key<HT>(keystyle, k, [&] (auto const& key) { h.remove_field(key); }); }, w, ti, nv, ae);
        case ERA: return act(op, [&] { with_key<HT>(keystyle, k, [&] (auto const& key) { h.erase(key); }); }, w, ti, nv, ae);
        case ERAIT: return act(op, [&] { auto it = keystyle ? h.find_key(sv(k)) : h.find(sv(k)); h.erase(it); }, w, ti, nv, fin || op.fk);
        case SETIT: return act(op, [&] { auto it = h.find(sv(k)); with_value(sr, heap, mv, [&] (auto&& val) { h.set(it, std::forward<decltype(val)>(val)); }); }, w, ti, nv, fin || op.fk);
        case INSIT: return act(op, [&] { auto it = h.find(sv(k)); with_value(sr, heap, mv, [&] (auto&& val) { h.insert(it, std::forward<decltype(val)>(val)); }); }, w, ti, nv, fin || op.fk);
        case CLEAR: return act(op, [&] { h.clear(); }, w, ti, nv, ae);
        case INJ: switch (sr.form) {
          case 0: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { HT r = h.inject(HT::make_string(sv(k)), std::forward<decltype(val)>(val)); h = std::move(r); }); }, w, ti, nv, ae);
          case 1: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { HT r = h.inject(sv(k), std::forward<decltype(val)>(val), sv(sr.more[0].first), sr.more[0].second->i, sv(sr.more[1].first), sv(sr.more[1].second->s)); h = std::move(r); }); }, w, ti, nv, ae);
          case 2: return act(op, [&] { std::vector<H> ps = pair_list<H>(sr, k); HT r = h.inject(gsl::span<H const>(ps.data(), (std::ptrdiff_t) ps.size())); h = std::move(r); }, w, ti, nv, ae);
          case 3: return act(op, [&] { std::vector<B> ps = pair_list<B>(sr, k); HT r = h.inject(gsl::span<B const>(ps.data(), (std::ptrdiff_t) ps.size())); h = std::move(r); }, w, ti, nv, ae);
          default: return act(op, [&] { std::vector<P> ps = pair_list<P>(sr, k); HT r = h.inject(gsl::span<P const>(ps.data(), (std::ptrdiff_t) ps.size())); h = std::move(r); }, w, ti, nv, ae);
        }
        case PROJ: return act(op, [&] { HT r = project(h, ks, keystyle); h = std::move(r); }, w, ti, nv, ae);
        case PUSHB: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { h.push_back(std::forward<decltype(val)>(val)); }); }, w, ti, nv, ae);
        case PUSHF: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { h.push_front(std::forward<decltype(val)>(val)); }); }, w, ti, nv, ae);
        case POPB: return act(op, [&] { h.pop_back(); }, w, ti, nv, ae);
        case POPF: return act(op, [&] { h.pop_front(); }, w, ti, nv, ae);
        case INSI: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { h.insert(idx, std::forward<decltype(val)>(val)); }); }, w, ti, nv, ae);
        case SETI: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { h.set(idx, std::forward<decltype(val)>(val)); }); }, w, ti, nv, ae);
        case ERAI: return act(op, [&] { h.erase(idx); }, w, ti, nv, ae);
        case INSII: return act(op, [&] { auto it = h.begin(); for (size_t i = 0; i < idx; ++i) ++it; with_value(sr, heap, mv, [&] (auto&& val) { h.insert(it, std::forward<decltype(val)>(val)); }); }, w, ti, nv, fin || op.fk);
        case SETII: return act(op, [&] { auto it = h.begin(); for (size_t i = 0; i < idx; ++i) ++it; with_value(sr, heap, mv, [&] (auto&& val) { h.set(it, std::forward<decltype(val)>(val)); }); }, w, ti, nv, fin || op.fk);
        case ERAII: return act(op, [&] { auto it = h.begin(); for (size_t i = 0; i < idx; ++i) ++it; h.erase(it); }, w, ti, nv, fin || op.fk);
        case RESERVE: return act(op, [&] { h.reserve(n); }, w, ti, nv, ae);
        case RESIZE: return act(op, [&] { with_value(sr, heap, false, [&] (auto&& val) { h.resize(n, val); }); }, w, ti, nv, ae);
        case RADD: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { HT c = h; HT r = std::move(c).add_field(sv(k), std::forward<decltype(val)>(val)); h = std::move(r); }); }, w, ti, nv, ae);
        case RREM: return act(op, [&] { HT c = h; HT r = std::move(c).remove_field(sv(k)); h = std::move(r); }, w, ti, nv, ae);
        case RPUSHB: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { HT c = h; HT r = std::move(c).push_back(std::forward<decltype(val)>(val)); h = std::move(r); }); }, w, ti, nv, ae);
        case RPUSHF: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { HT c = h; HT r = std::move(c).push_front(std::forward<decltype(val)>(val)); h = std::move(r); }); }, w, ti, nv, ae);
        case RPOPB: return act(op, [&] { HT c = h; HT r = std::move(c).pop_back(); h = std::move(r); }, w, ti, nv, ae);
        default: return act(op, [&] { HT c = h; HT r = std::move(c).pop_front(); h = std::move(r); }, w, ti, nv, ae);
      }
    }
    Ex mutate_obj(Op const& op, int ti, int verb, std::string const& k, Src& sr, bool mv, std::vector<std::string> const& ks, Expect& x) {
      Slot& t = s[ti]; Ex w = x.err; V nv = x.v;
      auto go = [&] (auto& o, bool heap) {
        using OT = typename std::decay<decltype(o)>::type;
        switch (verb) {
          case ADD: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { o.add_field(sv(k), std::forward<decltype(val)>(val)); }); }, w, ti, nv);
          case INS: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { o.insert(sv(k), std::forward<decltype(val)>(val)); }); }, w, ti, nv);
          case SET: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { o.set(sv(k), std::forward<decltype(val)>(val)); }); }, w, ti, nv);
          case REM: return act(op, [&] { o.remove_field(sv(k)); }, w, ti, nv);
          case ERA: return act(op, [&] { o.erase(sv(k)); }, w, ti, nv);
          case CLEAR: return act(op, [&] { o.clear(); }, w, ti, nv);
          case INJ: return act(op, [&] { with_value(sr, heap, mv, [&] (auto&& val) { OT r = o.inject(sv(k), std::forward<decltype(val)>(val)); o = std::move(r); }); }, w, ti, nv);
          default: return act(op, [&] { gsl::span<std::string const> sp(ks.data(), (std::ptrdiff_t) ks.size()); OT r = o.project(sp); o = std::move(r); }, w, ti, nv);
        }
      };
      return t.kind == K_PO ? go(*t.po, false) : go(*t.ho, true);
    }
    Ex mutate_arr(Op const& op, int ti, int verb, size_t idx, size_t n, Src& sr, bool mv, Expect& x) {
      PA& o = *s[ti].pa; Ex w = x.err; V nv = x.v;
      switch (verb) {
        case PUSHB: return act(op, [&] { with_value(sr, false, mv, [&] (auto&& val) { o.push_back(std::forward<decltype(val)>(val)); }); }, w, ti, nv);
        case PUSHF: return act(op, [&] { with_value(sr, false, mv, [&] (auto&& val) { o.push_front(std::forward<decltype(val)>(val)); }); }, w, ti, nv);
        case POPB: return act(op, [&] { o.pop_back(); }, w, ti, nv); case POPF: return act(op, [&] { o.pop_front(); }, w, ti, nv);
        case INSI: return act(op, [&] { with_value(sr, false, mv, [&] (auto&& val) { o.insert(idx, std::forward<decltype(val)>(val)); }); }, w, ti, nv);
        case SETI: return act(op, [&] { with_value(sr, false, mv, [&] (auto&& val) { o.set(idx, std::forward<decltype(val)>(val)); }); }, w, ti, nv);
        case ERAI: return act(op, [&] { o.erase(idx); }, w, ti, nv);
        case RESERVE: return act(op, [&] { o.reserve(n); }, w, ti, nv);
        case CLEAR: return act(op, [&] { o.clear(); }, w, ti, nv);
        default: return act(op, [&] { with_value(sr, false, false, [&] (auto&& val) { o.resize(n, val); }); }, w, ti, nv);
      }
    }
    static bool array_verb(int v) { return (v >= PUSHB && v <= RESIZE) || (v >= RPUSHB && v <= RPOPF); }
    void op_mut(Op const& op) {
      int verb = (int) ((u64) op.a[1] % NVERB); bool wrongtype = (u64) op.a[5] % 16 == 15;
      int a = any_where(op.a[0], [&] (Slot& x) { return x.kind == K_H || x.kind == K_P || x.kind == K_PO || x.kind == K_PA || x.kind == K_HO; }); if (a < 0) return;
      // prefer a target the verb makes sense for
      if (!wrongtype) {
        bool av = array_verb(verb);
        int b = any_where(op.a[0], [&] (Slot& x) { return (x.kind == K_H || x.kind == K_P || x.kind == K_PO || x.kind == K_PA || x.kind == K_HO) && x.v->t == (av ? T::Arr : T::Obj); });
        if (b >= 0) a = b; else { b = any_where(op.a[0], [&] (Slot& x) { return (x.kind == K_H || x.kind == K_P || x.kind == K_PO || x.kind == K_PA || x.kind == K_HO) && (x.v->t == T::Arr || x.v->t == T::Obj); });
          if (b >= 0) { a = b; static int const to_obj[] = {ADD, INS, SET, REM, ERA, CLEAR, INJ, PROJ}; static int const to_arr[] = {PUSHB, PUSHF, POPB, INSI, SETI, ERAI, RESIZE, CLEAR}; verb = s[a].v->t == T::Obj ? to_obj[verb % 8] : to_arr[verb % 8]; } }
      }
      Slot& t = s[a]; V cur = t.v; bool fin = finalized(t); bool heap = t.kind == K_H || t.kind == K_HO;
      if (t.kind == K_PO || t.kind == K_HO) { static int const m[] = {ADD, INS, SET, REM, ERA, CLEAR, INJ, PROJ}; verb = m[verb % 8]; }
      if (t.kind == K_PA) { static int const m[] = {PUSHB, PUSHF, POPB, POPF, INSI, SETI, ERAI, RESERVE, RESIZE, CLEAR}; verb = m[verb % 10]; }
      // key, index
      std::string k; bool want_present = (u64) op.a[2] % 4 != 0;
      if (verb == SETIT || verb == INSIT || verb == ERAIT) { if (cur->t != T::Obj || cur->o.empty()) verb = ADD; else want_present = true; }
      if (verb == SETII || verb == ERAII) { if (cur->t != T::Arr || cur->a.empty()) verb = PUSHB; }
      if (verb == INSII && cur->t != T::Arr) verb = PUSHB;
      if (cur->t == T::Obj && want_present && !cur->o.empty()) { auto it = cur->o.begin(); std::advance(it, (long) ((u64) op.a[2] / 4 % cur->o.size())); k = it->first; }
      else k = keys[(u64) op.a[2] / 4 % keys.size()];
      size_t len = cur->t == T::Arr ? cur->a.size() : 0; size_t idx = (u64) op.a[2] % (len + 2);
      if (verb == SETII || verb == ERAII) idx %= len; if (verb == INSII) idx %= len + 1;
      size_t n = (u64) op.a[2] % 7; if (verb == RESERVE) n = (u64) op.a[2] % 40;
      std::vector<std::string> ks; { Rng r((u64) op.a[2]); for (auto& f : cur->o) if (r.chance(60)) ks.push_back(f.first); if (r.chance(30)) ks.push_back(keys[r.below(keys.size())]); if (r.chance(20)) ks.push_back("nope!"); if (r.chance(35)) { size_t want = r.chance(60) ? 7 + r.below(5) : r.below(30); if (r.chance(50) && ks.size() > want) ks.resize(want); while (ks.size() < want) ks.push_back(!ks.empty() && r.chance(10) ? ks[r.below(ks.size())] : strf("n%02d", (int) r.below(100))); } for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]); }
      // value
      Src sr; u64 vs = (u64) op.a[3]; int how = (int) (vs % 16); bool mv = (op.a[4] & 1) != 0; int keystyle = (int) ((u64) op.a[4] / 2 % (verb == PROJ ? 3 : 2)); int si = -1; Rng r(vs);
      if (how < 7) {   // another handle's value, or the target's own
        si = any_where((i64) (vs / 16), [&] (Slot& x) { return (x.kind == K_H || x.kind == K_P || x.kind == K_B) && weight(x.v) + weight(cur) < 1500 && depth(x.v) + depth(cur) < 9; });
        if (how == 0 && (t.kind == K_H || t.kind == K_P) && weight(cur) * 2 < 1500 && depth(cur) < 5) si = a;
      }
      if (si >= 0) {
        Slot& f = s[si]; sr.v = f.v; sr.slot = si;
        Lib l;
        if (heap) { if (f.kind == K_H) sr.h.emplace(*f.h); else if (f.kind == K_P) sr.h.with([&] { return static_cast<H>(*f.p); }); else sr.h.with([&] { return static_cast<H>(*f.b); }); }
        else { if (f.kind == K_P) sr.p.emplace(*f.p); else if (f.kind == K_H) sr.p.with([&] { return P {*f.h}; }); else sr.p.with([&] { return P {*f.b}; }); }
        Out o; escape(f);
      } else if (how < 12 && how >= 7) {
        switch (how) { case 7: sr.how = 1; sr.v = mk_int(gen_int(r)); break; case 8: sr.how = 2; sr.v = mk_str(gen_string(r, g)); break; case 9: sr.how = 3; sr.v = mk_bool(r.chance(50)); break; case 10: sr.how = 4; sr.v = mk(); break; default: sr.how = 5; sr.v = mk_dec(gen_dec(r, g)); }
      } else {
        sr.v = gen(vs, (int) (vs / 16 % 5)); Lib l; Rng b(vs);
        if (heap) sr.h.with([&] { return build<H>(sr.v, b); }); else sr.p.with([&] { return build_mixed<RC>(sr.v, b, 30); });
      }
      if (verb == INJ && (t.kind == K_H || t.kind == K_P)) {
        sr.form = (int) r.below(5); size_t extra = sr.form == 0 ? 0 : sr.form == 1 ? 2 : r.below(r.chance(20) ? 24 : 5); std::set<std::string> seen {k}; GenCfg small = g; small.big = false;
        for (size_t i = 0; i < extra; ++i) {
          std::string q = !cur->o.empty() && r.chance(35) ? [&] { auto it = cur->o.begin(); std::advance(it, (long) r.below(cur->o.size())); return it->first; }() : r.chance(50) ? keys[r.below(keys.size())] : gen_key(r, small);
          if (q.size() > 65535 || seen.count(q)) q = strf("inj%zu", i); if (!seen.insert(q).second) continue;
          sr.more.emplace_back(q, sr.form == 1 ? (i ? mk_str(gen_string(r, small)) : mk_int(gen_int(r))) : gen_value(r, small, 1)); }
        if (sr.form == 1 && sr.more.size() < 2) sr.form = 0; if (sr.form == 0) sr.more.clear();
        sr.odd = sr.form >= 2 && cur->t == T::Obj && r.chance(6);
      }
      Expect x = model(cur, fin, verb, k, idx, n, sr.v, ks, &sr);
      if (!fin && (verb == ADD || verb == INS || verb == SET || verb == SETI || verb == INSI) && false) {}
      clear_deps(a);
      // direct self-insertion passes the very handle being changed
      bool self = si == a && !mv && (t.kind == K_H || t.kind == K_P) && (verb == ADD || verb == INS || verb == SET || verb == PUSHB || verb == PUSHF || verb == INSI || verb == SETI || verb == RESIZE);
      Op o2 = op; Ex e;
      if (fin && (verb == ERAIT || verb == SETIT || verb == INSIT || verb == INSII || verb == SETII || verb == ERAII)) x.err = X_STATE;
      if (fin && (verb == INJ || verb == PROJ)) { // derive a new finalized packet instead
        x = Expect {}; x.v = cur; Expect m = model(cur, false, verb, k, idx, n, sr.v, ks, &sr); x.err = m.err; if (m.err == X_FINE) x.v = m.v; }
      if (self) {
        if (t.kind == K_H) e = self_mutate(o2, a, *t.h, verb, k, idx, n, x); else e = self_mutate(o2, a, *t.p, verb, k, idx, n, x);
      } else if (t.kind == K_H) e = mutate(o2, a, *t.h, verb, k, idx, n, sr, mv, keystyle, ks, x);
      else if (t.kind == K_P) e = mutate(o2, a, *t.p, verb, k, idx, n, sr, mv, keystyle, ks, x);
      else if (t.kind == K_PA) e = mutate_arr(o2, a, verb, idx, n, sr, mv, x);
      else e = mutate_obj(o2, a, verb, k, sr, mv, ks, x);
      { Lib l; sr.h.reset(); sr.p.reset(); }
      if (e == X_FINE) {
        t.v = x.v; bool agg = cur->t == T::Obj || cur->t == T::Arr;
        if (agg && !x.noop && !fin) {
          size_t rc = refcount(t);
          if (rc != 1) fail("count", "slot %d was changed in place while its storage reports %zu owners", a, rc);
          leave(t); join(t, fresh());
        } else if (fin) { leave(t); join(t, fresh()); fams[t.fam].escaped = true; }
        else if (agg && x.noop && t.fam) { // a refused change may or may not have detached the storage
          size_t rc = refcount(t); Fam& f = fams[t.fam]; if (rc == 1 && f.live > 1) { leave(t); join(t, fresh()); } else if (rc == 1) f.escaped = false; }
      } else if (t.fam && (t.kind == K_H || t.kind == K_P || t.kind == K_PO || t.kind == K_PA || t.kind == K_HO) && !fin) {
        size_t rc = refcount(t); if (rc == 1 && fams[t.fam].live > 1) { leave(t); join(t, fresh()); }
      }
      logf("%d MUT slot %d verb %d key %s idx %zu val %s -> %s", opi, a, verb, qstr(k).c_str(), idx, show(sr.v, 60).c_str(), ex_names[e]); observe("MUT", e);
      note_state(mix(hash(t.v), (u64) t.kind));
    }
    template <class HT> Ex self_mutate(Op const& op, int ti, HT& h, int verb, std::string const& k, size_t idx, size_t n, Expect& x) {
      Ex w = x.err; V nv = x.v;
      switch (verb) {
        case ADD: return act(op, [&] { h.add_field(sv(k), h); }, w, ti, nv); case INS: return act(op, [&] { h.insert(sv(k), h); }, w, ti, nv);
        case SET: return act(op, [&] { h.set(sv(k), h); }, w, ti, nv); case PUSHB: return act(op, [&] { h.push_back(h); }, w, ti, nv);
        case PUSHF: return act(op, [&] { h.push_front(h); }, w, ti, nv); case INSI: return act(op, [&] { h.insert(idx, h); }, w, ti, nv);
        case SETI: return act(op, [&] { h.set(idx, h); }, w, ti, nv); default: return act(op, [&] { h.resize(n, h); }, w, ti, nv);
      }
    }

    // ---- views -------------------------------------------------------------------------------------
    void op_view(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_B || k == K_P; }); if (a < 0) return; int d = dst(op.a[1]); if (d == a) d = (d + 1) % NS; if (s[a].parent == d) return;
      wipe(d); Slot& f = s[a]; size_t before = refcount(f); Slot& t = s[d]; Ex e = X_FINE; u64 blocks = mem.live_blocks;
      if (f.kind == K_H) { e = act(op, [&] { t.hv.with([&] { return (HV) *f.h; }); }, X_FINE, -1, nullptr); t.kind = K_HV; }
      else if (f.kind == K_B) { e = act(op, [&] { t.bv.with([&] { return (BV) *f.b; }); }, X_FINE, -1, nullptr); t.kind = K_BV; }
      else { e = act(op, [&] { t.pv.with([&] { return (PV) *f.p; }); }, X_FINE, -1, nullptr); t.kind = K_PV; }
      t.v = f.v; t.parent = a; t.fam = 0;
      if (t.v->t != T::Str && refcount(f) != before) fail("count", "taking a view changed the owner count from %zu to %zu", before, refcount(f));
      (void) blocks; log("VIEW", a, d, e);
    }
    void op_owner(Op const& op) {
      int a = any(op.a[0], is_view); if (a < 0) return; int d = dst(op.a[1]); Slot& f = s[a]; int par = f.parent; if (d == par) d = (d + 1) % NS; if (d == par) return;
      V v = f.v; bool root = eq(v, s[par].v) && weight(v) == weight(s[par].v); size_t before = refcount(f); Opt<H> h; Opt<B> b; Opt<P> p; Ex e = X_FINE; Kind k = K_H; bool fin = finalized(f);
      if (f.kind == K_HV) { e = act(op, [&] { h.with([&] { return (*f.hv).as_owner(); }); }, X_FINE, -1, nullptr); k = K_H; }
      else if (f.kind == K_BV) { e = act(op, [&] { b.with([&] { return (*f.bv).as_owner(); }); }, X_FINE, -1, nullptr); k = K_B; }
      else { e = act(op, [&] { p.with([&] { return (*f.pv).as_owner(); }); }, X_FINE, -1, nullptr); k = K_P; }
      size_t after = refcount(f);
      if ((v->t == T::Obj || v->t == T::Arr) && after != before + 1) fail("count", "promoting a view to an owner moved the owner count from %zu to %zu", before, after);
      i64 fam = fin ? s[par].fam : 0; (void) root;
      if (!fin) escape(s[par]);
      if (fam) ++fams[fam].live; Slot& t = put(d, k, v, fam); if (fam && --fams[fam].live == 0) fams.erase(fam);
      t.h.take(h); t.b.take(b); t.p.take(p); if (fin && v->t == T::Null && refcount(t) == 0) leave(t);
      log("OWNER", a, d, e);
    }

    // ---- typed wrappers -------------------------------------------------------------------------------
    void op_wrap(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_P || k == K_PO || k == K_PA || k == K_HO; }); if (a < 0) return; int d = dst(op.a[1]); bool mv = (op.a[2] & 1) && !op.fk; int want = (int) ((u64) op.a[3] % 2);
      Slot& f = s[a]; V v = f.v; i64 fam = f.fam; Ex e = X_FINE, w = X_FINE; Opt<PO> po; Opt<PA> pa; Opt<HO> ho; Opt<H> h; Opt<P> p; Kind k = K_NONE; if (mv) clear_deps(a);
      if (f.kind == K_H) { w = v->t == T::Obj ? X_FINE : X_TYPE; k = K_HO; if (w != X_FINE) mv = false; e = act(op, [&] { if (mv) ho.with([&] { return HO {std::move(*f.h)}; }); else ho.with([&] { return HO {*f.h}; }); }, w, -1, nullptr); }
      else if (f.kind == K_P) {
        if (want == 0) { w = v->t == T::Obj ? X_FINE : X_TYPE; if (w != X_FINE) mv = false; k = K_PO; e = act(op, [&] { if (mv) po.with([&] { return PO {std::move(*f.p)}; }); else po.with([&] { return PO {*f.p}; }); }, w, -1, nullptr); }
        else { w = v->t == T::Arr ? X_FINE : X_TYPE; if (w != X_FINE) mv = false; k = K_PA; e = act(op, [&] { if (mv) pa.with([&] { return PA {std::move(*f.p)}; }); else pa.with([&] { return PA {*f.p}; }); }, w, -1, nullptr); }
      } else if (f.kind == K_PO) { k = K_P; e = act(op, [&] { p.with([&] () -> P { if (mv) return std::move(*f.po); return *f.po; }); }, X_FINE, -1, nullptr); }
      else if (f.kind == K_PA) { k = K_P; e = act(op, [&] { p.with([&] () -> P { if (mv) return std::move(*f.pa); return *f.pa; }); }, X_FINE, -1, nullptr); }
      else { k = K_H; e = act(op, [&] { h.with([&] () -> H { if (mv) return std::move(*f.ho); return *f.ho; }); }, X_FINE, -1, nullptr); }
      if (e == X_FINE) { if (fam) ++fams[fam].live; if (mv) wipe(a); Slot& t = put(d, k, v, fam); if (fam && --fams[fam].live == 0) fams.erase(fam); t.h.take(h); t.p.take(p); t.po.take(po); t.pa.take(pa); t.ho.take(ho); }
      log("WRAP", a, d, e);
    }

    // ---- iterators -------------------------------------------------------------------------------------
    void op_iter(Op const& op) {
      int a = any_where(op.a[0], [] (Slot& x) { return (x.kind == K_H || x.kind == K_B || x.kind == K_P) && (x.v->t == T::Obj || x.v->t == T::Arr); }); if (a < 0) return; int d = dst(op.a[1]); if (d == a) d = (d + 1) % NS; if (s[a].parent == d) return;
      wipe(d); Slot& f = s[a]; Slot& t = s[d]; bool obj = f.v->t == T::Obj; bool ks = obj && (op.a[2] & 1); Ex e = X_FINE;
      auto mkit = [&] (auto& it, auto& h) { e = act(op, [&] { it.with([&] { return ks ? h.key_begin() : h.begin(); }); }, X_FINE, -1, nullptr); };
      if (f.kind == K_H) mkit(t.hit, *f.h); else if (f.kind == K_B) mkit(t.bit, *f.b); else mkit(t.pit, *f.p);
      t.kind = f.kind == K_H ? K_HIT : f.kind == K_B ? K_BIT : K_PIT; t.frombuf = finalized(f); t.parent = t.frombuf ? -1 : a; t.keys = ks; t.pos = 0; t.fam = 0;
      if (t.frombuf) escape(f);      // iterators over packets share ownership
      t.seq.clear(); t.keyseq.clear(); if (obj) for (auto& q : f.v->o) { t.keyseq.push_back(q.first); t.seq.push_back(q.second); } else t.seq = f.v->a;
      log("ITER", a, d, e);
    }
    void op_itmove(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_HIT || k == K_BIT || k == K_PIT; }); if (a < 0) return; Slot& t = s[a]; int what = (int) ((u64) op.a[1] % 5); Ex e = X_FINE;
      auto go = [&] (auto& it) {
        using IT = typename std::decay<decltype(it)>::type;
        switch (what) {
          case 0: case 1: if (t.pos < t.seq.size()) { e = act(op, [&] { if (what) ++it; else it++; }, X_FINE, -1, nullptr); ++t.pos; } break;
          case 2: if (t.pos > 0) { e = act(op, [&] { --it; }, X_FINE, -1, nullptr); --t.pos; } break;
          case 3: { bool ok; { Lib l; IT c = it; ok = c == it; IT m = std::move(c); ok = ok && m == it; it = m; } if (!ok) fail("value", "a copied iterator differs from its source"); break; }
          default: if (t.pos < t.seq.size()) { bool ok; { Lib l; IT c = it; ++c; ok = !(c == it); it = std::move(c); } if (!ok) fail("value", "an advanced iterator equals its source"); ++t.pos; } break;
        }
      };
      if (t.kind == K_HIT) go(*t.hit); else if (t.kind == K_BIT) go(*t.bit); else go(*t.pit);
      log("ITMOVE", a, what, e);
    }

    // ---- representation changes ------------------------------------------------------------------------
    void op_fin(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return x.kind == K_P && (op.a[2] % 8 ? x.v->t == T::Obj : true); }); if (a < 0) return; Slot& t = s[a]; bool fin = finalized(t); int style = (int) ((u64) op.a[1] % 4); bool to_fin = style < 2;
      Ex w = (to_fin && !fin && t.v->t != T::Obj) ? X_TYPE : X_FINE; clear_deps(a); Ex e;
      switch (style) { case 0: e = act(op, [&] { (*t.p).finalize(); }, w, a, t.v); break; case 1: e = act(op, [&] { (*t.p).lower(); }, w, a, t.v); break; case 2: e = act(op, [&] { (*t.p).definalize(); }, w, a, t.v); break; default: e = act(op, [&] { (*t.p).lift(); }, w, a, t.v); }
      bool now = finalized(t);
      if (e == X_FINE && now != to_fin) fail("value", "slot %d: is_finalized() is %d after %s", a, (int) now, to_fin ? "finalize" : "definalize");
      if (e != X_FINE && now != fin) fail("value", "slot %d: a refused conversion changed is_finalized()", a);
      if (e == X_FINE && now != fin) { leave(t); join(t, fresh()); if (op.fk) fams[t.fam].escaped = true; settle(a); }
      log("FIN", a, style, e);
    }
    void op_xmog(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_B || k == K_P; }); if (a < 0) return; Slot& f = s[a]; int d = dst(op.a[1]); size_t before = refcount(f); V v = f.v; bool fin = finalized(f); Ex e = X_FINE; Ex w = (fin && v->t != T::Obj) ? X_TYPE : X_FINE;
      using H2 = dart::basic_heap<RC2>; using B2 = dart::basic_buffer<RC2>; using P2 = dart::basic_packet<RC2>;
      auto chk = [&] (auto& o, char const* what) { Cmp c; c.quiet = true; c.mode = opi % 5; compare(o, v, c); if (c.bad) fail("value", "%s differs after conversion to another reference counter: %s", what, c.why.c_str()); };
      auto solo = [&] (size_t rc, bool agg) { if (agg && rc != 1) fail("count", "a converted value reports %zu owners", rc); if (refcount(f) != before) fail("count", "conversion to another counter changed the source's owner count from %zu to %zu", before, refcount(f)); };
      bool agg = v->t == T::Obj || v->t == T::Arr;
      Opt<H> h; Opt<B> b; Opt<P> p;
      if (f.kind == K_H) { Opt<H2> o; e = act(op, [&] { o.with([&] { return H::template transmogrify<RC2>(*f.h); }); }, w, -1, nullptr); if (e == X_FINE) { chk(*o, "mutable value"); solo(([&] { Lib l; return (*o).refcount(); })(), agg); Lib l; h.with([&] { return H2::template transmogrify<RC>(*o); }); o.reset(); } }
      else if (f.kind == K_B) { Opt<B2> o; e = act(op, [&] { o.with([&] { return B::template transmogrify<RC2>(*f.b); }); }, w, -1, nullptr); if (e == X_FINE) { chk(*o, "finalized value"); solo(([&] { Lib l; return (*o).refcount(); })(), agg); Lib l; b.with([&] { return B2::template transmogrify<RC>(*o); }); o.reset(); } }
      else { Opt<P2> o; e = act(op, [&] { o.with([&] { return P::template transmogrify<RC2>(*f.p); }); }, w, -1, nullptr); if (e == X_FINE) { chk(*o, "packet"); bool same; { Lib l; same = (*o).is_finalized() == fin; } if (!same) fail("value", "conversion to another counter changed is_finalized()"); solo(([&] { Lib l; return (*o).refcount(); })(), agg); Lib l; p.with([&] { return P2::template transmogrify<RC>(*o); }); o.reset(); } }
      if (e == X_FINE) { Kind k = f.kind; Slot& t = put(d, k, v, fresh()); t.h.take(h); t.b.take(b); t.p.take(p); settle(d); }
      log("XMOG", a, d, e);
    }

    // ---- text ---------------------------------------------------------------------------------------------
    void op_deeptext(Op const& op) {
      size_t n = (size_t) op.a[0]; int style = (int) (op.a[1] % 4); std::string t(n, '['); if (style % 2 == 0) t += std::string(n, ']'); t = "{\"a\":" + t; if (style % 2 == 0) t += '}';
      static char const* const nm[] = {"", " that is cut", "", " that is cut"};
      int st = on_small_stack([&] { try { if (style < 2) { H h = H::from_json(sv(t)); return h.is_object() ? 0 : 2; } B b = B::from_json(sv(t)); return b.is_object() ? 0 : 2; } catch (dart::parse_error const&) { return 1; } catch (std::exception const&) { return 3; } });
      if (st < 0) fail("deep-nesting", "parsing JSON text of %zu arrays nested in each other%s exhausts an 8 MB stack", n, nm[style]);
      if (n < 1000 && st != (style % 2 ? 1 : 0)) fail("outcome", "JSON text of %zu arrays nested in each other%s: %d", n, nm[style], st);
      probe("parse:deep");
    }
    void op_parse(Op const& op) {
      int d = dst(op.a[0]); bool yaml = op.a[2] & 1; int form = (int) ((u64) op.a[3] % 4); Rng r((u64) op.a[1]); GenCfg jg = g; jg.json = true; jg.huge = !yaml; int dmg = (int) ((u64) op.a[4] % 3);
      bool needobj = form == 1 || form == 3;
      V v = needobj || r.chance(70) ? gen_object(r, jg, g.maxdepth) : gen_value(r, jg, g.maxdepth);
      std::string text; V expect; bool perm = false, ext = false;   // read permissively; holds something only permissive reading takes
      // now and then a key at, or just past, the longest the format can hold
      size_t longkey = v->t == T::Obj && r.chance(6) ? (r.chance(40) ? 65535 : 65536 + r.below(40)) : 0; bool over = longkey > 65535;
      if (longkey) { dmg = 0; Fields f = v->o; if (yaml) f = yaml_value(v)->o; f[std::string(longkey, (char) ('a' + r.below(26)))] = mk_int(7); v = expect = mk_obj(f); if (yaml) text = yaml_lines(v); else to_json(v, text, &r); probe(over ? "parse:key-too-long" : "parse:longest-key"); if (over) dmg = 1; }
      else if (yaml) { v = expect = yaml_value(v); text = yaml_text(v, r); } else { if ((u64) op.a[5] % 4 == 0) { perm = true; to_json(v, text, &r, &ext); } else to_json(v, text, &r); expect = v; }
      int what = 0; if (dmg && !over) { text = damage_text(text, r, what); if (r.chance(30)) text = damage_text(text, r, what); }
      // the text sits in an exactly sized block, so that any read past it is seen
      std::unique_ptr<char[]> buf(new char[text.size() ? text.size() : 1]); memcpy(buf.get(), text.data(), text.size());
      dart::shim::string_view tv(buf.get(), text.size());
      wipe(d); Opt<H> h; Opt<B> b; Opt<P> p; Ex e; steps = 0; step_limit = 4000000 + 40000 * text.size();
      auto run = [&] { h.reset(); b.reset(); p.reset();
        if (perm && (u64) op.a[5] % 16) TextTable<RC>::read(tv, form, h, b, p, true);
        else if (!yaml) switch (form) { case 0: h.with([&] { return H::from_json(tv); }); break; case 1: b.with([&] { return B::from_json(tv); }); break; case 2: p.with([&] { return P::from_json(tv, false); }); break; default: p.with([&] { return P::from_json(tv, true); }); }
        else switch (form) { case 0: h.with([&] { return H::from_yaml(tv); }); break; case 1: b.with([&] { return B::from_yaml(tv); }); break; case 2: p.with([&] { return P::from_yaml(tv, false); }); break; default: p.with([&] { return P::from_yaml(tv, true); }); } };
      if (verbose) fprintf(stderr, "text %s\n", qstr(text, 3000).c_str());
      if (!dmg) e = act(op, run, ext && (u64) op.a[5] % 16 == 0 ? X_PARSE : v->t >= T::Arr ? X_FINE : yaml ? X_RUNTIME : X_TYPE, -1, nullptr);
      else {
        if (op.fk) { { Arm arm(op.fk, op.fn, yaml); e = attempt(run); } if (fault.fired) { faults_seen = true; probe("fault:reported"); } check_all("after a failed parse"); }
        u64 before = mem.live_blocks; h.reset(); b.reset(); p.reset(); u64 base = mem.live_blocks; (void) before;
        e = attempt(run);
        if (e != X_FINE && mem.live_blocks != base) suspect("leak", "a failed parse left %lld blocks behind", (long long) (mem.live_blocks - base));
        if (over && e != X_INVAL) fail("outcome", "%s text with a key of %zu bytes gave %s", yaml ? "YAML" : "JSON", longkey, ex_names[e]);
        probe(e == X_FINE ? "parse:damaged-accepted" : "parse:damaged-rejected");
      }
      step_limit = 0;
      if (e == X_FINE) {
        Kind k = h.has ? K_H : b.has ? K_B : K_P; Slot& t = put(d, k, expect, fresh()); t.h.take(h); t.b.take(b); t.p.take(p);
        if (dmg) { V got; visit(t, [&] (auto& x) { got = extract(x); }); t.v = got; }
        settle(d); int i = d; std::string why;
        if (!reads_as(t, t.v, opi % 4, &why)) fail("value", "parsed %s value differs%s: %s", yaml ? "YAML" : "JSON", dmg ? " between two ways of reading it" : "", why.c_str()); (void) i;
      }
      check_all("after a parse");
      log(yaml ? "YAML" : "JSON", d, dmg, e);
    }
    static bool has_huge(V const& v) { if (v->t == T::Dec) return std::fabs(v->d) >= 1e18; for (auto& e : v->a) if (has_huge(e)) return true; for (auto& e : v->o) if (has_huge(e.second)) return true; return false; }
    void op_tojson(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return value_kind(x.kind) && weight(x.v) < 3000; }); if (a < 0) return; Slot& f = s[a]; V v = f.v; std::string text; bool nan = !json_safe(v) || op.a[1] % 8 == 0;
      int route = (int) ((u64) op.a[2] % 8); route = route < 4 ? 0 : route < 6 ? 1 : route == 6 ? 2 : nan || op.fk ? 0 : 3; size_t before = refcount(f); u64 blocks = mem.live_blocks;
      Ex e; { Opt<std::string> o; e = act(op, [&] { visit(f, [&] (auto& h) { TextTable<RC>::write(h, v->t, route, nan, o); }); }, X_FINE, -1, nullptr); if (o.has) { Out x; text.assign((*o).data(), (*o).size()); } }
      if (refcount(f) != before) fail("count", "writing text left %zu owners instead of %zu", refcount(f), before);
      if (mem.live_blocks != blocks) suspect("leak", "writing text left %lld blocks behind", (long long) (mem.live_blocks - blocks));
      obs.add(text); probe(strf("text:route%d", route).c_str());
      TextReader tr(text); V back = tr.read();
      if (!tr.ok) fail("value", "the text written for %s is no JSON: %s", show(v, 100).c_str(), text.substr(0, 200).c_str());
      if (!eq(back, v)) fail("value", "the text written for %s denotes another value: %s", show(v, 100).c_str(), text.substr(0, 200).c_str());
      if (!tr.key_order) fail("value", "the text written has its keys in another order than the value: %s", text.substr(0, 200).c_str());
      if (v->t == T::Obj || v->t == T::Arr) {   // roots of text are objects or arrays, of finalized values objects
        int form = (int) ((u64) op.a[3] % 4); if (v->t != T::Obj) form &= ~1; Opt<H> h; Opt<B> b; Opt<P> p; std::unique_ptr<char[]> buf(new char[text.size() ? text.size() : 1]); memcpy(buf.get(), text.data(), text.size());
        Op o2 = op; o2.fk = op.fk ? 0 : (int) ((u64) op.a[4] % 5 == 0) * F_NTH; o2.fn = 1 + (u64) op.a[5] % 24;
        Ex e2 = act(o2, [&] { h.reset(); b.reset(); p.reset(); TextTable<RC>::read(dart::shim::string_view(buf.get(), text.size()), form, h, b, p); }, X_FINE, -1, nullptr); (void) e2; buf.reset();
        Cmp c; c.quiet = true; c.mode = (int) ((u64) op.a[5] % 5); if (h.has) compare(*h, v, c); if (b.has) compare(*b, v, c); if (p.has) compare(*p, v, c); if (c.bad) fail("value", "text read back differs: %s, text %s", c.why.c_str(), text.substr(0, 200).c_str());
        if (b.has || (p.has && form == 3)) { std::string bytes, want = hist_reference_bytes(v); mem_set_fill((u64) plan.get("fill", 1), (int) plan.get("fillmode", 1)); if (b.has) { auto sp = (*b).get_bytes(); bytes.assign((char const*) sp.data(), (size_t) sp.size()); } else { auto sp = (*p).get_bytes(); bytes.assign((char const*) sp.data(), (size_t) sp.size()); } if (bytes != want) fail("bytes", "text read back finalized has other bytes than the value"); }
      }
      log("TOJSON", a, (int) text.size(), e);
    }

    // ---- bytes -------------------------------------------------------------------------------------------
    template <class F> void byte_source(Slot& f, F&& fn) { if (f.kind == K_B) fn(*f.b); else if (f.kind == K_P) fn(*f.p); }
    void op_bytes(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return (x.kind == K_B || x.kind == K_P) && x.v->t == T::Obj && finalized(x); }); if (a < 0) return; int d = dst(op.a[1]); int style = (int) ((u64) op.a[2] % 8); Slot& f = s[a]; V v = f.v; Ex e = X_FINE;
      if (style == 0) {   // duplicated bytes outlive everything
        Opt<Bytes> o; size_t len = 0; byte_source(f, [&] (auto& h) { e = act(op, [&] { o.with([&] { return h.dup_bytes(len); }); }, X_FINE, -1, nullptr); });
        std::string ref; byte_source(f, [&] (auto& h) { Lib l; auto sp = h.get_bytes(); Out x; ref.assign((char const*) sp.data(), (size_t) sp.size()); });
        Slot& t = put(d, K_BYT, v, 0); t.byt.take(o); t.nbytes = len; t.keyseq = {ref}; check_slot(d, 0, "at once");
      } else {
        // receive: copy the bytes into scratch memory, construct, scribble over the memory
        std::string ref; size_t refn = 0; byte_source(f, [&] (auto& h) { Lib l; auto sp = h.get_bytes(); Out x; ref.assign((char const*) sp.data(), (size_t) sp.size()); }); refn = ref.size();
        i64 fam = fresh(); Opt<B> b; Opt<P> p;
        if (style == 1 || style == 2) {
          std::unique_ptr<char[]> raw(new char[refn + 64]); size_t off = 8 - ((size_t) (uintptr_t) raw.get() & 7); memcpy(raw.get() + off, ref.data(), refn);
          gsl::span<gsl::byte const> sp((gsl::byte const*) raw.get() + off, (std::ptrdiff_t) refn);
          if (style == 1) e = act(op, [&] { b.with([&] { return B {sp}; }); }, X_FINE, -1, nullptr); else e = act(op, [&] { p.with([&] { return P {sp}; }); }, X_FINE, -1, nullptr);
          memset(raw.get(), 0xa5, refn + 64);
        } else if (style == 3 || style == 4) {   // adopt a duplicate
          Op o2 = op; o2.fk = 0;
          byte_source(f, [&] (auto& h) { e = act(o2, [&] { Bytes u = h.dup_bytes(); if (style == 3) b.with([&] { return B {std::move(u)}; }); else p.with([&] { return P {std::move(u)}; }); }, X_FINE, -1, nullptr); });
        } else if (style == 5 || style == 6) {   // share the root's bytes with a second packet
          V root = f.v; bool isroot = false; byte_source(f, [&] (auto& h) { Lib l; Shared* tmp = nullptr; (void) tmp; auto sp = h.get_bytes(); (void) sp; });
          (void) root; (void) isroot;
          share(op, f, d); return;
        } else {         // bytes of a nested object
          V child; std::string key; for (auto& q : v->o) if (q.second->t == T::Obj) { child = q.second; key = q.first; break; }
          if (!child) return;
          byte_source(f, [&] (auto& h) { e = act(op, [&] { b.with([&] { auto c = h[sv(key)]; return B {c.get_bytes()}; }); }, X_FINE, -1, nullptr); }); v = child;
        }
        Kind k = b.has ? K_B : K_P; Slot& t = put(d, k, v, fam); t.b.take(b); t.p.take(p);
      }
      log("BYTES", a, style, e);
    }
    void share(Op const& op, Slot& f, int d) { share_impl(op, f, d, 0); }
    template <class I> void share_impl(Op const&, Slot& f, int d, I) {
      // share_bytes() hands out the root packet's storage through the counter itself
      if (!f.fam) return; V v = f.v; (void) d;
      Opt<P> p; size_t n = 0; bool isroot = false;
      share_into(f, p, n, isroot, (Shared*) nullptr);
    }
    template <class S> auto share_into(Slot& f, Opt<P>&, size_t& n, bool&, S*) -> void {
      size_t before = refcount(f); using Tr = dart::refcount::take<S>;
      struct Hole { alignas(S) char raw[sizeof(S)]; S* get() { return reinterpret_cast<S*>(raw); } };
      { Lib l; Hole hole; Tr::perform(hole.get(), nullptr, [] (gsl::byte const*) {}); S& bytes = *hole.get();
        struct Bye { S& s; ~Bye() { s.~S(); } } bye {bytes};
        // the second time round, what is handed in already owns something
        for (int round = 0; round < 2; ++round) {
          byte_source(f, [&] (auto& h) { n = h.share_bytes(bytes); });
          Out o; size_t mid = refcount(f); if (mid != before + 1) fail("count", "share_bytes moved the owner count from %zu to %zu", before, mid);
          auto* q = dart::refcount::unwrap<S>::perform(bytes); if (!q) fail("value", "share_bytes handed out nothing"); }
      }
      if (refcount(f) != before) fail("count", "releasing shared bytes left %zu owners instead of %zu", refcount(f), before);
      log("SHARE", 0, 0, X_FINE);
    }

    // ---- refused calls ---------------------------------------------------------------------------------
    void op_refuse(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_B || k == K_P || k == K_HV || k == K_BV || k == K_PV; }); if (a < 0) return; Slot& f = s[a]; int what = (int) ((u64) op.a[1] % 18); V v = f.v; bool fin = finalized(f); Ex w = X_FINE, e = X_FINE;
      bool obj = v->t == T::Obj, arr = v->t == T::Arr;
      visit(f, [&] (auto& h) {
        using HT = typename std::decay<decltype(h)>::type;
        switch (what) {
          case 0: w = v->t == T::Str ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.strv(); }, w, -1, nullptr); break;
          case 1: w = v->t == T::Int ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.integer(); }, w, -1, nullptr); break;
          case 2: w = v->t == T::Dec ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.decimal(); }, w, -1, nullptr); break;
          case 3: w = v->t == T::Bool ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.boolean(); }, w, -1, nullptr); break;
          case 4: w = v->t == T::Int || v->t == T::Dec ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.numeric(); }, w, -1, nullptr); break;
          case 5: w = obj ? X_FINE : X_TYPE; e = act(op, [&] { (void) h[sv(keys[0])]; }, w, -1, nullptr); break;
          case 6: w = arr ? X_FINE : X_TYPE; e = act(op, [&] { (void) h[(size_t) 0]; }, w, -1, nullptr); break;
          case 7: w = obj || arr || v->t == T::Str ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.size(); }, w, -1, nullptr); break;
          case 8: w = obj || arr ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.begin(); }, w, -1, nullptr); break;
          case 9: w = obj ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.keys(); }, w, -1, nullptr); break;
          case 10: w = obj ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.has_key(sv(keys[1])); }, w, -1, nullptr); break;
          case 11: w = obj ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.find(sv(keys[1])); }, w, -1, nullptr); break;
          case 12: w = arr ? (v->a.empty() ? X_RANGE : X_FINE) : X_TYPE; e = act(op, [&] { (void) h.at_front(); }, w, -1, nullptr); break;
          case 13: w = arr ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.back(); }, w, -1, nullptr); break;
          case 14: w = obj ? (v->o.count("zz!") ? X_FINE : X_RANGE) : X_TYPE; e = act(op, [&] { (void) h.at("zz!"); }, w, -1, nullptr); break;
          case 15: w = obj || arr ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.values(); }, w, -1, nullptr); break;
          case 16: if (!arr && fin) return; w = arr ? X_FINE : X_TYPE; e = act(op, [&] { (void) h.capacity(); }, w, -1, nullptr); break;
          default: e = act(op, [&] { if (h.integer_or(5) == 5 && v->t == T::Int && v->i != 5) throw dart::type_error("x"); (void) h.strv_or("q"); (void) h.decimal_or(1); (void) h.boolean_or(true); (void) h.numeric_or(2); }, X_FINE, -1, nullptr); break;
        }
      });
      if ((f.kind == K_P) && (u64) op.a[2] % 2) {
        if (fin) {   // a finalized handle refuses every change, and stays as it was
          static int const n = 14; int m = (int) ((u64) op.a[3] % n); P& h = *f.p; std::string const& k = keys[(u64) op.a[4] % keys.size()];
          w = X_STATE; Op o2 = op;
          switch (m) {
            case 0: e = act(o2, [&] { h.add_field(sv(k), 1); }, w, a, v); break; case 1: e = act(o2, [&] { h.insert(sv(k), "x"); }, w, a, v); break; case 2: e = act(o2, [&] { h.set(sv(k), nullptr); }, w, a, v); break;
            case 3: e = act(o2, [&] { h.remove_field(sv(k)); }, w, a, v); break; case 4: e = act(o2, [&] { h.erase(sv(k)); }, w, a, v); break; case 5: e = act(o2, [&] { h.clear(); }, w, a, v); break;
            case 6: e = act(o2, [&] { h.push_back(1); }, w, a, v); break; case 7: e = act(o2, [&] { h.push_front(1); }, w, a, v); break; case 8: e = act(o2, [&] { h.pop_back(); }, w, a, v); break; case 9: e = act(o2, [&] { h.pop_front(); }, w, a, v); break;
            case 10: e = act(o2, [&] { h.resize(2); }, w, a, v); break; case 11: e = act(o2, [&] { h.reserve(9); }, w, a, v); break; case 12: e = act(o2, [&] { h.erase((size_t) 0); }, w, a, v); break; default: e = act(o2, [&] { h.insert((size_t) 0, 1); }, w, a, v); break;
          }
        } else {
          int m = (int) ((u64) op.a[3] % 3); P& h = *f.p; w = X_STATE; size_t n;
          if (m == 0) e = act(op, [&] { (void) h.get_bytes(); }, w, -1, nullptr); else if (m == 1) e = act(op, [&] { (void) h.dup_bytes(n); }, w, -1, nullptr); else e = act(op, [&] { (void) h.dup_bytes(); }, w, -1, nullptr);
        }
        if (finalized(f) != fin) fail("value", "a refused call changed is_finalized()");
      }
      log("REFUSE", a, what, e);
    }

    // everything is dropped: nothing may remain
    void op_drain() {
      for (int i = 0; i < NS; ++i) if (s[i].kind >= K_HV && s[i].kind <= K_PV) wipe(i);
      Rng r((u64) plan.seed + (u64) opi); int order[NS]; for (int i = 0; i < NS; ++i) order[i] = i; for (int i = NS - 1; i > 0; --i) std::swap(order[i], order[r.below((u64) i + 1)]);
      for (int i : order) wipe(i);
      if (mem.live_blocks > mem.base) suspect("leak", "everything was destroyed but storage is still held: %s", mem_describe_leaks().c_str());
      if (rc_live) fail("leak", "%llu reference counters are still alive", (unsigned long long) rc_live);
      log("DRAIN", 0, 0, X_FINE);
    }
    // bytes depend on the value alone
    void op_canon(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return (x.kind == K_H || x.kind == K_P || x.kind == K_B || x.kind == K_PO) && x.v->t == T::Obj; }); if (a < 0) return; Slot& f = s[a]; V v = f.v;
      bool nested = f.kind == K_B || (f.kind == K_P && finalized(f));
      std::string got; u64 fs = (u64) op.a[1]; int fm = (int) ((u64) op.a[2] % 3) == 0 ? 2 : 1; mem_set_fill(fs, fm); Ex e = X_FINE; int style = (int) ((u64) op.a[3] % 4);
      auto grab = [&] (B const& b) { Lib l; auto sp = b.get_bytes(); Out o; got.assign((char const*) sp.data(), (size_t) sp.size()); };
      Opt<B> b;
      if (f.kind == K_H) e = act(op, [&] { b.with([&] { return style & 1 ? (*f.h).finalize() : B {*f.h}; }); }, X_FINE, -1, nullptr);
      else if (f.kind == K_B) e = act(op, [&] { b.with([&] { if (style == 0) return B {*f.b}; H h = (*f.b).definalize(); return h.finalize(); }); }, X_FINE, -1, nullptr);
      else { 
        e = act(op, [&] { b.with([&] { P t = f.kind == K_P ? *f.p : P {(*f.po).dynamic()}; if (style == 1) t.definalize(); if (style == 2) { t.finalize(); t.definalize(); } t.finalize(); return static_cast<B>(t); }); }, X_FINE, -1, nullptr); }
      grab(*b); b.reset(); mem_set_fill((u64) plan.get("fill", 1), (int) plan.get("fillmode", 1));
      std::string want = hist_reference_bytes(v); mem_set_fill((u64) plan.get("fill", 1), (int) plan.get("fillmode", 1));
      if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        fail("bytes", "two histories of the same value give different bytes: %zu and %zu bytes, first difference at %zu (%s / %s), value %s", got.size(), want.size(), i, hexdump(got.data() + i, got.size() - i, 8).c_str(), hexdump(want.data() + i, want.size() - i, 8).c_str(), show(v, 200).c_str()); }
      (void) nested; note_state(hash(v)); log("CANON", a, (int) got.size(), e);
    }
    // reading a packet with no memory left
    void op_starve(Op const& op) {
      int a = any_where(op.a[0], [&] (Slot& x) { return (x.kind == K_B || x.kind == K_P || x.kind == K_BV || x.kind == K_PV) && finalized(x); }); if (a < 0) return; Slot& f = s[a];
      u64 tried; { Arm arm(F_FROM, 1);
        try { Cmp c; c.noalloc = true; c.mode = (int) ((u64) op.a[1] % 4); c.kind = "value"; c.path = "(no memory)"; visit(f, [&] (auto& h) { compare(h, f.v, c); more_reads(h, f.v); }); }
        catch (std::exception const& e) { in_lib = 0; fault.armed = false; fail("starved", "reading a packet failed for lack of memory: %s", e.what()); }
        tried = fault.fired; }
      if (tried) probe("starve:allocation-attempted");
      log("STARVE", a, (int) tried, X_FINE);
    }
    void more_reads(B const& b, V const& v) { reads_common(b, v); if (v->t == T::Obj) { bool ok; { Lib l; auto sp = b.get_bytes(); ok = dart::is_valid(sp); } if (!ok && v->t == T::Obj && ((uintptr_t) 0 == 0)) { /* a nested object may lie off the root's alignment */ } } }
    template <class HT> void more_reads(HT const& h, V const& v) { reads_common(h, v); }
    template <class HT> void reads_common(HT const& h, V const& v) {
      bool ok; { Lib l; HT c = h; HT m = std::move(c); HT k; k = m; ok = tof(k.get_type()) == v->t && k.refcount() + 1 > 0; auto vv = (typename HT::view) k; ok = ok && tof(vv.get_type()) == v->t; }
      if (!ok) fail("value", "a copied handle has another type");
      if (v->t == T::Obj && !v->o.empty()) { bool ok2; { Lib l; auto it = h.begin(); auto en = h.end(); size_t n = 0; auto i2 = it; while (it != en) { auto e = *it; (void) e; ++it; ++n; } ok2 = n == v->o.size() && i2 == h.begin(); } if (!ok2) fail("value", "iteration without memory gave another number of elements"); }
    }
    void op_equal(Op const& op) {
      auto ok = [] (Kind k) { return k >= K_H && k <= K_P; }; int a = any(op.a[0], ok), b = any(op.a[1], ok); if (a < 0 || b < 0) return; V x = s[a].v, y = s[b].v; bool same = deep_same(x, y), r = false, q = true; Ex e = X_FINE;
      visit2(s[a], s[b], [&] (auto& l, auto& m) { e = act(op, [&] { r = l == m; q = l != m; }, X_FINE, -1, nullptr); });
      if (r == q) fail("value", "== and != agree"); if (same && !r) fail("value", "slots %d and %d hold the same value %s but compare unequal", a, b, show(x, 80).c_str()); if (!same && r) fail("value", "slots %d and %d compare equal: %s / %s", a, b, show(x, 80).c_str(), show(y, 80).c_str());
      log("EQUAL", a, b, e);
    }
    // against the same value, a slightly different one or some other slot's, built anew in one of its forms
    void op_match(Op const& op) {
      int a = any(op.a[0], value_kind); if (a < 0) return; Slot& f = s[a]; V x = f.v, y = x; Rng g2((u64) op.a[1] * 991 + (u64) op.a[2]); u64 k = g2.below(100);
      if (k >= 80) { int b = any((i64) g2.below(NS), value_kind); y = s[b].v; } else if (k < 15) y = flip_zeros(y); else if (k >= 35) for (u64 n = 1 + g2.below(2); n > 0; --n) y = vary(y, g2, g);
      bool same = deep_same(x, y); probe(same ? "match:equal" : "match:different"); size_t before = refcount(f); u64 blocks = mem.live_blocks; starve_compare = !op.fk && op.a[5] % 2;
      Ex e = act(op, [&] { visit(f, [&] (auto& h) { EqualTable<RC>::go(h, y, same, (u64) op.a[3], (u64) op.a[4]); }); }, X_FINE, -1, nullptr);
      if (refcount(f) != before) fail("count", "comparing left %zu owners instead of %zu", refcount(f), before);
      if (mem.live_blocks != blocks) suspect("leak", "comparing left %lld blocks behind", (long long) (mem.live_blocks - blocks));
      log("MATCH", a, (int) ((u64) op.a[3] % 12), e);
    }
    template <class F> void visit2(Slot& x, Slot& y, F&& f) {
      auto in = [&] (auto& l) { switch (y.kind) { case K_H: f(l, *y.h); break; case K_B: f(l, *y.b); break; default: f(l, *y.p); } };
      switch (x.kind) { case K_H: in(*x.h); break; case K_B: in(*x.b); break; default: in(*x.p); }
    }
    // a route of the wider reading interface
    void op_route(Op const& op) {
      int a = any(op.a[0], value_kind); if (a < 0) return; Slot& f = s[a]; V v = f.v; Route r; Rng g2((u64) op.a[1] * 977 + (u64) op.a[2]);
      r.which = (u64) op.a[3]; r.sub = (u64) op.a[4]; r.n = gen_int(g2); r.text = gen_string(g2, g);
      if (v->t == T::Obj) { if (!v->o.empty() && !g2.chance(25)) { auto it = v->o.begin(); std::advance(it, (long) g2.below(v->o.size())); r.key = it->first; } else r.key = g2.chance(50) ? g2.pick(keys) : gen_key(g2, g);
        auto it = v->o.find(r.key); r.present = it != v->o.end(); if (r.present) r.at = it->second; }
      else { r.key = g2.pick(keys); r.idx = v->t == T::Arr ? (size_t) g2.below(v->a.size() + 2) : (size_t) g2.below(100000); if (v->t == T::Arr && r.idx < v->a.size()) { r.present = true; r.at = v->a[r.idx]; } if (v->t == T::Arr && g2.chance(4)) { r.present = false; r.idx = 0x7fffffffffffffffull >> g2.below(40); if (r.idx < v->a.size()) { r.present = true; r.at = v->a[r.idx]; } } }
      size_t before = refcount(f); u64 blocks = mem.live_blocks;
      Ex e = act(op, [&] { visit(f, [&] (auto& h) { RouteTable<RC>::go(h, v, r); }); }, X_FINE, -1, nullptr);
      if (refcount(f) != before) fail("count", "reading left %zu owners instead of %zu", refcount(f), before);
      if (mem.live_blocks != blocks) suspect("leak", "reading left %lld blocks behind", (long long) (mem.live_blocks - blocks));
      log("ROUTE", a, (int) (r.which % 12), e);
    }
    // a temporary copy is changed and thrown away: nothing may remain of it
    void op_ephem(Op const& op) {
      int a = any(op.a[0], [] (Kind k) { return k == K_H || k == K_P; }); if (a < 0) return; Slot& f = s[a]; if (f.v->t != T::Obj && f.v->t != T::Arr) return; size_t rc = refcount(f); u64 blocks = mem.live_blocks; int n = 1 + (int) ((u64) op.a[1] % 3); bool fin = finalized(f);
      auto go = [&] (auto& h) {
        using HT = typename std::decay<decltype(h)>::type;
        return act(op, [&] { HT c = h; HT d = c; for (int i = 0; i < n; ++i) if (!fin) { if (f.v->t == T::Obj) c.add_field("tmp!", i); else c.push_back(i); if (i & 1) d = c; } }, X_FINE, -1, nullptr);
      };
      Ex e = f.kind == K_H ? go(*f.h) : go(*f.p);
      if (refcount(f) != rc) fail("count", "a temporary copy left the owner count at %zu instead of %zu", refcount(f), rc);
      if (mem.live_blocks != blocks) suspect("leak", "a temporary copy left %lld blocks behind", (long long) (mem.live_blocks - blocks));
      log("EPHEM", a, n, e);
    }

    void step(Op const& op) {
      switch (op.code) {
        case LIT: op_lit(op); break; case COPY: op_copy(op); break; case MOVE: op_move(op); break; case ASSIGN: op_assign(op); break; case DROP: op_drop(op); break; case CONV: op_conv(op); break;
        case GET: op_get(op); break; case MUT: op_mut(op); break; case VIEW: op_view(op); break; case OWNER: op_owner(op); break; case WRAP: op_wrap(op); break; case ITER: op_iter(op); break; case ITMOVE: op_itmove(op); break;
        case FIN: op_fin(op); break; case XMOG: op_xmog(op); break; case PARSE: op_parse(op); break; case DEEPTEXT: op_deeptext(op); break; case TOJSON: op_tojson(op); break; case BYTES: op_bytes(op); break; case REFUSE: op_refuse(op); break;
        case DRAIN: op_drain(); break; case CANON: op_canon(op); break; case STARVE: op_starve(op); break; case EQUAL: op_equal(op); break; case EPHEM: op_ephem(op); break; case ROUTE: op_route(op); break; case MATCH: op_match(op); break;
        default: break;
      }
    }
    void run() {
      for (auto& op : plan.ops) {
        set_op(opi); u64 k = 0; for (int i = 0; i < NS; ++i) k = k * 16 + (u64) s[i].kind;
        note_history(mix(mix((u64) op.code, k), (u64) op.a[0] % NS)); note_state(mix(k, (u64) op.code));
        step(op); check_all("after this step"); ++opi;
      }
      set_op(opi); op_drain();
    }
  };
}
