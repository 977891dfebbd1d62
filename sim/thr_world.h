#pragma once
#include "threads.h"

namespace sim {
  template <template <class> class RC> struct ThrWorld {
    using H = dart::basic_heap<RC>; using B = dart::basic_buffer<RC>; using P = dart::basic_packet<RC>;
    static constexpr int NSL = 5;
    enum TK { N, TH, TB, TP };
    struct Slot { int k = N; V v = mk(); Opt<H> h; Opt<B> b; Opt<P> p; };
    struct Parcel { Slot s; Sync* sync; };
    struct Thr { Slot s[NSL]; Rng r {0}; std::deque<std::unique_ptr<Parcel>> inbox; bool quit = false; int id = 0; };
    Thr t[NT]; Slot kept[4]; Plan const& plan; GenCfg g; std::vector<std::string> keys; int nthreads; std::vector<std::pair<int, Op>> prog[NT];

    explicit ThrWorld(Plan const& p) : plan(p) {
      g.maxdepth = 2; g.maxwidth = 3; g.json = true; nthreads = (int) p.get("threads", 2);
      Rng r((u64) p.get("keyseed", 1)); for (int i = 0; i < 5; ++i) keys.push_back(gen_key(r, g)); keys.push_back("a");
    }
    template <class F> static void visit(Slot& s, F&& f) { if (s.k == TH) f(*s.h); else if (s.k == TB) f(*s.b); else if (s.k == TP) f(*s.p); }
    static void wipe(Slot& s) { s.h.reset(); s.b.reset(); s.p.reset(); s.k = N; s.v = mk(); }
    static bool fin(Slot& s) { bool r = false; visit(s, [&] (auto& h) { Lib l; r = h.is_finalized(); }); return r; }
    static void copy_slot(Slot& d, Slot& f) { if (&d == &f) return; wipe(d); if (f.k == TH) d.h.with([&] { Lib l; return *f.h; }); else if (f.k == TB) d.b.with([&] { Lib l; return *f.b; }); else if (f.k == TP) d.p.with([&] { Lib l; return *f.p; }); d.k = f.k; d.v = f.v; }
    static void move_slot(Slot& d, Slot& f) { if (&d == &f) return; wipe(d); d.h.take(f.h); d.b.take(f.b); d.p.take(f.p); d.k = f.k; d.v = f.v; f.k = N; f.v = mk(); }
    bool reads(Slot& s, V const& v, int mode, std::string* why) { Cmp c; c.mode = mode; c.quiet = true; visit(s, [&] (auto& h) { compare(h, v, c); }); if (why) *why = c.why; return !c.bad; }
    void check(Thr& me, Slot& s, int mode, char const* when) {
      if (s.k == N) return; std::string w; static char const* const nm[] = {"-", "heap", "buffer", "packet"};
      if (!reads(s, s.v, mode, &w)) fail("value", "thread %d: a %s no longer reads as its own value %s: %s", me.id, nm[s.k], when, w.c_str());
      size_t rc = 1; bool agg = s.v->t >= T::Arr; if (agg) { visit(s, [&] (auto& h) { Lib l; rc = h.refcount(); }); if (rc < 1) fail("count", "thread %d holds a value that reports no owners", me.id); }
    }
    template <class F> Ex act(Op const& op, F&& f, Ex want, Slot* tgt, V newv, Thr& me) {
      if (op.fk) {
        Ex o; u64 fired; { Arm arm(op.fk, op.fn); o = attempt(f); fired = fault.fired; }
        if (fired) {
          probe(o == X_FINE ? "fault:absorbed" : "fault:reported");
          if (tgt && tgt->k != N) {
            std::string w; bool old = reads(*tgt, tgt->v, 0, &w), nw = newv && reads(*tgt, newv, 0, nullptr);
            if (!old && !nw) fail("value", "thread %d: after a failed allocation a value is neither the old nor the new one: %s", me.id, w.c_str());
            if (nw && !old) return X_FINE;
          } else if (o == X_FINE && want == X_FINE) return o;
        } else { judge(o, want, me); return o; }
      }
      Ex o = attempt(f); judge(o, want, me); return o;
    }
    void judge(Ex o, Ex want, Thr& me) { if (o != want) fail("outcome", "thread %d: the call ended with %s, expected %s", me.id, ex_names[o], ex_names[want]); }
    static void fresh(Slot& d, V v, int kind, Rng& r) {
      wipe(d); d.v = v;
      if (kind == TB && v->t == T::Obj) { d.b.with([&] { Lib l; return build<H>(v, r).finalize(); }); d.k = TB; }
      else if (kind == TP || kind == TB) { d.p.with([&] { Lib l; P p = build_mixed<RC>(v, r, 25); if (v->t == T::Obj && r.chance(35)) p.finalize(); return p; }); d.k = TP; }
      else { d.h.with([&] { Lib l; return build<H>(v, r); }); d.k = TH; }
    }
    V value(Rng& r) { if (r.chance(12)) return gen_scalar(r, g); return r.chance(70) ? gen_object(r, g, 2) : gen_array(r, g, 2); }

    // ---- operations -------------------------------------------------------------------------
    void mut(Thr& me, Slot& s, Op const& op) {
      if (s.k == N || s.k == TB) return; Rng r((u64) op.a[4]); bool f = fin(s); V cur = s.v; bool obj = cur->t == T::Obj, arr = cur->t == T::Arr; if (!obj && !arr) return;
      V val = r.chance(25) ? value(r) : gen_scalar(r, g); int src = (int) ((u64) op.a[3] % (NSL * 2)); Slot* from = src < NSL && me.s[src].k == s.k ? &me.s[src] : nullptr; if (from) val = from->v; if (weight(cur) + weight(val) > 3000) return;
      Opt<H> hv; Opt<P> pv; if (from) { if (s.k == TH) hv.with([&] { Lib l; return *from->h; }); else pv.with([&] { Lib l; return *from->p; }); } else { if (s.k == TH) hv.with([&] { Lib l; return build<H>(val, r); }); else pv.with([&] { Lib l; return build<P>(val, r); }); }
      V nv = cur; Ex want = X_FINE; int verb = (int) ((u64) op.a[2] % 7); std::string k = keys[r.below(keys.size())]; size_t n = obj ? cur->o.size() : cur->a.size(), ix = n ? r.below(n) : 0;
      if (obj && n && r.chance(60)) { auto it = cur->o.begin(); std::advance(it, (long) ix); k = it->first; }
      auto vk = sv(k); Fields F = cur->o; std::vector<V> A = cur->a; bool mv = r.chance(50);
      auto go = [&] (auto& h, auto& val_) {
        if (obj) switch (verb) {
          case 0: case 1: case 2: F[k] = val; nv = mk_obj(F); if (f) want = X_STATE; return act(op, [&] { auto c = val_; if (mv) h.add_field(vk, std::move(c)); else h.insert(vk, c); }, want, &s, nv, me);
          case 3: want = f ? X_STATE : F.count(k) ? X_FINE : X_RANGE; if (F.count(k)) { F[k] = val; nv = mk_obj(F); } return act(op, [&] { h.set(vk, val_); }, want, &s, nv, me);
          case 4: case 5: F.erase(k); nv = mk_obj(F); if (f) want = X_STATE; return act(op, [&] { h.erase(vk); }, want, &s, nv, me);
          default: nv = mk_obj({}); if (f) want = X_STATE; return act(op, [&] { h.clear(); }, want, &s, nv, me);
        }
        switch (verb) {
          case 0: case 1: A.push_back(val); nv = mk_arr(A); if (f) want = X_STATE; return act(op, [&] { auto c = val_; if (mv) h.push_back(std::move(c)); else h.push_back(c); }, want, &s, nv, me);
          case 2: A.insert(A.begin() + (long) ix, val); nv = mk_arr(A); if (f) want = X_STATE; return act(op, [&] { h.insert(ix, val_); }, want, &s, nv, me);
          case 3: want = f ? X_STATE : n ? X_FINE : X_RANGE; if (n) { A[ix] = val; nv = mk_arr(A); } return act(op, [&] { h.set(ix, val_); }, want, &s, nv, me);
          case 4: if (n) A.erase(A.begin() + (long) ix); nv = mk_arr(A); if (f) want = X_STATE; return act(op, [&] { h.erase(ix); }, want, &s, nv, me);
          case 5: if (n) A.pop_back(); nv = mk_arr(A); if (f) want = X_STATE; return act(op, [&] { h.pop_back(); }, want, &s, nv, me);
          default: A.resize(n + 2, mk()); nv = mk_arr(A); if (f) want = X_STATE; return act(op, [&] { h.resize(n + 2); }, want, &s, nv, me);
        }
      };
      if (arr && n == 0 && (verb == 4 || verb == 5)) return;
      Ex e = s.k == TH ? go(*s.h, *hv) : go(*s.p, *pv); if (e == X_FINE) s.v = nv;
    }
    void conv(Thr& me, Slot& a, Slot& d, Op const& op) {
      if (a.k == N || &a == &d) return; int want = 1 + (int) ((u64) op.a[2] % 3); bool f = fin(a), obj = a.v->t == T::Obj; if (want == a.k) return; if (want == TB && !obj && !f) return;
      Opt<H> h; Opt<B> b; Opt<P> p; V v = a.v; bool mv = ((u64) op.a[3] & 1) && !op.fk;
      Ex e = act(op, [&] {
        if (a.k == TH) { if (want == TB) b.with([&] { return (*a.h).finalize(); }); else p.with([&] { return mv ? P {std::move(*a.h)} : P {*a.h}; }); }
        else if (a.k == TB) { if (want == TH) h.with([&] { return (*a.b).definalize(); }); else p.with([&] { return mv ? P {std::move(*a.b)} : P {*a.b}; }); }
        else { if (want == TH) h.with([&] { return mv ? static_cast<H>(std::move(*a.p)) : static_cast<H>(*a.p); }); else b.with([&] { return mv ? static_cast<B>(std::move(*a.p)) : static_cast<B>(*a.p); }); }
      }, X_FINE, nullptr, nullptr, me);
      if (e != X_FINE) return; if (mv) wipe(a); wipe(d); d.h.take(h); d.b.take(b); d.p.take(p); d.k = want; d.v = v;
    }
    void child(Slot& a, Slot& d, Op const& op, Thr& me) {
      if (a.k == N || &a == &d || (a.v->t != T::Obj && a.v->t != T::Arr)) return; V c; std::string k; size_t ix = 0;
      if (a.v->t == T::Obj) { if (a.v->o.empty()) return; auto it = a.v->o.begin(); std::advance(it, (long) ((u64) op.a[2] % a.v->o.size())); k = it->first; c = it->second; } else { if (a.v->a.empty()) return; ix = (u64) op.a[2] % a.v->a.size(); c = a.v->a[ix]; }
      bool obj = a.v->t == T::Obj; auto vk = sv(k); int route = (int) ((u64) op.a[3] % 4); Opt<H> h; Opt<B> b; Opt<P> p;
      auto get = [&] (auto& x, auto& out) { return act(op, [&] { out.with([&] { if (obj) { if (route == 0) return x[vk]; if (route == 1) return x.at(vk); if (route == 2) { auto it = x.find(vk); return *it; } return x.get(vk); } if (route == 0) return x[ix]; if (route == 1) return x.at(ix); if (route == 2) { auto it = x.begin(); for (size_t i = 0; i < ix; ++i) ++it; return *it; } return x.get(ix); }); }, X_FINE, nullptr, nullptr, me); };
      Ex e = a.k == TH ? get(*a.h, h) : a.k == TB ? get(*a.b, b) : get(*a.p, p); if (e != X_FINE) return; int kk = a.k; wipe(d); d.h.take(h); d.b.take(b); d.p.take(p); d.k = kk; d.v = c;
    }
    void iterate(Slot& a, Thr& me) {
      if (a.k == N || (a.v->t != T::Obj && a.v->t != T::Arr)) return;
      visit(a, [&] (auto& h) {
        auto b = [&] { Lib l; return h.begin(); }; auto e = [&] { Lib l; return h.end(); }; auto it = b(); auto end = e(); size_t i = 0; auto m = a.v->o.begin();
        for (;; ++i) {
          bool more; { Lib l; more = it != end; } bool should = a.v->t == T::Obj ? m != a.v->o.end() : i < a.v->a.size(); if (more != should) fail("value", "thread %d: iteration %s", me.id, more ? "has extra elements" : "ended early"); if (!more) break;
          auto d = [&] { Lib l; return *it; }; auto x = d(); Cmp c; c.mode = 0; c.quiet = true; compare(x, a.v->t == T::Obj ? (m++)->second : a.v->a[i], c); { Lib l; ++it; auto y = std::move(x); } if (c.bad) fail("value", "thread %d: an iterated element differs: %s", me.id, c.why.c_str()); thr_point();
        }
        Lib l; auto d1 = std::move(it); auto d2 = std::move(end);
      });
    }
    void view(Slot& a, Slot& d, Op const& op, Thr& me) {
      if (a.k == N) return; int k = a.k; V v = a.v; Opt<H> h; Opt<B> b; Opt<P> p; bool own = (u64) op.a[2] & 1;
      auto go = [&] (auto& x, auto& out) { using X = std::decay_t<decltype(x)>; Opt<typename X::view> w; attempt([&] { w.with([&] { return (typename X::view) x; }); }); thr_point(); Cmp c; c.quiet = true; compare(*w, v, c); if (c.bad) fail("value", "thread %d: a view differs: %s", me.id, c.why.c_str()); if (own) attempt([&] { out.with([&] () -> X { return (*w).as_owner(); }); }); };
      if (k == TH) go(*a.h, h); else if (k == TB) go(*a.b, b); else go(*a.p, p);
      if (own && &a != &d) { wipe(d); d.h.take(h); d.b.take(b); d.p.take(p); d.k = k; d.v = v; }
    }
    void bytes(Slot& a, Thr& me, Op const& op) {
      if (a.k == N || a.v->t != T::Obj || a.k == TH) return; if (!fin(a)) return; std::string want, got; Rng r((u64) op.a[4]); Opt<B> priv;
      act(op, [&] { priv.with([&] { return build<H>(a.v, r).finalize(); }); auto s = (*priv).get_bytes(); Out o; want.assign((char const*) s.data(), s.size()); }, X_FINE, nullptr, nullptr, me);
      auto go = [&] (auto& x) { if ((u64) op.a[2] % 3 == 0) act(op, [&] { size_t n; auto d = x.dup_bytes(n); Out o; got.assign((char const*) d.get(), n); }, X_FINE, nullptr, nullptr, me);
        else if ((u64) op.a[2] % 3 == 1) act(op, [&] { auto s = x.get_bytes(); { Out o; thr_point(); } char* q; { Out o; got.resize(s.size()); q = &got[0]; } memcpy(q, s.data(), s.size()); }, X_FINE, nullptr, nullptr, me);
        else { bool ok = false; act(op, [&] { auto s = x.get_bytes(); ok = dart::is_valid(s); Out o; got.assign((char const*) s.data(), s.size()); }, X_FINE, nullptr, nullptr, me); if (!ok) fail("value", "thread %d: a shared packet is not valid", me.id); } };
      if (a.k == TB) go(*a.b); else go(*a.p);
      if (got.size() < want.size() || got != want) { // the whole packet is only comparable at its root
        if (got.size() == want.size()) fail("value", "thread %d: a finalized value has other bytes than one built alone", me.id); }
    }
    void json(Slot& a, Thr& me, Op const& op) {
      if (a.k == N || a.v->t < T::Arr) return; std::string got, want; Rng r((u64) op.a[4]);
      visit(a, [&] (auto& h) { act(op, [&] { auto s = h.to_json(); Out o; got.assign(s.data(), s.size()); }, X_FINE, nullptr, nullptr, me); });
      act(op, [&] { auto s = build<H>(a.v, r).to_json(); Out o; want.assign(s.data(), s.size()); }, X_FINE, nullptr, nullptr, me);
      if (got != want) fail("value", "thread %d: printing gives %s, alone it gives %s", me.id, qstr(got, 80).c_str(), qstr(want, 80).c_str());
    }
    void wrap(Slot& a, Slot& d, Op const& op, Thr& me) {
      if (a.k != TP || &a == &d) return; V v = a.v; Opt<P> p; std::string k = keys[(u64) op.a[2] % keys.size()]; bool chg = ((u64) op.a[3] & 1) && !fin(a); V nv = v; if (chg && v->t == T::Obj) { Fields f = v->o; f[k] = mk_int(7); nv = mk_obj(f); } else if (chg && v->t == T::Arr) { auto x = v->a; x.push_back(mk_int(7)); nv = mk_arr(x); }
      auto vk = sv(k);
      if (v->t == T::Obj) act(op, [&] { typename P::object o {*a.p}; auto c = o; if (chg) c.add_field(vk, 7); p.with([&] () -> P { return c; }); }, X_FINE, nullptr, nullptr, me);
      else if (v->t == T::Arr) act(op, [&] { typename P::array o {*a.p}; auto c = o; if (chg) c.push_back(7); p.with([&] () -> P { return c; }); }, X_FINE, nullptr, nullptr, me);
      else return;
      wipe(d); d.p.take(p); d.k = TP; d.v = nv;
    }
    void inj(Slot& a, Slot& d, Op const& op, Thr& me) {
      if (a.k == N || a.v->t != T::Obj || &a == &d || weight(a.v) > 3000) return; V v = a.v; Fields f = v->o; std::string k = keys[(u64) op.a[2] % keys.size()]; Opt<H> h; Opt<B> b; Opt<P> p; auto vk = sv(k); bool in = (u64) op.a[3] & 1;
      std::vector<dart::shim::string_view> ks; if (in) f[k] = mk_int(5); else { f.clear(); size_t i = 0; for (auto& q : v->o) if (i++ % 2 == 0) { f[q.first] = q.second; ks.push_back(sv(q.first)); } }
      auto go = [&] (auto& x, auto& out) { act(op, [&] { out.with([&] { return in ? x.inject(vk, 5) : x.project(ks); }); }, X_FINE, nullptr, nullptr, me); };
      if (a.k == TH) go(*a.h, h); else if (a.k == TB) go(*a.b, b); else go(*a.p, p); int kk = a.k; wipe(d); d.h.take(h); d.b.take(b); d.p.take(p); d.k = kk; d.v = mk_obj(f);
    }
    template <class RT> void xmog2(Slot& a, Slot& d, Thr& me, Op const& op) { (void) a; (void) d; (void) me; (void) op; }
    void xmog(Slot& a, Slot& d, Op const& op, Thr& me) {
      if (a.k != TH && (a.k != TB || a.v->t != T::Obj)) return; if (&a == &d) return; V v = a.v; Opt<H> h; Opt<B> b; int kk = a.k;
      if (a.k == TH) act(op, [&] { auto u = H::template transmogrify<dart::unsafe_ptr>(*a.h); h.with([&] { return dart::basic_heap<dart::unsafe_ptr>::template transmogrify<RC>(u); }); }, X_FINE, nullptr, nullptr, me);
      else act(op, [&] { auto u = B::template transmogrify<dart::unsafe_ptr>(*a.b); b.with([&] { return dart::basic_buffer<dart::unsafe_ptr>::template transmogrify<RC>(u); }); }, X_FINE, nullptr, nullptr, me);
      wipe(d); d.h.take(h); d.b.take(b); d.k = kk; d.v = v;
    }
    void step(Thr& me, Op const& op) {
      Slot& a = me.s[(u64) op.a[1] % NSL]; Slot& d = me.s[(u64) op.a[5] % NSL]; int mode = (int) ((u64) op.a[4] % 5);
      switch (op.code) {
        case H_COPY: copy_slot(d, a); break;
        case H_MOVE: move_slot(d, a); break;
        case H_READ: check(me, a, mode, "when read"); break;
        case H_MUT: mut(me, a, op); check(me, a, mode, "after its own change"); break;
        case H_CONV: conv(me, a, d, op); check(me, d, mode, "after a conversion"); break;
        case H_FINDEF: if (a.k == TP) { bool f = fin(a); if (!f && a.v->t != T::Obj) break; act(op, [&] { if (f) (*a.p).definalize(); else (*a.p).finalize(); }, X_FINE, &a, a.v, me); if (fin(a) == f && a.v->t == T::Obj) fail("value", "thread %d: finalize/definalize changed nothing", me.id); check(me, a, mode, "after finalize/definalize"); } break;
        case H_BYTES: bytes(a, me, op); break;
        case H_JSON: json(a, me, op); break;
        case H_CHILD: child(a, d, op, me); check(me, d, mode, "when taken out"); break;
        case H_NEST: { Op o = op; o.a[3] = (i64) ((u64) op.a[3] % NSL); mut(me, a, o); check(me, a, mode, "after nesting"); break; }
        case H_DROP: wipe(a); break;
        case H_EQ: if (a.k != N && a.k == d.k) { bool r = false, w = eq(a.v, d.v); visit(a, [&] (auto& h) { using X = std::decay_t<decltype(h)>; act(op, [&] { r = h == same<X>(d); }, X_FINE, nullptr, nullptr, me); }); if (w && !r) fail("value", "thread %d: equal values compare unequal", me.id); } break;
        case H_ITER: iterate(a, me); break;
        case H_VIEW: view(a, d, op, me); break;
        case H_INJ: inj(a, d, op, me); check(me, d, mode, "after inject/project"); break;
        case H_SEND: { int to = 1 + (int) ((u64) op.a[2] % (u64) nthreads); if (to == me.id || a.k == N || t[to].quit) break; std::unique_ptr<Parcel> q(new Parcel); if ((u64) op.a[3] & 1) move_slot(q->s, a); else copy_slot(q->s, a); q->sync = sync_new(); sync_release(q->sync); t[to].inbox.push_back(std::move(q)); probe("thr:handed-over"); break; }
        case H_RECV: if (!me.inbox.empty()) { auto q = std::move(me.inbox.front()); me.inbox.pop_front(); sync_acquire(q->sync); move_slot(d, q->s); check(me, d, mode, "when received"); } break;
        case H_WRAP: wrap(a, d, op, me); check(me, d, mode, "through its wrapper"); break;
        case H_XMOG: xmog(a, d, op, me); check(me, d, mode, "after changing counters"); break;
        case H_QUIT: for (auto& s : me.s) { wipe(s); thr_point(); } me.quit = true; probe("fault:thread-ended-early"); break;
        default: break;
      }
    }
    template <class X> static X& same(Slot& s) { return same_(s, (X*) nullptr); }
    static H& same_(Slot& s, H*) { return *s.h; } static B& same_(Slot& s, B*) { return *s.b; } static P& same_(Slot& s, P*) { return *s.p; }

    void run() {
      // set up: roots, shared among the threads as copies and as parts
      Rng r((u64) plan.seed); int nroot = 0; (void) mk();
      for (auto& op : plan.ops) if (op.code == H_ROOT && nroot < 4) {
        Rng q((u64) op.a[4]); V v = value(q); fresh(kept[nroot], v, 1 + (int) ((u64) op.a[1] % 3), q);
        for (int i = 1; i <= nthreads; ++i) { Slot& s = t[i].s[nroot % NSL]; if ((op.a[2] >> i) & 1) { Op o = op; o.a[2] = op.a[3] + i; t[i].id = i; child(kept[nroot], s, o, t[i]); if (s.k == N) copy_slot(s, kept[nroot]); } else copy_slot(s, kept[nroot]); }
        if (op.a[5] & 1) wipe(kept[nroot]); ++nroot;
      }
      int idx = 0; for (auto& op : plan.ops) { if (op.code != H_ROOT && op.code != H_PRE && op.code != H_STALE) prog[1 + (u64) op.a[0] % (u64) nthreads].push_back({idx, op}); ++idx; note_history(mix((u64) op.code, (u64) op.a[0])); }
      thr_start(sched_of(plan, H_PRE, H_STALE), nthreads, [&] (int id) {
        step_limit = 4000000; Thr& me = t[id]; me.id = id; me.r = Rng((u64) id);
        for (auto& x : prog[id]) { if (me.quit) break; thr_point(); set_op(x.first); step(me, x.second); logf("%d:%d %s", id, x.first, thr_opnames[x.second.code]); }
        thr_point(); for (int k = 0; k < NSL; ++k) check(me, me.s[k], k, "at the end of its thread");
        if (plan.get("enddrop")) for (auto& s : me.s) { thr_point(); wipe(s); }
        me.quit = true;
      });
      set_op((int) plan.ops.size());
      for (int i = 1; i <= nthreads; ++i) { for (auto& q : t[i].inbox) check(t[i], q->s, 0, "when nobody received it"); t[i].inbox.clear(); for (int k = 0; k < NSL; ++k) { check(t[i], t[i].s[k], k, "after every thread ended"); wipe(t[i].s[k]); } }
      t[0].id = 0; for (auto& s : kept) { check(t[0], s, 3, "after every thread ended"); wipe(s); }
      if (mem.live_blocks > mem.base) suspect("leak", "every handle was dropped but storage is still held: %s", mem_describe_leaks().c_str());
      note_state(thr_schedule_hash()); note_history(thr_schedule_hash()); logf("schedule %llx", (unsigned long long) thr_schedule_hash());
      probe("thr:atomic-operations", thr_stats.atomics); probe("thr:plain-accesses", thr_stats.plains); probe("fault:preempted", thr_stats.switches); probe("fault:stale-load", thr_stats.stale); probe("thr:stale-possible", thr_stats.stale_possible); sim_time(thr_stats.switches);
      steps += thr_stats.atomics + thr_stats.plains;
    }
  };
}
