// Threads of the C interface: each thread works on handles of its own, many of them to
// shared values, and must see only its own results and its own error messages.
#include "cthr.h"
#include "model.h"
#include "capi_traits.h"
#include <deque>

namespace sim {
  namespace {
    constexpr int NSL = 5; enum { K_N, K_HEAP, K_BUF, K_PKT };
    char const* const kn[] = {"-", "heap", "buffer", "packet"};
    struct Slot { int k = K_N; V v = mk(); char* blk = nullptr; bool priv = false; };     // priv: counted without atomics, never leaves its thread
    struct Parcel { Slot s; Sync* sync; };
    struct Thr { Slot s[NSL]; std::deque<std::unique_ptr<Parcel>> inbox; bool quit = false; int id = 0; };
    using Why = std::tuple<int, int, bool, int, int>; using Said = std::pair<int, std::string>;
  }
  struct CthrWorld {
    Plan const& plan; Thr t[NT]; Slot kept[4]; GenCfg g; std::vector<std::string> keys; int nthreads; std::vector<std::pair<int, Op>> prog[NT]; std::map<Why, Said> said;
    explicit CthrWorld(Plan const& p) : plan(p) { g.maxdepth = 2; g.maxwidth = 3; g.json = true; nthreads = (int) p.get("threads", 2); Rng r((u64) p.get("keyseed", 1)); for (int i = 0; i < 5; ++i) keys.push_back(gen_key(r, g)); keys.push_back("a"); }

    static char* block() { Out o; return (char*) malloc(sizeof(dart_packet_t) + 32); }
    static void* P(Slot const& s) { return s.blk; }
    static dart_rc_type_t rc(Slot const& s) { return s.priv ? DART_RC_UNSAFE : DART_RC_SAFE; }
    static void wipe(Slot& s) { if (s.k == K_N) return; bool a = fault.armed; fault.armed = false; int e; { Lib l; e = dart_destroy(s.blk); } fault.armed = a; if (e) fail("outcome", "destroying a %s failed", kn[s.k]); free(s.blk); s = Slot {}; }
    static int agg(V const& v) { return v->t == T::Obj || v->t == T::Arr; }
    static int ct(V const& v) { switch (v->t) { case T::Obj: return DART_OBJECT; case T::Arr: return DART_ARRAY; case T::Str: return DART_STRING; case T::Int: return DART_INTEGER; case T::Dec: return DART_DECIMAL; case T::Bool: return DART_BOOLEAN; default: return DART_NULL; } }
    static bool fin(Slot const& s) { Lib l; return dart_is_finalized(s.blk) == 1; }
    static void must(int e, char const* what) { if (e) { std::string m = dart_get_error(); in_lib = 0; fail("outcome", "%s ended with code %d (%s)", what, e, m.c_str()); } }

    // a value built through the C interface
    void build(void* d, V const& v, dart_rc_type_t r) {
      auto* p = (dart_packet_t*) d; Lib l;
      switch (v->t) {
        case T::Obj: must(dart_obj_init_rc_err(p, r), "construction"); for (auto& f : v->o) { dart_packet_t c; build(&c, f.second, r); must(dart_obj_insert_take_dart_len(p, f.first.data(), f.first.size(), &c), "insertion"); dart_destroy(&c); } return;
        case T::Arr: must(dart_arr_init_rc_err(p, r), "construction"); { size_t i = 0; for (auto& e : v->a) { dart_packet_t c; build(&c, e, r); must(dart_arr_insert_take_dart(p, i++, &c), "insertion"); dart_destroy(&c); } } return;
        case T::Str: must(dart_str_init_rc_len_err(p, r, v->s.data(), v->s.size()), "construction"); return;
        case T::Int: must(dart_int_init_rc_err(p, r, v->i), "construction"); return;
        case T::Dec: must(dart_dcm_init_rc_err(p, r, v->d), "construction"); return;
        case T::Bool: must(dart_bool_init_rc_err(p, r, v->b), "construction"); return;
        default: must(dart_null_init_rc_err(p, r), "construction"); }
    }
    void fresh(Slot& d, V v, int kind, bool finalized, bool priv) {
      wipe(d); d.priv = priv; d.v = v; d.blk = block(); if (kind == K_BUF && v->t != T::Obj) kind = K_PKT; d.k = kind;
      dart_packet_t p; build(&p, v, rc(d)); Lib l;
      if (kind == K_HEAP) must(dart_to_heap_err((dart_heap_t*) d.blk, &p), "conversion"); else if (kind == K_BUF) must(dart_to_buffer_err((dart_buffer_t*) d.blk, &p), "conversion");
      else if (finalized && v->t == T::Obj) must(dart_finalize_err((dart_packet_t*) d.blk, &p), "finalizing"); else must(dart_move_err(d.blk, &p), "a move");
      dart_destroy(&p);
    }
    V value(Rng& r) { if (r.chance(12)) return gen_scalar(r, g); return r.chance(70) ? gen_object(r, g, 2) : gen_array(r, g, 2); }

    // reads everything; empty when it is v
    std::string reads(void const* p, V const& v, int mode) {
      auto bad = [&] (char const* w) { return std::string(w) + ", expected " + show(v, 60); };
      int ty; size_t n = 0; { Lib l; ty = dart_get_type(p); } if (ty != ct(v)) return bad(strf("has type %d", ty).c_str());
      switch (v->t) {
        case T::Int: { int64_t x; Lib l; if (dart_int_get_err(p, &x) || x != v->i) { Out o; return bad("integer differs"); } return ""; }
        case T::Dec: { double x; Lib l; if (dart_dcm_get_err(p, &x) || !bits_eq(x, v->d)) { Out o; return bad("decimal differs"); } return ""; }
        case T::Bool: { int x; Lib l; if (dart_bool_get_err(p, &x) || !!x != v->b) { Out o; return bad("boolean differs"); } return ""; }
        case T::Str: { Lib l; auto* q = dart_str_get_len(p, &n); bool ok = q && n == v->s.size(); if (ok) { std::string c; { Out o; c.resize(n); } memcpy(&c[0], q, n); Out o; ok = c == v->s; std::string().swap(c); } if (!ok) { Out o; return bad("string differs"); } return ""; }
        case T::Obj: case T::Arr: break; default: return ""; }
      { Lib l; n = dart_size(p); } if (n != (v->t == T::Obj ? v->o.size() : v->a.size())) return bad(strf("has size %zu", n).c_str());
      if (mode % 3 == 0) {
        dart_iterator_t it; int e; { Lib l; e = dart_iterator_init_from_err(&it, p); } if (e) return bad("cannot be iterated"); std::string w; size_t i = 0; auto m = v->o.begin();
        for (;; ++i) {
          bool done; { Lib l; done = dart_iterator_done(&it); } bool should = v->t == T::Obj ? m == v->o.end() : i == v->a.size(); if (done != should) { w = bad("iteration has another length"); break; } if (done) break;
          dart_packet_t c; { Lib l; e = dart_iterator_get_err(&c, &it); } if (!e) w = reads(&c, v->t == T::Obj ? (m++)->second : v->a[i], mode); else w = bad("an element cannot be read"); { Lib l; dart_destroy(&c); e = dart_iterator_next(&it); } if (w.empty() && e) w = bad("iteration stopped"); if (!w.empty()) break; }
        { Lib l; dart_iterator_destroy(&it); } return w;
      }
      size_t i = 0; std::string w;
      auto one = [&] (int e, dart_packet_t& c, V const& x, std::string const& at) { if (e) w = bad("an element cannot be read"); else w = reads(&c, x, mode); { Lib l; dart_destroy(&c); } if (!w.empty()) w = at + ": " + w; };
      if (v->t == T::Obj) for (auto& f : v->o) { dart_packet_t c; int e; { Lib l; e = dart_obj_has_key_len(p, f.first.data(), f.first.size()) == 1 ? (int) dart_obj_get_len_err(&c, p, f.first.data(), f.first.size()) : -1; } if (e == -1) return bad("a key is missing"); one(e, c, f.second, f.first); if (!w.empty()) return w; }
      else for (auto& x : v->a) { dart_packet_t c; int e; { Lib l; e = dart_arr_get_err(&c, p, i); } one(e, c, x, strf("%zu", i)); ++i; if (!w.empty()) return w; }
      return w;
    }
    void check(Thr& me, Slot& s, int mode, char const* when) {
      if (s.k == K_N) return; bool a = fault.armed; fault.armed = false; std::string w = reads(s.blk, s.v, mode); fault.armed = a;
      if (!w.empty()) fail("value", "thread %d: a %s no longer reads as its own value %s: %s", me.id, kn[s.k], when, w.c_str());
    }

    // ---- errors ---------------------------------------------------------------------------------------
    // After a failing call its message stays what it was, whatever the other threads do meanwhile.
    void message(Thr& me, int code, Why const* why) {
      if (!code) return; std::string m; { Lib l; auto* q = dart_get_error(); size_t n = strlen(q); { Out o; m.resize(n); } if (n) memcpy(&m[0], q, n); }
      if (m.empty()) fail("message", "thread %d: a call ended with code %d and no message", me.id, code);
      if (why) { auto it = said.find(*why); if (it == said.end()) said[*why] = {code, m}; else if (it->second != Said {code, m}) fail("message", "thread %d: a call which fails with %d (%s) when alone ended with %d (%s)", me.id, it->second.first, it->second.second.c_str(), code, m.c_str()); }
      for (int i = 0; i < 3; ++i) { thr_point(); std::string again; { Lib l; auto* q = dart_get_error(); size_t n = strlen(q); { Out o; again.resize(n); } if (n) memcpy(&again[0], q, n); } if (again != m) fail("message", "thread %d: the message of its failed call changed from %s to %s", me.id, m.c_str(), again.c_str()); }
      probe("cthr:messages-compared");
    }
    // a call that must fail, on a handle of this thread
    void failing(Thr& me, Slot& s, int kind, int alt) {
      if (s.k == K_N) return; bool f = fin(s); int e = 0; void* p = s.blk; V v = s.v; int shape = (int) v->t; int sub = 0; static char const* const texts[] = {"{\"a\":", "[1,2", "{nope}", "tru", "[1e]"};
      switch (kind) {
        case 0: { if (v->t == T::Int) return; int64_t x; Lib l; e = dart_int_get_err(p, &x); break; }
        case 1: { if (v->t == T::Obj) return; dart_packet_t c; Lib l; e = dart_obj_get_err(&c, p, "k"); dart_destroy(&c); break; }
        case 2: { if (v->t == T::Arr) return; dart_packet_t c; Lib l; e = dart_arr_get_err(&c, p, 0); dart_destroy(&c); break; }
        case 3: { if (v->t != T::Obj || v->o.count("no such key")) return; Lib l; e = dart_obj_set_int(p, "no such key", 3); break; }
        case 4: { if (!f && s.k != K_BUF && v->t == T::Obj) return; Lib l; e = dart_obj_insert_int(p, "k", 3); break; }
        case 5: { sub = alt % 5; dart_packet_t c; Lib l; e = dart_from_json_err(&c, texts[sub]); dart_destroy(&c); break; }
        case 6: { sub = alt % 3; dart_packet_t c; static int const junk[] = {77, 9, 5}; Lib l; e = dart_init_rc_err(&c, (dart_rc_type_t) junk[sub]); break; }
        case 7: { if (agg(v) || v->t == T::Str) return; Lib l; e = dart_size(p) == (size_t) DART_FAILURE ? 1 : 0; break; }
        case 8: { if (agg(v)) return; dart_iterator_t it; Lib l; e = dart_iterator_init_from_err(&it, p); break; }
        case 9: { auto* id = (dart_type_id_t*) p; auto good = *id; id->p_id = (dart_packet_type_t) 77; { Lib l; e = dart_obj_insert_int(p, "k", 1); } *id = good; break; }
        case 10: { if (v->t != T::Arr) return; Lib l; e = dart_arr_set_int(p, v->a.size() + 5, 3); break; }
        default: { auto* id = (dart_type_id_t*) p; auto good = *id; id->rc_id = (dart_rc_type_t) 9; { int64_t x; Lib l; e = dart_int_get_err(p, &x); } *id = good; break; }
      }
      if (!e) fail("outcome", "thread %d: failing call %d succeeded on %s", me.id, kind, show(v, 60).c_str());
      Why w(kind, s.k, f, shape, sub); message(me, e, &w); probe("cthr:failing-calls");
    }
    template <class F> int act(Thr& me, Op const& op, F&& f, bool want, Slot* tgt, V nv) {      // want: must it succeed when memory lasts
      int e; u64 fired = 0; { Arm arm(op.fk, op.fn); { Lib l; e = f(); } fired = fault.fired; }
      if (fired) {
        probe(e ? "fault:reported" : "fault:absorbed");
        if (tgt && tgt->k != K_N && e) { std::string w = reads(tgt->blk, tgt->v, 1); if (!w.empty()) { if (!nv || !reads(tgt->blk, nv, 1).empty()) fail("value", "thread %d: after a failed allocation a value is neither the old nor the new one: %s", me.id, w.c_str()); message(me, 0, nullptr); tgt->v = nv; } return e; }
        message(me, e, nullptr); return e;
      }
      if (want && e) { std::string m = dart_get_error(); fail("outcome", "thread %d: the call ended with code %d (%s), expected success", me.id, e, m.c_str()); }
      if (!want && !e) fail("outcome", "thread %d: the call succeeded, expected failure", me.id);
      if (e) message(me, e, nullptr);
      return e;
    }
    // ---- operations ---------------------------------------------------------------------------------------
    template <class W> int mutate(typename W::S* p, int verb, V const& cur, std::string const& k, size_t ix, V const& v, void* val, bool take) {
      using X = typename W::X; bool o = cur->t == T::Obj; char const* q = k.data(); size_t n = k.size();
      switch (verb) {
        case 0: case 1: if (val) return o ? (take ? W::oins_take(p, q, n, (X*) val) : W::oins(p, q, n, (X const*) val)) : (take ? W::ains_take(p, ix, (X*) val) : W::ains(p, ix, (X const*) val));
          switch (v->t) { case T::Int: return o ? W::oins_int(p, q, n, v->i) : W::ains_int(p, ix, v->i); case T::Dec: return o ? W::oins_dcm(p, q, n, v->d) : W::ains_dcm(p, ix, v->d); case T::Bool: return o ? W::oins_bool(p, q, n, v->b) : W::ains_bool(p, ix, v->b);
            case T::Str: return o ? W::oins_str(p, q, n, v->s.data(), v->s.size()) : W::ains_str(p, ix, v->s.data(), v->s.size()); default: return o ? W::oins_null(p, q, n) : W::ains_null(p, ix); }
        case 2: case 3: if (val) return o ? (take ? W::oset_take(p, q, n, (X*) val) : W::oset(p, q, n, (X const*) val)) : (take ? W::aset_take(p, ix, (X*) val) : W::aset(p, ix, (X const*) val));
          switch (v->t) { case T::Int: return o ? W::oset_int(p, q, n, v->i) : W::aset_int(p, ix, v->i); case T::Dec: return o ? W::oset_dcm(p, q, n, v->d) : W::aset_dcm(p, ix, v->d); case T::Bool: return o ? W::oset_bool(p, q, n, v->b) : W::aset_bool(p, ix, v->b);
            case T::Str: return o ? W::oset_str(p, q, n, v->s.data(), v->s.size()) : W::aset_str(p, ix, v->s.data(), v->s.size()); default: return o ? W::oset_null(p, q, n) : W::aset_null(p, ix); }
        case 4: return o ? W::oerase(p, q, n) : W::aerase(p, ix);
        case 5: return o ? W::oclear(p) : W::aclear(p);
        default: return W::aresize(p, ix); }
    }
    void mut(Thr& me, Slot& s, Slot* from, Op const& op) {
      if (s.k == K_N || !agg(s.v)) return; Rng r((u64) op.a[4]); V cur = s.v, val = gen_scalar(r, g); bool obj = cur->t == T::Obj, ok = s.k != K_BUF && !fin(s); if (from && (from->k == K_N || from->priv != s.priv)) from = nullptr;
      bool typed = s.k == K_HEAP && r.chance(50); if (from && typed && from->k != K_HEAP) typed = false; bool take = from && from != &s && r.chance(50); if (from) val = from->v; if (weight(cur) + weight(val) > 3000) return;
      int verb = (int) ((u64) op.a[2] % 7); if (obj && verb == 6) verb = 1; std::string k = keys[r.below(keys.size())]; size_t n = obj ? cur->o.size() : cur->a.size(), ix = n ? r.below(n) : 0; if (obj && n && r.chance(60)) { auto it = cur->o.begin(); std::advance(it, (long) ix); k = it->first; }
      Fields F = cur->o; std::vector<V> A = cur->a; if (verb == 6) ix = r.below(6);
      switch (verb) {
        case 0: case 1: if (obj) F[k] = val; else A.insert(A.begin() + (long) ix, val); break;
        case 2: case 3: if (obj ? !F.count(k) : ix >= n) ok = false; else if (obj) F[k] = val; else A[ix] = val; break;
        case 4: if (obj) F.erase(k); else if (n) A.erase(A.begin() + (long) ix); break;
        case 5: F.clear(); A.clear(); break; default: A.resize(ix, mk()); }
      V nv = ok ? (obj ? mk_obj(F) : mk_arr(A)) : cur; void* other = from ? from->blk : nullptr; if (verb > 3) take = false;
      int e = act(me, op, [&] { return typed ? mutate<WH>((dart_heap_t*) s.blk, verb, cur, k, ix, val, other, take) : mutate<WG>(s.blk, verb, cur, k, ix, val, other, take); }, ok, &s, nv);
      if (!e) s.v = nv;
      if (take) { if (!e) { from->v = mk(); } else { bool nul; { Lib l; nul = dart_is_null(from->blk) == 1; } if (nul) from->v = mk(); } }
      probe(e ? "cthr:change-refused" : "cthr:changed");
    }
    template <class F> bool made(Thr& me, Op const& op, Slot& d, int kind, bool priv, V v, F&& f, bool want = true) {
      char* b = block(); int e = act(me, op, [&] { return f(b); }, want, nullptr, nullptr);
      if (e) { Lib l; dart_destroy(b); in_lib = 0; free(b); in_lib = 1; return false; } wipe(d); d.k = kind; d.blk = b; d.v = v; d.priv = priv; return true;
    }
    void step(Thr& me, Op const& op) {
      Slot& a = me.s[(u64) op.a[1] % NSL]; Slot& d = me.s[(u64) op.a[5] % NSL]; int mode = (int) ((u64) op.a[4] % 5), x2 = (int) ((u64) op.a[2] % 64), x3 = (int) ((u64) op.a[3] % 64); bool other = &a != &d && a.k != K_N; Slot src;
      switch (op.code) {
        case Q_COPY: if (other) made(me, op, d, a.k, a.priv, a.v, [&] (char* b) { return (int) (x2 & 1 ? dart_copy_err(b, a.blk) : a.k == K_HEAP ? dart_heap_copy_err((dart_heap_t*) b, (dart_heap_t*) a.blk) : a.k == K_BUF ? dart_buffer_copy_err((dart_buffer_t*) b, (dart_buffer_t*) a.blk) : dart_copy_err(b, a.blk)); }); break;
        case Q_MOVE: if (other && made(me, op, d, a.k, a.priv, a.v, [&] (char* b) { return (int) dart_move_err(b, a.blk); })) a.v = mk(); break;
        case Q_DROP: wipe(a); break;
        case Q_READ: check(me, a, mode, "when read"); break;
        case Q_MUT: mut(me, a, nullptr, op); check(me, a, mode, "after its own change"); break;
        case Q_NEST: mut(me, a, &d, op); check(me, a, mode, "after nesting"); check(me, d, mode, "after being nested"); break;
        case Q_CONV: { if (!other) break; bool f = fin(a), obj = a.v->t == T::Obj; int w = x2 % 6; bool down = w == 1 || w == 2 || w == 3; if (down && !f && !obj && a.k != K_BUF) break; if (w == 1 && !f && !obj) break;
          int kind = w == 0 ? K_HEAP : w == 1 ? K_BUF : K_PKT;
          made(me, op, d, kind, a.priv, a.v, [&] (char* b) { auto* p = (dart_packet_t*) b; switch (w) { case 0: return (int) dart_to_heap_err((dart_heap_t*) b, a.blk); case 1: return (int) dart_to_buffer_err((dart_buffer_t*) b, a.blk); case 2: return (int) dart_lower_err(p, a.blk); case 3: return (int) dart_finalize_err(p, a.blk); case 4: return (int) dart_lift_err(p, a.blk); default: return (int) dart_definalize_err(p, a.blk); } });
          check(me, d, mode, "after a conversion"); break; }
        case Q_CHILD: { if (!other || !agg(a.v)) break; bool obj = a.v->t == T::Obj; if (obj ? a.v->o.empty() : a.v->a.empty()) break; auto it = a.v->o.begin(); size_t ix = (size_t) x2; if (obj) std::advance(it, (long) (ix % a.v->o.size())); else ix %= a.v->a.size(); V c = obj ? it->second : a.v->a[ix];
          int kind = K_PKT; made(me, op, d, kind, a.priv, c, [&] (char* b) { return (int) (obj ? dart_obj_get_len_err((dart_packet_t*) b, a.blk, it->first.data(), it->first.size()) : dart_arr_get_err((dart_packet_t*) b, a.blk, ix)); }); check(me, d, mode, "when taken out"); break; }
        case Q_JSON: { if (a.k == K_N || !agg(a.v)) break; char* q = nullptr; size_t n = 0; std::string got, want; int e = act(me, Op {}, [&] { q = dart_to_json(a.blk, &n); return q ? 0 : 1; }, true, nullptr, nullptr); if (e) break; { Lib l; { Out o; got.resize(n); } memcpy(&got[0], q, n); free(q); }
          Slot alone; fresh(alone, a.v, K_HEAP, false, false); { Lib l; q = dart_to_json(alone.blk, &n); if (q) { { Out o; want.resize(n); } memcpy(&want[0], q, n); free(q); } } wipe(alone); if (got != want) fail("value", "thread %d: printing gives %s, alone it gives %s", me.id, qstr(got, 80).c_str(), qstr(want, 80).c_str()); break; }
        case Q_PARSE: { Rng r((u64) op.a[4]); V v = gen_object(r, g, 2); std::string t; to_json(v, t, nullptr); bool priv = x2 & 1; bool cut = x3 % 3 == 0; if (cut) t.resize(t.size() / 2); Op q = op; q.fk = 0;
          made(me, q, d, K_PKT, priv, v, [&] (char* b) { return (int) dart_from_json_len_rc_err((dart_packet_t*) b, priv ? DART_RC_UNSAFE : DART_RC_SAFE, t.data(), t.size()); }, !cut); check(me, d, mode, "when parsed"); break; }
        case Q_BYTES: { if (!other || a.k == K_HEAP || a.v->t != T::Obj || !fin(a)) break; void* q = nullptr; size_t n = 0; int e = act(me, op, [&] { q = dart_dup_bytes(a.blk, &n); return q ? 0 : 1; }, true, nullptr, nullptr); if (e) break;
          V v = a.v; bool priv = a.priv; Op o2 = op; o2.fk = 0; if (x2 & 1) { made(me, o2, d, K_PKT, priv, v, [&] (char* b) { return (int) dart_from_bytes_rc_err((dart_packet_t*) b, priv ? DART_RC_UNSAFE : DART_RC_SAFE, q, n); }); Lib l; dart_aligned_free(q); } else made(me, o2, d, K_PKT, priv, v, [&] (char* b) { return (int) dart_take_bytes_rc_err((dart_packet_t*) b, priv ? DART_RC_UNSAFE : DART_RC_SAFE, q); });
          check(me, d, mode, "when rebuilt from bytes"); break; }
        case Q_ITER: check(me, a, 0, "when iterated"); break;
        case Q_EQ: { if (a.k == K_N || d.k == K_N || a.priv != d.priv) break; int e; { Lib l; e = dart_equal(a.blk, d.blk); } if (eq(a.v, d.v) && e != 1) fail("value", "thread %d: equal values compare unequal", me.id); if (!eq(a.v, d.v) && hash(a.v) != hash(d.v) && a.v->t != d.v->t && a.v->t >= T::Str && e) fail("value", "thread %d: different values compare equal", me.id); break; }
        case Q_FAIL: { int kind = x2 % 12; if (a.k == K_N) { Slot s; Rng r((u64) op.a[4]); fresh(s, mk_int(3), K_HEAP, false, false); failing(me, s, kind, x3); wipe(s); break; } for (int i = 0; i < 2; ++i) { failing(me, a, (kind + 5 * i) % 12, x3); thr_point(); } check(me, a, mode, "after a failing call"); break; }
        case Q_SEND: { int to = 1 + (int) ((u64) op.a[2] % (u64) nthreads); if (to == me.id || a.k == K_N || t[to].quit || a.priv) break; std::unique_ptr<Parcel> q(new Parcel); bool ok = true; if (x3 & 1) { q->s = a; a = Slot {}; } else { Op o = op; o.fk = 0; ok = made(me, o, q->s, a.k, false, a.v, [&] (char* b) { return (int) dart_copy_err(b, a.blk); }); } if (!ok) break; q->sync = sync_new(); sync_release(q->sync); t[to].inbox.push_back(std::move(q)); probe("thr:handed-over"); break; }
        case Q_RECV: if (!me.inbox.empty()) { auto q = std::move(me.inbox.front()); me.inbox.pop_front(); sync_acquire(q->sync); wipe(d); d = q->s; check(me, d, mode, "when received"); } break;
        case Q_QUIT: for (auto& s : me.s) { wipe(s); thr_point(); } me.quit = true; probe("fault:thread-ended-early"); break;
        default: break;
      }
    }
    // what each failing call says when nobody else is calling
    void learn() {
      V vs[] = {mk_obj({{"a", mk_int(1)}}), mk_arr({mk_int(1)}), mk_str("a string which is long enough to be elsewhere"), mk_str("s"), mk_int(3), mk_dec(.5), mk_bool(true), mk()};
      t[0].id = 0; for (auto& v : vs) for (int k = K_HEAP; k <= K_PKT; ++k) for (int f = 0; f < 2; ++f) { if ((k == K_BUF || f) && v->t != T::Obj) continue; if (f && k == K_HEAP) continue; Slot s; fresh(s, v, k, f, false); for (int q = 0; q < 12; ++q) for (int alt = 0; alt < 5; ++alt) { if (alt && q != 5 && q != 6) break; failing(t[0], s, q, alt); } wipe(s); }
    }
    void run() {
      if (plan.get("warm")) learn();
      int nroot = 0; (void) mk();
      for (auto& op : plan.ops) if (op.code == Q_ROOT && nroot < 4) {
        Rng q((u64) op.a[4]); V v = value(q); fresh(kept[nroot], v, 1 + (int) ((u64) op.a[1] % 3), q.chance(35), false);
        for (int i = 1; i <= nthreads; ++i) { Slot& s = t[i].s[nroot % NSL]; t[i].id = i; Op o; o.a[1] = 0; if ((op.a[2] >> i) & 1) { Thr tmp; tmp.id = 0; tmp.s[0] = kept[nroot]; o.code = Q_CHILD; o.a[2] = op.a[3] + i; o.a[5] = 1; step(tmp, o); if (tmp.s[1].k != K_N) s = tmp.s[1]; } if (s.k == K_N) { Thr tmp; tmp.s[0] = kept[nroot]; o.code = Q_COPY; o.a[5] = 1; step(tmp, o); s = tmp.s[1]; } }
        if (op.a[5] & 1) wipe(kept[nroot]); ++nroot;
      }
      { Rng r((u64) plan.get("keyseed") ^ 3); for (int i = 1; i <= nthreads; ++i) if (r.chance(50)) fresh(t[i].s[NSL - 1], value(r), 1 + (int) r.below(3), r.chance(50), true); }
      int idx = 0; for (auto& op : plan.ops) { if (op.code != Q_ROOT && op.code != Q_PRE && op.code != Q_STALE) prog[1 + (u64) op.a[0] % (u64) nthreads].push_back({idx, op}); ++idx; note_history(mix((u64) op.code, (u64) op.a[0])); }
      SchedPlan sp; sp.order = (u64) plan.get("order", 1); for (auto& o : plan.ops) { if (o.code == Q_PRE) sp.pre.push_back({(int) (o.a[0] & 1), (u64) o.a[1], (int) ((u64) o.a[2] % 64)}); if (o.code == Q_STALE) sp.stale.push_back({(u64) o.a[0], 1 + (int) ((u64) o.a[1] % 8)}); }
      thr_start(sp, nthreads, [&] (int id) {
        step_limit = 8000000; Thr& me = t[id]; me.id = id;
        for (auto& x : prog[id]) { if (me.quit) break; thr_point(); set_op(x.first); step(me, x.second); logf("%d:%d %s", id, x.first, cthr_opnames[x.second.code]); }
        thr_point(); for (int k = 0; k < NSL; ++k) check(me, me.s[k], k, "at the end of its thread");
        for (auto& s : me.s) if (s.priv || plan.get("enddrop")) { thr_point(); wipe(s); }
        me.quit = true;
      });
      set_op((int) plan.ops.size());
      for (int i = 1; i <= nthreads; ++i) { for (auto& q : t[i].inbox) { check(t[i], q->s, 0, "when nobody received it"); wipe(q->s); } t[i].inbox.clear(); for (int k = 0; k < NSL; ++k) { check(t[i], t[i].s[k], k, "after every thread ended"); wipe(t[i].s[k]); } }
      t[0].id = 0; for (auto& s : kept) { check(t[0], s, 3, "after every thread ended"); wipe(s); }
      if (mem.live_blocks > mem.base) suspect("leak", "every handle was dropped but storage is still held: %s", mem_describe_leaks().c_str());
      note_state(thr_schedule_hash()); note_history(thr_schedule_hash()); logf("schedule %llx", (unsigned long long) thr_schedule_hash());
      probe("thr:atomic-operations", thr_stats.atomics); probe("thr:plain-accesses", thr_stats.plains); probe("fault:preempted", thr_stats.switches); probe("fault:stale-load", thr_stats.stale); probe("thr:stale-possible", thr_stats.stale_possible); sim_time(thr_stats.switches);
      steps += thr_stats.atomics + thr_stats.plains;
    }
  };
  void cthr_run(Plan const& p) { std::unique_ptr<CthrWorld> w(new CthrWorld(p)); w->run(); }
}
