// Simulated histories over the C interface (and, for C15, over both interfaces at once).
#include "capi.h"
#include "capi_ops.h"
#include "capi_traits.h"
#include <cstring>
#include <cmath>

namespace sim {
  char const* const ck_names[] = {"nothing", "heap", "buffer", "packet"};
  static char const* const err_names[] = {"success", "a type error", "a logic error", "a state error", "a parse error", "a runtime error", "a client error", "an unknown error", "a failure"};
  static char const* en(int e) { return err_names[e < 0 || e > 7 ? 8 : e]; }
  constexpr unsigned OKB = 1u << DART_NO_ERROR, TYPEB = 1u << DART_TYPE_ERROR, LOGICB = 1u << DART_LOGIC_ERROR, STATEB = 1u << DART_STATE_ERROR,
    RUNTIMEB = 1u << DART_RUNTIME_ERROR, CLIENTB = 1u << DART_CLIENT_ERROR, UNKNOWNB = 1u << DART_UNKNOWN_ERROR;
  constexpr int FAILED = 100;   // a call without a code which signalled failure
  constexpr int NS = 8;

  // An exact block holding a string the way C callers hold them.
  struct CStr {
    char* p; size_t n;
    CStr(std::string const& s, bool nul) : p((char*) malloc(s.size() + nul + (s.empty() && !nul))), n(s.size()) { memcpy(p, s.data(), n); if (nul) p[n] = 0; }
    CStr(CStr const&) = delete; ~CStr() { free(p); }
  };
  static bool has0(std::string const& s) { return s.find('\0') != std::string::npos; }
  static bool finite(V const& v) {
    switch (v->t) { case T::Dec: return std::isfinite(v->d); case T::Arr: for (auto& e : v->a) if (!finite(e)) return false; return true;
      case T::Obj: for (auto& f : v->o) if (!finite(f.second)) return false; return true; default: return true; }
  }
  static bool differs(V const& x, V const& y) {
    bool nx = x->t == T::Int || x->t == T::Dec, ny = y->t == T::Int || y->t == T::Dec;
    if (nx && ny) return x->t == T::Int && y->t == T::Int && x->i != y->i;
    if (x->t != y->t) return true;
    switch (x->t) {
      case T::Bool: return x->b != y->b; case T::Str: return x->s != y->s;
      case T::Arr: if (x->a.size() != y->a.size()) return true; for (size_t i = 0; i < x->a.size(); ++i) if (differs(x->a[i], y->a[i])) return true; return false;
      case T::Obj: { if (x->o.size() != y->o.size()) return true; auto q = y->o.begin();
        for (auto p = x->o.begin(); p != x->o.end(); ++p, ++q) if (p->first != q->first || differs(p->second, q->second)) return true; return false; }
      default: return false;
    }
  }
  static int ctype(T t) { switch (t) { case T::Obj: return DART_OBJECT; case T::Arr: return DART_ARRAY; case T::Str: return DART_STRING; case T::Int: return DART_INTEGER; case T::Dec: return DART_DECIMAL; case T::Bool: return DART_BOOLEAN; default: return DART_NULL; } }

  struct CWorld {
    Plan const& plan; Hd s[NS]; GenCfg g; std::vector<std::string> keys; int opi = 0; bool warm; std::string last_msg;
    CWorld(Plan const& p) : plan(p) {
      g.maxdepth = (int) p.get("depth", 2); g.maxwidth = (int) p.get("width", 4); g.json = p.get("json") != 0; g.nonfinite = p.get("nonfinite") != 0; g.big = p.get("big") != 0; warm = p.get("warm") != 0;
      Rng r((u64) p.get("keyseed", 1)); for (int i = 0; i < 7; ++i) keys.push_back(gen_key(r, g)); keys.push_back("a");
    }

    // ---- handles -------------------------------------------------------------------------------
    static size_t csize(CK k) { return k == C_HEAP ? sizeof(dart_heap_t) : k == C_BUF ? sizeof(dart_buffer_t) : sizeof(dart_packet_t); }
    static Hd blank(CK k, int rc, bool cpp = false) {
      Hd h; h.k = k; h.rc = rc; h.cpp = cpp; size_t n = cpp ? cpp_size(k) : csize(k); h.blk = (char*) malloc(n); memset(h.blk, 0x5a, n);
      if (cpp) { dart_type_id_t id = {(dart_packet_type_t) k, (dart_rc_type_t) rc}; memcpy(h.blk, &id, sizeof id); }
      return h;
    }
    static dart_heap_t* H(Hd& h) { return (dart_heap_t*) h.blk; }
    static dart_buffer_t* B(Hd& h) { return (dart_buffer_t*) h.blk; }
    static dart_packet_t* P(Hd& h) { return (dart_packet_t*) h.blk; }
    static int rc_of(Hd& h) { return ((dart_type_id_t*) h.blk)->rc_id; }
    static int pid_of(Hd& h) { return ((dart_type_id_t*) h.blk)->p_id; }
    static dart_rc_type_t RC(int rc) { return (dart_rc_type_t) rc; }

    template <class F> static auto lib(F&& f) -> decltype(f()) { Lib l; return f(); }
    void destroy(Hd& h, int style, bool must = true) {       // frees the block too
      if (!h.blk) { h = Hd(); return; }
      if (h.cpp) cpp_destroy(h);
      else {
        int e = lib([&] { if (style == 0) return dart_destroy(h.blk); return h.k == C_HEAP ? dart_heap_destroy(H(h)) : h.k == C_BUF ? dart_buffer_destroy(B(h)) : dart_destroy(h.blk); });
        if (must && e) fail("outcome", "destroying a %s handle ended with %s", ck_names[h.k], en(e));
      }
      free(h.blk); h = Hd();
    }
    void wipe(int i) { destroy(s[i], opi & 1); }
    Hd& put(int i, Hd h) { wipe(i); s[i] = h; return s[i]; }
    int pick(i64 a, std::function<bool(Hd&)> ok) { for (int k = 0; k < NS; ++k) { int i = (int) (((u64) a + (u64) k) % NS); if (s[i].k && ok(s[i])) return i; } return -1; }
    int any_c(i64 a) { return pick(a, [] (Hd& h) { return !h.cpp; }); }
    int dst(i64 a, int notthis = -1) { int d = (int) ((u64) a % NS); return d == notthis ? (d + 1) % NS : d; }
    static bool agg(V const& v) { return v->t == T::Obj || v->t == T::Arr; }
    void settle(Hd& h) { h.fin = cpp_finalized(h); if (!h.cpp) { int f = lib([&] { return dart_is_finalized(h.blk); }); if (!!f != h.fin) fail("value", "dart_is_finalized says %d of a %s handle which %s", f, ck_names[h.k], h.fin ? "is" : "is not"); }
      if (h.k == C_HEAP && h.fin) fail("value", "a heap handle reads as finalized"); }

    // ---- calls -----------------------------------------------------------------------------------
    struct Rec { int code; u64 fired; bool ok() const { return code == 0; } };
    static void forget(dart_packet_t& p) { Disarm d; Lib l; dart_destroy(&p); }
    // leaves the message of an earlier failure of another kind behind, so that a stale one shows
    int plant(unsigned want) {
      Disarm d; dart_packet_t p; dart_err_t e;
      if (want & CLIENTB) { { Lib l; dart_init_err(&p); int64_t x; e = dart_int_get_err(&p, &x); } forget(p); }
      else { Lib l; e = dart_init_rc_err(&p, RC(97)); }
      int64_t want_code = want & CLIENTB ? DART_TYPE_ERROR : DART_CLIENT_ERROR;
      if (e != want_code) fail("outcome", "a call which must end with %s ended with %s", en((int) want_code), en(e));
      char const* m = dart_get_error(); last_msg = m ? m : ""; if (last_msg.empty()) fail("message", "%s left no message", en(e));
      return e;
    }
    template <class F> Rec call(Op const& op, unsigned want, F&& f) {
      bool can_fail = want != OKB || op.fk; int planted = 0; last_msg.clear();
      if (can_fail && (warm || !op.fk)) planted = plant(want);
      Rec r;
      try { Arm arm(op.fk, op.fn); { Lib l; r.code = f(); } r.fired = fault.fired; }
      catch (std::exception const& e) { fault.armed = false; fail("exception", "an exception left the C interface: %s", e.what()); }
      catch (...) { fault.armed = false; fail("exception", "an exception left the C interface"); }
      if (r.code) {
        char const* m = dart_get_error();
        if (!m || !*m) fail("message", "%s left no message", en(r.code));
        bool same = planted && last_msg == m;
        if (same && (r.code == FAILED ? !(want & (1u << planted)) : r.code != planted)) fail("message", "%s left the message of an earlier call: %s", en(r.code), m);
        std::string now_ = m; char const* again = dart_get_error(); if (now_ != again) fail("message", "the message changed between two reads");
      }
      judge(r, want);
      if (r.fired) probe(r.code ? "fault:reported" : "fault:absorbed");
      logf("%d -> %s", opi, en(r.code));
      return r;
    }
    void judge(Rec const& r, unsigned want) {
      if (r.code == FAILED) { if ((want & ~OKB) || r.fired) return; fail("outcome", "the call signalled failure, expected success (%s)", dart_get_error()); }
      if (want & (1u << r.code)) return;
      if (r.fired && r.code == DART_UNKNOWN_ERROR) return;
      std::string w; for (int i = 0; i < 8; ++i) if (want & (1u << i)) w += std::string(w.empty() ? "" : " or ") + en(i);
      fail("outcome", "the call ended with %s (%s), expected %s%s", en(r.code), r.code ? dart_get_error() : "", w.c_str(), r.fired ? ", with an allocation failing" : "");
    }
    // what a failed constructor left behind: reads as null, can be destroyed
    void failed_dst(Hd& h, Rec const& r, bool sound = true) {
      if (sound) {
        int t = lib([&] { return (int) dart_get_type(h.blk); });
        if (t != DART_NULL) fail("leftover", "after %s the destination is not null (type %d)", en(r.code), t);
        if (lib([&] { return dart_is_null(h.blk); }) != 1) fail("leftover", "after %s the destination is not null", en(r.code));
      }
      destroy(h, opi & 1, sound);
    }

    // ---- reading through C ---------------------------------------------------------------------------
    struct Bad { std::string path, what; };
    template <class R, class S> void read_scalar(S const* p, V const& v, std::string const& path) {
      auto bad = [&] (std::string const& w) { in_lib = 0; fail("value", "through C at %s: %s, expected %s", path.c_str(), w.c_str(), show(v, 80).c_str()); };
      Lib l;
      for (int t = 1; t <= 7; ++t) if (R::is(p, t) != (t == ctype(v->t))) bad(strf("type predicate %d is wrong", t));
      int64_t i = 77; double d = 77; int b = 77; size_t n = 777;
      switch (v->t) {
        case T::Int: if (R::num(p) != v->i || R::num(p, &i) || i != v->i) bad("integer differs"); break;
        case T::Dec: if (!bits_eq(R::dcm(p), v->d) || R::dcm(p, &d) || !bits_eq(d, v->d)) bad("decimal differs"); break;
        case T::Bool: if (!!R::boo(p) != v->b || R::boo(p, &b) || !!b != v->b || (b & ~1)) bad("boolean differs"); break;
        case T::Str: { char const* q = R::str(p, &n); if (!q || n != v->s.size() || memcmp(q, v->s.data(), n) || q[n]) bad("string differs"); q = R::str(p); if (!q || memcmp(q, v->s.data(), n) || R::size(p) != n) bad("string differs"); break; }
        default: break;
      }
    }
    template <class R, class T2, class S> void read(S const* p, V const& v, int mode, std::string const& path, dart_err_t (*kill)(T2*)) {
      auto bad = [&] (std::string const& w) { in_lib = 0; fail("value", "through C at %s: %s, expected %s", path.c_str(), w.c_str(), show(v, 80).c_str()); };
      int t = lib([&] { return R::type(p); }); if (t != ctype(v->t)) bad(strf("type %d", t));
      if (!agg(v)) { read_scalar<R>(p, v, path); return; }
      size_t n = v->t == T::Obj ? v->o.size() : v->a.size();
      if (lib([&] { return R::size(p); }) != n) bad(strf("size %zu", lib([&] { return R::size(p); })));
      if (lib([&] { return R::is(p, ctype(v->t)); }) != 1 || lib([&] { return R::is(p, 3 - ctype(v->t)); }) != 0) bad("type predicate is wrong");
      if (mode >= 2) { iterate((void const*) p, v, mode, path); return; }
      if (v->t == T::Obj) {
        for (auto& f : v->o) {
          CStr k(f.first, false); std::string pp = path + "[" + qstr(f.first) + "]"; bool z = has0(f.first);
          if (lib([&] { return R::has(p, k.p, k.n); }) != 1) bad("has_key is false for " + qstr(f.first));
          if (!z && mode == 1) { CStr kz(f.first, true); if (lib([&] { return R::has(p, kz.p); }) != 1) bad("has_key is false for " + qstr(f.first));
            T2 c = (in_lib++, R::get(p, kz.p)); --in_lib; read<R, T2>(cvt<S>(&c), f.second, mode, pp, kill); Lib l; if (kill(&c)) bad("destroy failed"); }
          else { T2 c; if (lib([&] { return R::get(&c, p, k.p, k.n); })) bad("get failed"); read<R, T2>(cvt<S>(&c), f.second, mode, pp, kill); Lib l; if (kill(&c)) bad("destroy failed"); }
        }
        if (!v->o.count("~none~")) { if (lib([&] { return R::has(p, "~none~"); })) bad("has_key is true for an absent key"); T2 c; if (lib([&] { return R::get(&c, p, "~none~"); })) bad("get of an absent key failed"); if (lib([&] { return R::type(cvt<S>(&c)); }) != DART_NULL) bad("an absent key is not null"); Lib l; kill(&c); }
      } else {
        for (size_t i = 0; i < n; ++i) { T2 c; if (mode == 1) { Lib l; new (&c) T2(R::at(p, i)); } else if (lib([&] { return R::at(&c, p, i); })) bad("get failed"); read<R, T2>(cvt<S>(&c), v->a[i], mode, path + strf("[%zu]", i), kill); Lib l; if (kill(&c)) bad("destroy failed"); }
        T2 c; if (lib([&] { return R::at(&c, p, n + (size_t) opi % 3); })) bad("get past the end failed"); if (lib([&] { return R::type(cvt<S>(&c)); }) != DART_NULL) bad("an element past the end is not null"); Lib l; kill(&c);
      }
    }
    template <class S, class T2> static S* cvt(T2* p) { return (S*) p; }
    static dart_err_t killp(dart_packet_t* p) { return dart_destroy(p); }
    void read_packet(dart_packet_t* p, V const& v, std::string const& path) { read<RG, dart_packet_t, void>((void const*) p, v, 0, path, killp); }
    void iterate(void const* p, V const& v, int mode, std::string const& path) {
      auto bad = [&] (std::string const& w) { in_lib = 0; fail("value", "through a C iterator at %s: %s, expected %s", path.c_str(), w.c_str(), show(v, 80).c_str()); };
      std::vector<V> el, ks; for (auto& e : v->a) el.push_back(e); for (auto& f : v->o) { el.push_back(f.second); ks.push_back(mk_str(f.first)); }
      for (int kk = 0; kk < 2; ++kk) {
        if (kk && v->t != T::Obj) break;
        auto& want = kk ? ks : el; size_t i = 0;
        if (mode == 2) {
          dart_iterator_t it; if (lib([&] { return kk ? dart_iterator_init_key_from_err(&it, p) : dart_iterator_init_from_err(&it, p); })) bad("cannot be iterated");
          while (!lib([&] { return dart_iterator_done(&it); })) {
            if (i >= want.size()) bad("extra elements");
            dart_packet_t e; if (i & 1) { Lib l; new (&e) dart_packet_t(dart_iterator_get(&it)); } else if (lib([&] { return dart_iterator_get_err(&e, &it); })) bad("iterator_get failed");
            read_packet(&e, want[i], path + strf("{%zu}", i)); Lib l; dart_destroy(&e); dart_iterator_next(&it); ++i;
          }
          Lib l; if (dart_iterator_destroy(&it)) bad("destroying the iterator failed");
        } else {
          dart_packet_t e; ++in_lib;
          if (kk) { dart_for_each_key(p, &e) { if (i >= want.size()) bad("extra keys"); --in_lib; read_packet(&e, want[i], path + strf("{%zu}", i)); ++in_lib; ++i; } }
          else { dart_for_each(p, &e) { if (i >= want.size()) bad("extra elements"); --in_lib; read_packet(&e, want[i], path + strf("{%zu}", i)); ++in_lib; ++i; } }
          --in_lib;
        }
        if (i != want.size()) bad(strf("%zu elements", i));
      }
    }
    void read_c(Hd& h, int mode) {
      if (mode & 4) {   // typed
        if (h.k == C_HEAP) return read<RH, dart_heap_t, dart_heap_t>((dart_heap_t const*) H(h), h.v, mode & 1, ".", dart_heap_destroy);
        if (h.k == C_BUF) return read<RB, dart_buffer_t, dart_buffer_t>((dart_buffer_t const*) B(h), h.v, mode & 1, ".", dart_buffer_destroy);
      }
      read<RG, dart_packet_t, void>((void const*) h.blk, h.v, mode & 3, ".", killp);
    }
    void check(int i, char const* when, bool full = true) {
      Hd& h = s[i]; if (!h.k) return; std::string why; int mode = opi + i;
      if (!cpp_reads(h, h.v, mode % 5, why)) fail("value", "slot %d (%s %s) no longer reads as its own value %s: %s", i, h.cpp ? "C++" : "C", ck_names[h.k], when, why.c_str());
      if (!h.cpp) { if (pid_of(h) != h.k || rc_of(h) != h.rc) fail("value", "slot %d: a %s handle says it is of type %d with counter %d %s", i, ck_names[h.k], pid_of(h), rc_of(h), when);
        if (full) read_c(h, mode % 8);
        size_t a = lib([&] { return dart_refcount(h.blk); }), b = cpp_refcount(h); if (a != b) fail("count", "slot %d: %zu owners through C, %zu through C++", i, a, b); }
      settle(h);
    }
    void check_all(char const* when) { for (int i = 0; i < NS; ++i) check(i, when, weight(s[i].v) < 600 || (opi + i) % 3 == 0); }

    // ---- values ----------------------------------------------------------------------------------------
    V gen(u64 seed, int cls) {
      Rng r(seed);
      switch (cls) { case 0: return gen_object(r, g, g.maxdepth); case 1: return gen_array(r, g, g.maxdepth); case 2: return gen_scalar(r, g);
        case 3: { Fields f; size_t n = r.below(7); for (size_t i = 0; i < n; ++i) f[keys[r.below(keys.size())]] = gen_value(r, g, g.maxdepth - 1); return mk_obj(f); }
        default: return gen_value(r, g, g.maxdepth); }
    }
    std::string key_of(V const& v, i64 a, u64 seed) {
      if (a % 4 == 0 && !v->o.empty()) { auto it = v->o.begin(); std::advance(it, (long) ((u64) a / 4 % v->o.size())); return it->first; }
      if (a % 23 == 1 && g.big) return std::string(65536 + (size_t) (a % 7), 'k');
      if (a % 4 == 1) { Rng r(seed); return gen_key(r, g); }
      return keys[(size_t) a / 4 % keys.size()];
    }
    // a fault-free C handle with this value, built from C calls alone or handed over from C++
    Hd make(CK k, int rc, V const& v, u64 seed) {
      Disarm d; Hd h = blank(k, rc); int e = cpp_build(h, v, seed, (int) (seed % 3 == 0)); if (e) fail("harness", "building a value failed");
      dart_type_id_t id = {(dart_packet_type_t) k, (dart_rc_type_t) rc}; memcpy(h.blk, &id, sizeof id); h.v = v; settle(h); return h;
    }
    static bool fits(CK k, V const& v) { return k != C_BUF || v->t == T::Obj; }

    // ---- operations -------------------------------------------------------------------------------------
    template <class M, class T2> int init_call(int var, T2* d, int rc, V const& v, int style) {
      switch (v->t) {
        case T::Obj: return M::obj(var, d, RC(rc)); case T::Arr: return M::arr(var, d, RC(rc)); case T::Int: return M::num(var, d, RC(rc), v->i); case T::Dec: return M::dcm(var, d, RC(rc), v->d);
        case T::Bool: return M::boo(var, d, RC(rc), v->b ? 1 + style % 3 : 0);
        case T::Str: { bool z = has0(v->s); in_lib -= 1; CStr c(v->s, !z && !(style & 1)); in_lib += 1; if (z || (style & 1)) return M::str(var, d, RC(rc), c.p, c.n); return M::str(var, d, RC(rc), c.p); }
        default: return M::nul(var, d, RC(rc)); }
    }
    void op_init(Op const& op) {
      V v = gen((u64) op.a[1], (int) ((u64) op.a[2] % 3)); if (agg(v)) v = v->t == T::Obj ? mk_obj() : mk_arr();
      int style = (int) ((u64) op.a[3] % 64), var = style & 3; bool heap = (style >> 2) & 1; int rc = var < 2 ? SAFE : 1 + ((style >> 3) & 1); bool plain = op.a[4] % 9 == 0;
      int badrc = op.a[5] % 13 == 0 && (var & 2) ? (int) (op.a[5] % 5) * 7 + 3 : 0; if (badrc) rc = badrc;
      Hd h = blank(heap ? C_HEAP : C_PKT, rc); if (plain) v = mk();
      unsigned want = badrc ? CLIENTB : OKB;
      Rec r = call(op, want, [&] () -> int {
        int e;
        if (plain) e = heap ? (var & 1 ? (var & 2 ? RH::init(H(h), RC(rc)) : RH::init(H(h))) : (new (h.blk) dart_heap_t(var & 2 ? RH::init(RC(rc)) : RH::init()), DART_NO_ERROR))
                            : (var & 1 ? (var & 2 ? RG::init(P(h), RC(rc)) : RG::init(P(h))) : (new (h.blk) dart_packet_t(var & 2 ? RG::init(RC(rc)) : RG::init()), DART_NO_ERROR));
        else e = heap ? init_call<MH>(var, H(h), rc, v, style >> 4) : init_call<MG>(var, P(h), rc, v, style >> 4);
        if (!(var & 1)) { if (plain && badrc) return FAILED; Disarm d; if (badrc || fault.fired) { int t = dart_get_type(h.blk); if (t == DART_NULL && v->t != T::Null) return FAILED; if (badrc) return FAILED; } }
        return e; });
      if (!r.ok()) { bool sound = !badrc || (!(var & 1) && !plain && v->t != T::Null); if (badrc && sound) h.rc = SAFE; failed_dst(h, r, sound); return; }
      h.v = v; settle(h); put(dst(op.a[0]), h);
    }
    void op_lit(Op const& op) {
      CK k = (CK) (1 + (u64) op.a[3] % 3); V v = gen((u64) op.a[1], k == C_BUF ? (op.a[2] & 1) * 3 : (int) ((u64) op.a[2] % 5)); bool cpp = (op.a[4] & 3) < (plan.profile == "C15" ? 2 : 0);
      Hd h; if (cpp) { h = blank(k, 1 + (int) (op.a[5] & 1), true); if (cpp_build(h, v, (u64) op.a[1], (int) (op.a[1] & 1))) fail("harness", "building a value failed"); h.v = v; settle(h); }
      else h = make(k, 1 + (int) (op.a[5] & 1), v, (u64) op.a[1]);
      put(dst(op.a[0]), h);
    }

    // variadic construction: one format, integer-class and floating arguments in order
    struct Va { std::string fmt; std::vector<unsigned long long> gp; std::vector<double> fp; std::vector<char*> own; bool bad = false; Rng r; bool done = false;
      Va(u64 s) : r(s) {} ~Va() { for (auto p : own) free(p); }
      char* hold(std::string const& s, bool nul) { char* p = (char*) malloc(s.size() + 1); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; else { char* q = (char*) malloc(s.size() ? s.size() : 1); memcpy(q, s.data(), s.size()); free(p); p = q; } own.push_back(p); return p; } };
    static std::string nozero(std::string s) { for (auto& c : s) if (!c) c = '0'; return s; }
    V va_val(Va& a, V const& v) {
      size_t room = 34 - std::min<size_t>(34, a.gp.size());
      switch (v->t) {
        case T::Bool: if (room < 1) break; a.fmt += 'b'; a.gp.push_back((a.r.next() << 32) | (u64) (v->b ? 1 + a.r.below(4) : 0)); return v;
        case T::Int: if (room < 1) break; a.gp.push_back((u64) v->i); if (v->i >= INT32_MIN && v->i <= INT32_MAX && a.r.chance(40)) { a.fmt += 'i'; a.gp.back() = (a.r.next() << 32) | (uint32_t) v->i; } else if (v->i >= 0 && v->i <= UINT32_MAX && a.r.chance(50)) { a.fmt += "ui"; a.gp.back() = (a.r.next() << 32) | (uint32_t) v->i; } else a.fmt += v->i >= 0 && a.r.chance(50) ? "ul" : "l"; return v;
        case T::Dec: if (a.fp.size() >= 8) break; a.fmt += 'd'; a.fp.push_back(v->d); return v;
        case T::Str: if (room < 2) break; if (has0(v->s) || a.r.chance(50)) { a.fmt += 'S'; a.gp.push_back((u64) a.hold(v->s, false)); a.gp.push_back(v->s.size()); } else { a.fmt += 's'; a.gp.push_back((u64) a.hold(v->s, true)); } return v;
        case T::Arr: { a.fmt += 'a'; std::vector<V> o; for (auto& e : v->a) { if (a.bad) break; o.push_back(va_val(a, e)); } wreck(a); a.fmt += ','; return mk_arr(o); }
        case T::Obj: a.fmt += 'o'; { V o = va_pairs(a, v); wreck(a); a.fmt += ','; return o; }
        default: break;
      }
      a.fmt += a.r.chance(50) ? ' ' : 'n'; return mk();
    }
    V va_pairs(Va& a, V const& v) {
      Fields o; std::vector<std::pair<std::string, V>> f(v->o.begin(), v->o.end()); for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[a.r.below(i)]);
      if (!f.empty() && a.r.chance(10)) f.push_back({f[0].first, mk_int(7)});
      for (auto& e : f) { if (a.gp.size() >= 33 || a.bad) break; std::string k = nozero(e.first); a.gp.push_back((u64) a.hold(k, true)); o[k] = va_val(a, e.second); }
      return mk_obj(o);
    }
    void wreck(Va& a) { if (!a.done || a.bad) return; if (a.r.chance(30)) { a.bad = true; static char const* const t[] = {"x", "uz", "q", "%", "u", "\x80", "I"}; a.fmt += t[a.r.below(7)]; } }
    void op_va(Op const& op) {
      V v = gen((u64) op.a[1], (int) ((u64) op.a[2] % 4)); if (!agg(v)) v = mk_arr({v}); int style = (int) ((u64) op.a[3] % 16), var = style & 3; bool heap = (style >> 2) & 1; int rc = var < 2 ? SAFE : 1 + ((style >> 3) & 1);
      Va a((u64) op.a[1] ^ 5); a.done = op.a[4] % 5 == 0; bool o = v->t == T::Obj; V x;
      if (o) x = va_pairs(a, v); else { std::vector<V> el; for (auto& e : v->a) { if (a.bad) break; el.push_back(va_val(a, e)); } x = mk_arr(el); }
      if (a.done && !a.bad && op.a[4] % 2) { a.bad = true; a.fmt += "x"; }
      if (!a.bad) { while (!a.fmt.empty() && a.fmt.back() == ',' && a.r.chance(50)) a.fmt.pop_back(); if (a.r.chance(10)) a.fmt += ","; }
      bool bad = a.bad; char* pad = a.hold("pad", true); while (a.gp.size() < 36) a.gp.push_back((u64) pad); while (a.fp.size() < 8) a.fp.push_back(0.5);
      CStr fmt(a.fmt, true); Hd h = blank(heap ? C_HEAP : C_PKT, rc);
      Rec r = call(op, bad ? LOGICB : OKB, [&] () -> int {
        int e = heap ? MH::va(var, o, H(h), RC(rc), fmt.p, a.gp.data(), a.fp.data()) : MG::va(var, o, P(h), RC(rc), fmt.p, a.gp.data(), a.fp.data());
        if (!(var & 1)) { Disarm d; if (dart_get_type(h.blk) == DART_NULL) return FAILED; }
        return e; });
      probe(bad ? "va:malformed" : "va:well-formed");
      if (!r.ok()) { if (!(var & 1)) h.rc = SAFE; failed_dst(h, r); return; }
      h.v = x; settle(h); put(dst(op.a[0]), h);
    }
    void op_copy(Op const& op, bool mv) {
      int a = any_c(op.a[0]); if (a < 0) return; int d = dst(op.a[1], a); Hd& f = s[a]; int style = (int) ((u64) op.a[2] % 4); size_t before = cpp_refcount(f);
      Hd h = blank(style == 0 ? C_PKT : f.k, f.rc); h.k = f.k;
      Rec r = call(op, OKB, [&] () -> int {
        if (style == 0) { if (mv) new (h.blk) dart_packet_t(dart_move(f.blk)); else new (h.blk) dart_packet_t(dart_copy(f.blk)); Disarm q; return dart_get_type(h.blk) == DART_NULL && f.v->t != T::Null ? FAILED : 0; }
        if (style == 1) return mv ? dart_move_err(h.blk, f.blk) : dart_copy_err(h.blk, f.blk);
        if (f.k == C_HEAP) { if (style == 3) return mv ? dart_heap_move_err(H(h), H(f)) : dart_heap_copy_err(H(h), H(f)); new (h.blk) dart_heap_t(mv ? dart_heap_move(H(f)) : dart_heap_copy(H(f))); Disarm q; return dart_heap_is_null(H(h)) && f.v->t != T::Null ? FAILED : 0; }
        if (f.k == C_BUF) { if (style == 3) return mv ? dart_buffer_move_err(B(h), B(f)) : dart_buffer_copy_err(B(h), B(f)); new (h.blk) dart_buffer_t(mv ? dart_buffer_move(B(f)) : dart_buffer_copy(B(f))); Disarm q; return dart_buffer_is_null(B(h)) && f.v->t != T::Null ? FAILED : 0; }
        return mv ? dart_move_err(h.blk, f.blk) : dart_copy_err(h.blk, f.blk); });
      if (!r.ok()) { if (style == 0) { h.k = C_PKT; h.rc = SAFE; } else if (style == 2) h.rc = SAFE; failed_dst(h, r); return; }
      h.v = f.v; if (mv) { if (!cpp_null(f)) fail("value", "a moved-from %s handle is not null", ck_names[f.k]); f.v = mk(); settle(f); } settle(h);
      size_t after = cpp_refcount(h); if (agg(h.v) && after != before + !mv) fail("count", "%s a handle with %zu owners left %zu", mv ? "moving" : "copying", before, after);
      put(d, h);
    }
    void op_drop(Op const& op) {
      int a = pick(op.a[0], [] (Hd&) { return true; }); if (a < 0) return; Hd& h = s[a]; bool sole = agg(h.v) && cpp_refcount(h) == 1; u64 before = mem.live_blocks;
      destroy(h, (int) (op.a[1] & 1)); if (sole && mem.live_blocks >= before) fail("count", "the last owner of a value was destroyed and nothing was released");
    }

    struct Want { unsigned w = OKB; V v; };
    Want model(Hd& t, int verb, std::string const& k, size_t idx, V const& val) {
      Want x; V cur = t.v; x.v = cur; if (t.k == C_BUF) { x.w = CLIENTB; return x; } if (t.fin) { x.w = STATEB; return x; }
      bool obj = cur->t == T::Obj, arr = cur->t == T::Arr; Fields f = cur->o; std::vector<V> a = cur->a;
      switch (verb) {
        case M_INS: if (!obj) x.w = k.size() > 65535 ? TYPEB | LOGICB : TYPEB; else if (k.size() > 65535) x.w = LOGICB; else { f[k] = val; x.v = mk_obj(f); } return x;
        case M_SET: if (!obj) x.w = k.size() > 65535 ? TYPEB | LOGICB : TYPEB; else if (!f.count(k)) x.w = LOGICB; else { f[k] = val; x.v = mk_obj(f); } return x;
        case M_ERA: if (!obj) x.w = TYPEB; else { f.erase(k); x.v = mk_obj(f); } return x;
        case M_CLEAR: if (obj) x.v = mk_obj(); else if (arr) x.v = mk_arr(); else x.w = TYPEB; return x;
        default: break;
      }
      if (!arr) { x.w = TYPEB; return x; }
      switch (verb) {
        case M_INSI: if (idx > a.size()) { x.w = LOGICB; return x; } a.insert(a.begin() + (long) idx, val); break;
        case M_SETI: if (idx >= a.size()) { x.w = LOGICB; return x; } a[idx] = val; break;
        case M_ERAI: if (idx < a.size()) a.erase(a.begin() + (long) idx); break;
        case M_RESIZE: if (idx > 1u << 20) { x.w = LOGICB | UNKNOWNB; return x; } a.resize(idx, mk()); break;
        default: if (idx > 1u << 20) x.w = LOGICB | UNKNOWNB; return x;
      }
      x.v = mk_arr(a); return x;
    }
    template <class W> int mut_call(void* pt, int verb, int form, std::string const& k, bool len, size_t idx, V const& v, void* val, int style) {
      using S = typename W::S; using X = typename W::X; S* t = (S*) pt; Out out_; CStr key(k, !len); bool sl = v->t == T::Str && (has0(v->s) || len); CStr str(v->s, !sl); in_lib = 1;
      struct Back { ~Back() { in_lib = 0; } } back; char const* q = key.p; size_t n = key.n;
#define KEYED(F, ...) (len ? W::F(t, q, n, ##__VA_ARGS__) : W::F(t, q, ##__VA_ARGS__))
#define BOTH(V3) \
      if (form == 1) return verb_o ? KEYED(o##V3, (X const*) val) : W::a##V3(t, idx, (X const*) val); \
      if (form == 2) return verb_o ? KEYED(o##V3##_take, (X*) val) : W::a##V3##_take(t, idx, (X*) val); \
      switch (v->t) { \
        case T::Int: return verb_o ? KEYED(o##V3##_int, v->i) : W::a##V3##_int(t, idx, v->i); \
        case T::Dec: return verb_o ? KEYED(o##V3##_dcm, v->d) : W::a##V3##_dcm(t, idx, v->d); \
        case T::Bool: return verb_o ? KEYED(o##V3##_bool, v->b ? 1 + style % 3 : 0) : W::a##V3##_bool(t, idx, v->b ? 1 + style % 3 : 0); \
        case T::Str: if (!verb_o) return sl ? W::a##V3##_str(t, idx, str.p, str.n) : W::a##V3##_str(t, idx, str.p); \
          if (len) return W::o##V3##_str(t, q, n, str.p, str.n); return W::o##V3##_str(t, q, str.p); \
        default: return verb_o ? KEYED(o##V3##_null) : W::a##V3##_null(t, idx); }
      bool verb_o = verb == M_INS || verb == M_SET;
      if (verb == M_INS || verb == M_INSI) { BOTH(ins) }
      if (verb == M_SET || verb == M_SETI) { BOTH(set) }
      switch (verb) {
        case M_ERA: return KEYED(oerase); case M_CLEAR: return style & 1 ? W::oclear(t) : W::aclear(t); case M_ERAI: return W::aerase(t, idx);
        case M_RESIZE: return W::aresize(t, idx); default: return W::areserve(t, idx); }
    }
    void op_mut(Op const& op) {
      u64 seed = (u64) op.a[1]; Rng r(seed ^ 31); bool prefer = r.chance(80);
      int ti = -1; if (prefer) ti = pick(op.a[0], [] (Hd& h) { return !h.cpp && h.k != C_BUF && !h.fin && agg(h.v); }); if (ti < 0) ti = any_c(op.a[0]); if (ti < 0) return;
      Hd& t = s[ti]; int verb = (int) ((u64) op.a[2] % M_NVERB); bool obj = t.v->t == T::Obj; if (r.chance(88)) { if (obj && verb >= M_INSI) verb = (int) ((u64) op.a[2] / M_NVERB % 4); if (!obj && verb < M_CLEAR) verb = M_INSI + (int) ((u64) op.a[2] / M_NVERB % 5); }
      if ((verb == M_CLEAR) && r.chance(60)) verb = obj ? M_INS : M_INSI;
      std::string k = key_of(t.v, op.a[3], seed ^ 9); size_t n = t.v->a.size(), idx = r.chance(85) ? r.below(n + 1) : r.chance(50) ? n + r.below(4) : (size_t) 0 - 1 - r.below(3);
      if (verb == M_RESIZE || verb == M_RESERVE) idx = r.chance(90) ? r.below(12) : r.chance(50) ? (size_t) 1 << 60 : r.chance(50) ? ~(size_t) 0 : (size_t) 1 << 44;
      bool typed = t.k == C_HEAP && r.chance(50); int form = (verb == M_INS || verb == M_SET || verb == M_INSI || verb == M_SETI) ? (int) r.below(3) : 0; bool len = has0(k) || r.chance(50);
      V v = gen_scalar(r, g); Hd tmp; Hd* val = nullptr; int vi = -1;
      if (form) {
        bool other = r.chance(12);
        vi = r.chance(60) ? pick(op.a[5], [&] (Hd& h) { return !h.cpp && (!typed || h.k == C_HEAP) && (h.rc == t.rc) != other && weight(h.v) + weight(t.v) < 3000; }) : -1;
        if (vi == ti && form == 2) vi = -1;
        if (vi < 0) { CK ck = typed ? C_HEAP : (CK) (1 + r.below(3)); V nv = gen(seed ^ 3, ck == C_BUF ? 0 : (int) r.below(5)); tmp = make(ck, other ? 3 - t.rc : t.rc, nv, seed ^ 4); val = &tmp; }
        else val = &s[vi];
        v = val->v;
      }
      if (!len && form == 0 && v->t == T::Str && has0(v->s) && (verb == M_INS || verb == M_SET)) len = true;
      Want x = model(t, verb, k, idx, v);
      if (form && x.w != CLIENTB && val->rc != t.rc) { x.w = (typed ? CLIENTB : TYPEB) | (x.w & LOGICB); x.v = t.v; }
      int style = (int) r.below(8); char const* nm = typed ? "typed" : "generic"; (void) nm;
      Rec c = call(op, x.w, [&] () -> int { return typed ? mut_call<WH>(t.blk, verb, form, k, len, idx, v, val ? val->blk : nullptr, style) : mut_call<WG>(t.blk, verb, form, k, len, idx, v, val ? val->blk : nullptr, style); });
      if (c.ok()) {
        t.v = x.v;
        if (form == 2) { if (!cpp_null(*val)) fail("value", "a value taken by the call is not null"); val->v = mk(); }
      } else if (c.fired) {
        std::string w1, w2; if (!cpp_reads(t, t.v, 0, w1)) { if (x.w == OKB && cpp_reads(t, x.v, 0, w2)) t.v = x.v; else fail("value", "slot %d: after %s the value is neither the old nor the new one: %s / %s", ti, en(c.code), w1.c_str(), w2.c_str()); }
        if (form == 2 && !cpp_reads(*val, val->v, 0, w1)) { if (!cpp_null(*val)) fail("value", "after %s the value to be taken is neither kept nor null: %s", en(c.code), w1.c_str()); val->v = mk(); }
      } else if (form) { std::string w; if (!cpp_reads(*val, val->v, 0, w)) { if (form == 1 || !cpp_null(*val)) fail("value", "after %s the value passed in changed: %s", en(c.code), w.c_str()); val->v = mk(); } }
      if (vi >= 0) settle(*val);
      if (val == &tmp) destroy(tmp, opi & 1);
      check(ti, "right after the change"); probe(strf("mut:%s", c.ok() ? "done" : "refused").c_str());
    }

    template <class R, class T2, class S> void get_op(Op const& op, Hd& f, CK outk, int route) {
      S const* p = (S const*) f.blk; u64 seed = (u64) op.a[1]; Rng r(seed ^ 17); std::string k = key_of(f.v, op.a[3], seed ^ 9); bool len = has0(k) || (route & 1); CStr key(k, !len); size_t n = f.v->a.size(), idx = r.chance(85) ? r.below(n + 1) : ~(size_t) 0 - r.below(3);
      int what = (int) r.below(8); if (r.chance(60)) what = f.v->t == T::Obj ? 0 : f.v->t == T::Arr ? 1 : what; bool err = r.chance(60); int rcf = f.rc;
      if (what < 2) {
        bool bykey = what == 0; unsigned want = OKB; V x = mk(); if (bykey) { if (f.v->t != T::Obj) want = TYPEB; else if (f.v->o.count(k)) x = f.v->o.at(k); } else { if (f.v->t != T::Arr) want = TYPEB; else if (idx < n) x = f.v->a[idx]; }
        Hd h = blank(outk, rcf);
        Rec c = call(op, want, [&] () -> int {
          if (err) return bykey ? (len ? R::get((T2*) h.blk, p, key.p, key.n) : R::get((T2*) h.blk, p, key.p)) : R::at((T2*) h.blk, p, idx);
          new (h.blk) T2(bykey ? (len ? R::get(p, key.p, key.n) : R::get(p, key.p)) : R::at(p, idx)); Disarm d; bool nul = dart_is_null(h.blk) == 1; return nul && (want != OKB || x->t != T::Null) ? FAILED : 0; });
        if (!c.ok()) { if (!err) h.rc = SAFE; failed_dst(h, c); return; }
        h.v = x; settle(h); put(dst(op.a[5], (int) (&f - s)), h); return;
      }
      // scalar accessors on whatever this is; what they are given to fill stays as it was when they fail
      bool hit; unsigned want; int64_t i = 0x5a5a; double d = 1.25; int b = 0x5a; size_t sz = 0x5a5a; char const* q; T vt = f.v->t; in_lib = 0;
      switch (what) {
        case 2: hit = vt == T::Int; want = hit ? OKB : TYPEB; { Rec c = call(op, want, [&] () -> int { if (err) return R::num(p, &i); i = R::num(p); return hit ? 0 : FAILED; }); if (!hit && i != (err ? 0x5a5a : 0)) fail("value", "a failed integer read gave %lld", (long long) i); if (c.ok() && i != f.v->i) fail("value", "integer read as %lld", (long long) i); } break;
        case 3: hit = vt == T::Dec; want = hit ? OKB : TYPEB; { Rec c = call(op, want, [&] () -> int { if (err) return R::dcm(p, &d); d = R::dcm(p); return hit ? 0 : FAILED; }); if (!hit && !(err ? d == 1.25 : std::isnan(d))) fail("value", "a failed decimal read gave %g", d); if (c.ok() && !bits_eq(d, f.v->d)) fail("value", "decimal read as %g", d); } break;
        case 4: hit = vt == T::Bool; want = hit ? OKB : TYPEB; { Rec c = call(op, want, [&] () -> int { if (err) return R::boo(p, &b); b = R::boo(p); return hit ? 0 : FAILED; }); if (!hit && b != (err ? 0x5a : 0)) fail("value", "a failed boolean read gave %d", b); if (c.ok() && !!b != f.v->b) fail("value", "boolean read as %d", b); } break;
        case 5: hit = vt == T::Str; want = hit ? OKB : TYPEB; call(op, want, [&] () -> int { q = err ? R::str(p, &sz) : R::str(p); return q ? 0 : FAILED; }); if (hit && (!q || (err && sz != f.v->s.size()) || memcmp(q, f.v->s.data(), f.v->s.size()))) fail("value", "string differs"); break;
        case 6: hit = agg(f.v) || vt == T::Str; want = hit ? OKB : TYPEB; call(op, want, [&] () -> int { sz = R::size(p); return sz == (size_t) DART_FAILURE ? FAILED : 0; }); break;
        default: { hit = vt == T::Obj; bool in = hit && f.v->o.count(k); int h; call(op, hit ? OKB : TYPEB, [&] () -> int { h = len ? R::has(p, key.p, key.n) : R::has(p, key.p); return hit ? 0 : FAILED; }); if (h != (int) in) fail("value", "has_key says %d of %s", h, qstr(k).c_str()); }
      }
    }
    void op_get(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; int route = (int) ((u64) op.a[2] % 4);
      if (route & 2) { if (f.k == C_HEAP) return get_op<RH, dart_heap_t, dart_heap_t>(op, f, C_HEAP, route); if (f.k == C_BUF) return get_op<RB, dart_buffer_t, dart_buffer_t>(op, f, C_BUF, route); }
      get_op<RG, dart_packet_t, void>(op, f, C_PKT, route);
    }
    void op_conv(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; int which = (int) ((u64) op.a[2] % 8), err = (int) (op.a[3] & 1); bool obj = f.v->t == T::Obj; CK outk; bool down; unsigned want = OKB; bool typed = false;
      switch (which) { case 0: outk = C_HEAP; down = false; break; case 1: outk = C_BUF; down = true; break; case 2: case 3: outk = C_PKT; down = true; break; case 4: case 5: outk = C_PKT; down = false; break;
        default: typed = f.k != C_PKT; if (!typed) { outk = C_PKT; down = true; which = 2; } else { down = f.k == C_HEAP; outk = down ? C_BUF : C_HEAP; } }
      if (down && f.k != C_BUF && !f.fin && !obj) want = TYPEB;
      Hd h = blank(outk, f.rc);
#define CONV(T2, F) (err ? (int) F##_err((T2*) h.blk, src) : (new (h.blk) T2(F(src)), -1))
      Rec c = call(op, want, [&] () -> int {
        int e; void const* src = f.blk;
        if (typed && f.k == C_HEAP) { dart_heap_t const* src = H(f); e = which == 6 ? CONV(dart_buffer_t, dart_heap_lower) : CONV(dart_buffer_t, dart_heap_finalize); }
        else if (typed) { dart_buffer_t const* src = B(f); e = which == 6 ? CONV(dart_heap_t, dart_buffer_lift) : CONV(dart_heap_t, dart_buffer_definalize); }
        else switch (which) { case 0: e = CONV(dart_heap_t, dart_to_heap); break; case 1: e = CONV(dart_buffer_t, dart_to_buffer); break; case 2: e = CONV(dart_packet_t, dart_lower); break; case 3: e = CONV(dart_packet_t, dart_finalize); break;
          case 4: e = CONV(dart_packet_t, dart_lift); break; default: e = CONV(dart_packet_t, dart_definalize); }
        if (e >= 0) return e; Disarm d; return dart_is_null(h.blk) == 1 && (f.v->t != T::Null || want != OKB) ? FAILED : 0; });
      if (!c.ok()) { if (!err) h.rc = SAFE; failed_dst(h, c); return; }
      h.v = f.v; settle(h); bool fin = h.fin; if (fin != down) fail("value", "the result of a conversion %s finalized", fin ? "is" : "is not");
      put(dst(op.a[4], a), h);
    }
    std::string text_for(Op const& op, bool& damaged) {
      V v = gen((u64) op.a[1], (int) ((u64) op.a[2] % 4)); Rng r((u64) op.a[1] ^ 21); std::string t; to_json(v, t, r.chance(40) ? &r : nullptr); damaged = op.a[4] % 3 == 0; if (damaged) { int w; t = damage_text(t, r, w); if (r.chance(30)) t = damage_text(t, r, w); } return t;
    }
    template <class R, class T2> int parse_call(T2* d, int var, int rc, CStr& c, bool len) {
      if (len) switch (var) { case 0: new (d) T2(R::parse(c.p, c.n)); return -1; case 1: return R::parse(d, c.p, c.n); case 2: new (d) T2(R::parse(RC(rc), c.p, c.n)); return -1; default: return R::parse(d, RC(rc), c.p, c.n); }
      switch (var) { case 0: new (d) T2(R::parse(c.p)); return -1; case 1: return R::parse(d, c.p); case 2: new (d) T2(R::parse(RC(rc), c.p)); return -1; default: return R::parse(d, RC(rc), c.p); }
    }
    void op_parse(Op const& op) {
      bool damaged; std::string t = text_for(op, damaged); int style = (int) ((u64) op.a[3] % 32), var = style & 3; bool len = style & 4; CK k = (CK) (1 + (style >> 3) % 3); int rc = var < 2 ? SAFE : 1 + (int) (op.a[5] & 1);
      if (!len) { size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z); }
      int badrc = var == 3 && op.a[5] % 17 == 0 ? 11 : 0;
      V x; Hd ref = blank(k, rc, true); int e; { Disarm d; e = cpp_parse(ref, t, x); } if (!e) cpp_destroy(ref); free(ref.blk); unsigned want = badrc ? CLIENTB : 1u << e;
      if (!damaged && e && plan.get("json")) { V v = gen((u64) op.a[1], (int) ((u64) op.a[2] % 4)); if (v->t == T::Obj && !plan.get("nonfinite")) fail("outcome", "a valid document is refused by the C++ interface"); }
      CStr c(t, !len); Hd h = blank(k, badrc ? badrc : rc);
      Rec r = call(op, want, [&] () -> int {
        int rr = badrc ? badrc : rc; int e2 = k == C_HEAP ? parse_call<RH>(H(h), var, rr, c, len) : k == C_BUF ? parse_call<RB>(B(h), var, rr, c, len) : parse_call<RG>(P(h), var, rr, c, len);
        if (e2 >= 0) return e2; Disarm d; return dart_is_null(h.blk) == 1 && (want != OKB || (x && x->t != T::Null)) ? FAILED : 0; });
      probe(r.ok() ? "parse:accepted" : "parse:refused");
      if (!r.ok()) { if (!(var & 1)) h.rc = SAFE; failed_dst(h, r, !badrc); return; }
      h.v = x; settle(h); put(dst(op.a[0]), h);
    }
    void op_json(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; std::string ref; int e; { Disarm d; e = cpp_json(f, ref); } unsigned want = 1u << e; bool wantlen = op.a[2] & 1, typed = op.a[2] & 2, starve = op.fk && (op.a[2] & 4); size_t n = 0x5a5a; char* p = nullptr; Op o = op; if (starve) o.fk = 0;
      Rec c = call(o, want | (starve ? UNKNOWNB : 0), [&] () -> int {
        if (starve && !e) { fault = Fault {}; fault.kind = F_NTH; fault.n = 1; fault.cmalloc = true; fault.csize = ref.size() + 1; fault.armed = true; }
        p = typed && f.k == C_HEAP ? dart_heap_to_json(H(f), wantlen ? &n : nullptr) : typed && f.k == C_BUF ? dart_buffer_to_json(B(f), wantlen ? &n : nullptr) : dart_to_json(f.blk, wantlen ? &n : nullptr); fault.armed = false; return p ? 0 : FAILED; });
      if (!c.ok()) return;
      if (strlen(p) != strnlen(ref.c_str(), ref.size()) || (wantlen && n != ref.size()) || memcmp(p, ref.data(), ref.size()) || p[ref.size()]) fail("value", "C prints %s, C++ prints %s", qstr(p, 200).c_str(), qstr(ref, 200).c_str());
      Lib l; free(p);
    }
    void op_bytes(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; int what = (int) ((u64) op.a[2] % 6), style = (int) ((u64) op.a[3] % 16); bool typed = (style & 1) && f.k == C_BUF; size_t rn = 0, n = 0x5a5a; void const* ref; { Disarm d; ref = cpp_bytes(f, rn); }
      unsigned want = f.k == C_HEAP ? CLIENTB : !f.fin ? STATEB | TYPEB : ref ? OKB : TYPEB;
      if (what == 0) {
        void const* p = nullptr; Rec c = call(op, want, [&] () -> int { size_t* ln = style & 2 ? nullptr : &n; p = typed ? YB::get(B(f), ln) : YG::get(f.blk, ln); return p ? 0 : FAILED; });
        if (c.ok() && (p != ref || (!(style & 2) && n != rn))) fail("value", "dart_get_bytes differs from the C++ interface"); return;
      }
      void* q = nullptr; Op quiet = op; if (what > 1) quiet.fk = 0;
      Rec c = call(quiet, want, [&] () -> int { size_t* ln = style & 2 ? nullptr : &n; q = typed ? YB::dup(B(f), ln) : YG::dup(f.blk, ln); return q ? 0 : FAILED; });
      if (!c.ok()) return;
      if (((uintptr_t) q & 7) || (!(style & 2) && n != rn) || memcmp(q, ref, rn)) fail("value", "duplicated bytes differ");
      if (what == 1) { Lib l; dart_aligned_free(q); return; }
      int var = (style >> 2) & 3, rc = var < 2 ? SAFE : 1 + (int) (op.a[5] & 1); bool ptyped = op.a[4] & 1; Hd h = blank(ptyped ? C_BUF : C_PKT, rc); h.v = f.v;
      if (what <= 3) {          // copy out of memory the caller keeps
        char* m = (char*) malloc(rn + 8); size_t off = op.a[4] >> 1 & 1 ? 0 : 1 + (size_t) (op.a[4] >> 2 & 3); char* at = off ? m + off : (char*) q; if (off) memcpy(at, q, rn);
        Rec r = call(op, OKB, [&] () -> int {
          if (ptyped) switch (var) { case 0: new (h.blk) dart_buffer_t(YB::from(at, rn)); break; case 1: return YB::from(B(h), at, rn); case 2: new (h.blk) dart_buffer_t(YB::from(at, RC(rc), rn)); break; default: return YB::from(B(h), RC(rc), at, rn); }
          else switch (var) { case 0: new (h.blk) dart_packet_t(YG::from(at, rn)); break; case 1: return YG::from(P(h), at, rn); case 2: new (h.blk) dart_packet_t(YG::from(at, RC(rc), rn)); break; default: return YG::from(P(h), RC(rc), at, rn); }
          Disarm d; return dart_is_null(h.blk) == 1 ? FAILED : 0; });
        memset(m, 0xa5, rn + 8); if (!off) memset(q, 0xa5, rn); free(m); { Lib l; dart_aligned_free(q); }
        if (!r.ok()) { if (!(var & 1)) h.rc = SAFE; failed_dst(h, r); return; }
      } else if (what == 4) {   // hand the memory over
        int bad = var == 3 && op.a[5] % 11 == 0 ? 9 : 0; int rr = bad ? bad : rc;
        Rec r = call(op, bad ? CLIENTB : OKB, [&] () -> int {
          if (ptyped) switch (var) { case 0: new (h.blk) dart_buffer_t(YB::take(q)); break; case 1: return YB::take(B(h), q); case 2: new (h.blk) dart_buffer_t(YB::take(q, RC(rr))); break; default: return YB::take(B(h), RC(rr), q); }
          else switch (var) { case 0: new (h.blk) dart_packet_t(YG::take(q)); break; case 1: return YG::take(P(h), q); case 2: new (h.blk) dart_packet_t(YG::take(q, RC(rr))); break; default: return YG::take(P(h), RC(rr), q); }
          Disarm d; return dart_is_null(h.blk) == 1 ? FAILED : 0; });
        if (bad && mem_live(q)) { Lib l; dart_aligned_free(q); }   // whose the memory is after such a call is not documented
        if (!r.ok()) { if (!(var & 1)) h.rc = SAFE; failed_dst(h, r, !bad); return; }
      } else {
        int whole = lib([&] { return dart_buffer_is_valid(q, rn); }); if (whole != 1) fail("value", "dart_buffer_is_valid refuses what the library encoded");
        size_t cut = (size_t) ((u64) op.a[4] % (rn ? rn : 1)); char* m = nullptr; if (posix_memalign((void**) &m, 8, cut ? cut : 1)) return; memcpy(m, q, cut); int part = lib([&] { return dart_buffer_is_valid(m, cut); }); if (part) fail("value", "dart_buffer_is_valid accepts the first %zu of %zu bytes", cut, rn);
        free(m); Lib l; dart_aligned_free(q); free(h.blk); return;
      }
      settle(h); put(dst(op.a[1], a), h);
    }
    void op_iter(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; bool keys_ = op.a[2] % 3 == 0; Rng r((u64) op.a[1]); Op quiet = op; quiet.fk = 0;
      unsigned want = keys_ ? (f.v->t == T::Obj ? OKB : TYPEB) : agg(f.v) ? OKB : TYPEB;
      std::vector<V> el; for (auto& e : f.v->a) el.push_back(e); for (auto& e : f.v->o) el.push_back(keys_ ? mk_str(e.first) : e.second);
      auto fresh = [] { auto* p = (dart_iterator_t*) malloc(sizeof(dart_iterator_t)); memset((void*) p, 0x5a, sizeof *p); return p; };
      auto kill = [&] (dart_iterator_t*& p, bool must) { int e = lib([&] { return dart_iterator_destroy(p); }); if (must && e) fail("outcome", "destroying an iterator ended with %s", en(e)); free(p); p = nullptr; };
      if (op.a[3] % 5 == 0) {     // the loop macro, over anything
        dart_packet_t v; size_t i = 0; memset((void*) &v, 0x5a, sizeof v);
        { Arm arm(op.fk, op.fn); ++in_lib;
          if (keys_) { dart_for_each_key((void const*) f.blk, &v) { --in_lib; { Disarm d; if (want != OKB || i >= el.size()) fail("value", "the loop macro visits too much"); read_packet(&v, el[i++], "{macro}"); } ++in_lib; } }
          else { dart_for_each((void const*) f.blk, &v) { --in_lib; { Disarm d; if (want != OKB || i >= el.size()) fail("value", "the loop macro visits too much"); read_packet(&v, el[i++], "{macro}"); } ++in_lib; } }
          --in_lib; }
        if (want == OKB && i != el.size() && !fault.fired) fail("value", "the loop macro visited %zu of %zu elements", i, el.size());
        return;
      }
      dart_iterator_t* it = fresh();
      Rec c = call(op, want, [&] () -> int { return keys_ ? dart_iterator_init_key_from_err(it, f.blk) : dart_iterator_init_from_err(it, f.blk); });
      if (!c.ok()) { if (op.a[3] & 1) { int dn = lib([&] { return dart_iterator_done(it); }); if (!dn) fail("leftover", "the iterator a failed call left behind is not at its end"); } kill(it, true); return; }
      size_t pos = 0; size_t n = 0;
      for (int step = 0; step < 40 && n < el.size() + 6; ++step) {
        int w = (int) r.below(10);
        if (w < 5) { lib([&] { return dart_iterator_next(it); }); if (pos < el.size()) ++pos; ++n; }
        else if (w < 8) {
          Hd h = blank(C_PKT, f.rc); bool err = r.chance(50), end = pos >= el.size();
          Rec q = call(w == 5 ? op : quiet, end ? RUNTIMEB : OKB, [&] () -> int { if (err) return dart_iterator_get_err(P(h), it); new (h.blk) dart_packet_t(dart_iterator_get(it)); Disarm d; return dart_is_null(h.blk) == 1 && (end || el[pos]->t != T::Null) ? FAILED : 0; });
          if (!q.ok()) { if (!err) h.rc = SAFE; failed_dst(h, q); continue; }
          h.v = el[pos]; read_packet(P(h), h.v, "{iterator}"); settle(h); if (f.k != C_PKT && h.fin != (f.k == C_BUF) && !keys_) fail("value", "the element of a %s iterator %s finalized", ck_names[f.k], h.fin ? "is" : "is not");
          if (r.chance(20)) { int d = dst((i64) r.below(NS), a); put(d, h); } else destroy(h, 0);
        } else {
          dart_iterator_t* jt = fresh(); bool mv = w == 9; Rec q = call(quiet, OKB, [&] () -> int { return mv ? dart_iterator_move_err(jt, it) : dart_iterator_copy_err(jt, it); });
          if (!mv && r.chance(50)) { lib([&] { return dart_iterator_next(jt); }); kill(jt, true); } else { kill(it, true); it = jt; }
        }
        bool done = lib([&] { return dart_iterator_done(it); }) != 0; if (done != (pos >= el.size())) fail("value", "the iterator at %zu of %zu says done=%d", pos, el.size(), done);
      }
      kill(it, true);
    }
    void op_equal(Op const& op) {
      int a = any_c(op.a[0]), b = any_c(op.a[1]); if (a < 0) return; bool self = op.a[2] % 4 == 0; if (self) b = a; Hd tmp; Hd* rhs = &s[b]; if (op.a[2] % 4 == 1) { CK k = (CK) (1 + op.a[3] % 3); if (!fits(k, s[a].v)) k = C_PKT; tmp = make(k, 1 + (int) (op.a[4] & 1), s[a].v, (u64) op.a[5]); rhs = &tmp; }
      Hd& l = s[a]; bool typed = l.k == rhs->k && l.rc == rhs->rc && (op.a[3] & 4); int r = -1;
      bool e = eq(l.v, rhs->v), ne = differs(l.v, rhs->v); if (l.rc != rhs->rc) e = false;   // different counters may compare unequal
      call(op, OKB, [&] () -> int { r = typed && l.k == C_HEAP ? dart_heap_equal(H(l), H(*rhs)) : typed && l.k == C_BUF ? dart_buffer_equal(B(l), B(*rhs)) : dart_equal(l.blk, rhs->blk); return 0; });
      if (e && r != 1 && !op.fk) fail("value", "dart_equal says %d of equal values %s", r, show(l.v, 100).c_str());
      if (ne && r != 0) fail("value", "dart_equal says %d of %s and %s", r, show(l.v, 100).c_str(), show(rhs->v, 100).c_str());
      if (rhs == &tmp) destroy(tmp, 0);
    }
    void op_misuse(Op const& op) {
      int a = any_c(op.a[0]); if (a < 0) return; Hd& f = s[a]; auto* id = (dart_type_id_t*) f.blk; dart_type_id_t good = *id; int what = (int) ((u64) op.a[2] % 3); static int const junk[] = {0, 4, 77, -1, 9};
      if (what == 0) id->p_id = (dart_packet_type_t) junk[op.a[3] % 5]; else if (what == 1) id->rc_id = (dart_rc_type_t) junk[op.a[3] % 5 == 1 ? 2 : op.a[3] % 5];
      if (what == 2) {
        Op quiet = op; quiet.fk = 0; Hd bad = make(C_HEAP, f.rc, mk_int(3), 1); ((dart_type_id_t*) bad.blk)->p_id = (dart_packet_type_t) junk[op.a[3] % 5]; bool arr = f.v->t == T::Arr;
        unsigned want = CLIENTB | (f.k != C_BUF && f.fin ? STATEB : 0);
        call(quiet, want, [&] () -> int { return arr ? dart_arr_insert_dart(f.blk, 0, bad.blk) : dart_obj_insert_dart(f.blk, "k", bad.blk); });
        if (op.a[4] & 1) { int r = lib([&] { return dart_equal(f.blk, bad.blk); }); if (r) fail("value", "a corrupted handle compares equal"); }
        ((dart_type_id_t*) bad.blk)->p_id = DART_HEAP; destroy(bad, 0); return;
      }
      dart_type_id_t broken = *id; Op quiet = op; quiet.fk = 0; Rng r((u64) op.a[1]);
      for (int n = 0; n < 4; ++n) {
        int w = (int) r.below(16); Hd h = blank(C_PKT, SAFE); bool made = false; size_t sz = 0; int64_t i = 5;
        bool typed = what == 1 && f.k != C_PKT && r.chance(40);
        call(quiet, CLIENTB, [&] () -> int {
          if (typed) { bool hp = f.k == C_HEAP; switch (w % 5) { case 0: return hp ? dart_heap_int_get_err(H(f), &i) : dart_buffer_int_get_err(B(f), &i); case 1: return (hp ? dart_heap_size(H(f)) : dart_buffer_size(B(f))) == (size_t) DART_FAILURE ? FAILED : 0;
            case 2: return hp ? dart_heap_destroy(H(f)) : dart_buffer_destroy(B(f)); case 3: return (hp ? dart_heap_get_type(H(f)) : dart_buffer_get_type(B(f))) == DART_INVALID ? FAILED : 0; default: return (hp ? dart_heap_to_json(H(f), &sz) : dart_buffer_to_json(B(f), &sz)) ? 0 : FAILED; } }
          switch (w) {
            case 0: return dart_size(f.blk) == (size_t) DART_FAILURE ? FAILED : 0; case 1: return dart_get_type(f.blk) == DART_INVALID ? FAILED : 0;
            case 2: return dart_is_obj(f.blk) || dart_is_str(f.blk) || dart_is_null(f.blk) || dart_is_finalized(f.blk) ? 0 : FAILED;
            case 3: return dart_obj_insert_int(f.blk, "k", 1); case 4: return dart_arr_set_null(f.blk, 0); case 5: made = true; return dart_obj_get_err(P(h), f.blk, "a");
            case 6: made = true; return dart_copy_err(h.blk, f.blk); case 7: return dart_to_json(f.blk, &sz) ? 0 : FAILED; case 8: made = true; return dart_lower_err(P(h), f.blk);
            case 9: return dart_destroy(f.blk); case 10: return dart_int_get_err(f.blk, &i); case 11: return dart_refcount(f.blk) == (size_t) DART_FAILURE ? FAILED : 0;
            case 12: { dart_iterator_t it; memset((void*) &it, 0x5a, sizeof it); int e = dart_iterator_init_from_err(&it, f.blk); if (e != DART_CLIENT_ERROR) return e; Disarm d; int dn = dart_iterator_done(&it); e = dart_iterator_destroy(&it); return dn ? e : 0; }
            case 13: return dart_str_get(f.blk) ? 0 : FAILED; case 14: return dart_get_bytes(f.blk, &sz) ? 0 : FAILED; default: return dart_obj_has_key(f.blk, "a") ? 0 : FAILED; } });
        if (made) lib([&] { return dart_destroy(h.blk); });
        free(h.blk); if (memcmp(id, &broken, sizeof broken)) fail("value", "a refused call changed the handle's type"); if (i != 5) fail("value", "a refused call wrote a result");
      }
      *id = good;
    }

    // ---- both interfaces ------------------------------------------------------------------------------
    void op_swap(Op const& op) {
      bool to_c = op.a[2] & 1, mv = (op.a[2] & 6) == 6; int a = pick(op.a[0], [&] (Hd& h) { return h.cpp == to_c; }); if (a < 0) return; Hd& f = s[a]; size_t before = cpp_refcount(f);
      if (to_c) {
        Hd h = blank(f.k, f.rc); int e = cpp_to_c(h, f, mv); if (e) fail("outcome", "handing a value to C failed (%d)", e);
        h.v = f.v; if (mv) { if (!cpp_null(f)) fail("value", "a value moved to C is still held by C++"); f.v = mk(); settle(f); }
        finish_swap(h, before, mv); put(dst(op.a[1], a), h);
      } else {
        int d = -1; if (op.a[3] % 3) d = pick(op.a[1], [&] (Hd& h) { return h.cpp && h.k == f.k && (h.rc == f.rc || op.a[3] % 3 == 2); });
        if (d < 0) { d = dst(op.a[1], a); Hd n = blank(f.k, f.rc, true); V v = gen((u64) op.a[4], f.k == C_BUF ? 0 : 4); if (cpp_build(n, v, 3, 0)) fail("harness", "building a value failed"); n.v = v; settle(n); put(d, n); }
        Hd& t = s[d]; int e = cpp_from_c(t, f);
        if (t.rc != f.rc) { if (e != O_TYPE) fail("outcome", "taking a C value with the other reference counter ended with %s", en(e)); return; }
        if (e) fail("outcome", "taking a value from C failed (%d)", e);
        size_t was = agg(f.v) ? before : 0; (void) was; t.v = f.v; settle(t);
        if (agg(f.v)) { size_t x = cpp_refcount(t), y = lib([&] { return dart_refcount(f.blk); }); if (x != y || x < 2) fail("count", "after handing a value to C++ the sides report %zu and %zu owners", x, y); }
      }
      probe("swap");
    }
    void finish_swap(Hd& h, size_t before, bool mv) { settle(h); size_t after = lib([&] { return dart_refcount(h.blk); }); if (agg(h.v) && after != before + !mv) fail("count", "handing over a value with %zu owners left %zu", before, after); }
    void op_cpp(Op const& op) {
      int a = pick(op.a[0], [] (Hd& h) { return h.cpp; }); if (a < 0) return; Hd& f = s[a]; int what = (int) ((u64) op.a[2] % 10); u64 seed = (u64) op.a[1]; Rng r(seed ^ 31);
      if (what < 5) {
        int verb = (int) ((u64) op.a[3] % M_NVERB); bool obj = f.v->t == T::Obj; if (obj && verb >= M_INSI) verb = (int) ((u64) op.a[3] / M_NVERB % 4); if (!obj && verb < M_CLEAR) verb = M_INSI + (int) ((u64) op.a[3] / M_NVERB % 5); if (f.k == C_BUF) return;
        std::string k = key_of(f.v, op.a[3], seed ^ 9); size_t idx = verb >= M_RESIZE ? r.below(10) : r.below(f.v->a.size() + 2); V v = gen(seed, 4); int vi = r.chance(50) ? pick(op.a[4], [&] (Hd& h) { return h.k == f.k && h.rc == f.rc && weight(h.v) + weight(f.v) < 3000; }) : -1; if (vi >= 0) v = s[vi].v;
        Want x = model(f, verb, k, idx, v); bool mv = vi >= 0 && vi != a && r.chance(40);
        int e = cpp_mutate(f, verb, k, idx, v, seed, vi >= 0 ? &s[vi] : nullptr, mv);
        if (e ? !(x.w & (1u << e)) : !(x.w & OKB)) fail("outcome", "a C++ change ended with %s", en(e));
        if (!e) f.v = x.v; if (mv && cpp_null(s[vi])) { s[vi].v = mk(); settle(s[vi]); } else if (mv && !e && x.w == OKB && (verb == M_INS || verb == M_SET || verb == M_INSI || verb == M_SETI)) fail("value", "a value moved into another is still held");
        settle(f); return;
      }
      if (what == 5 && f.k == C_PKT) { bool fin = r.chance(50); int e = cpp_finalize(f, fin); if (e && !(fin && !f.fin && f.v->t != T::Obj)) fail("outcome", "finalizing failed"); settle(f); return; }
      Hd h = blank(f.k, f.rc, true); std::string k = key_of(f.v, op.a[3], seed ^ 9); size_t idx = r.below(f.v->a.size() + 1); bool bykey = f.v->t == T::Obj, child = what >= 8 && agg(f.v); bool mv = what == 7;
      int e = child ? cpp_child(h, f, k, idx, bykey) : cpp_copy(h, f, mv); if (e) fail("outcome", "a C++ copy failed");
      h.v = !child ? f.v : bykey ? (f.v->o.count(k) ? f.v->o.at(k) : mk()) : idx < f.v->a.size() ? f.v->a[idx] : mk(); if (mv && !child) { if (!cpp_null(f)) fail("value", "a moved-from handle is not null"); f.v = mk(); settle(f); }
      settle(h); put(dst(op.a[5], a), h);
    }

    void run() {
      if (warm) { dart_packet_t p; { Lib l; dart_init_err(&p); } CStr k(std::string(300, 'w'), true); { Lib l; dart_obj_insert_int(&p, k.p, 1); } plant(OKB); plant(CLIENTB); forget(p); mem.base = mem.live_blocks; }
      for (auto& op : plan.ops) {
        set_op(opi); u64 k = 0; for (int i = 0; i < NS; ++i) k = k * 16 + (u64) (s[i].k ? 1 + (s[i].k - 1) * 4 + (s[i].rc - 1) * 2 + s[i].cpp : 0);
        note_history(mix(mix((u64) op.code, k), mix((u64) op.a[0] % NS, (u64) op.a[2]))); note_state(mix(k, (u64) op.code)); logf("op %d code %d", opi, op.code);
        switch (op.code) {
          case CO_INIT: op_init(op); break; case CO_LIT: op_lit(op); break; case CO_VA: op_va(op); break; case CO_COPY: op_copy(op, false); break; case CO_MOVE: op_copy(op, true); break; case CO_DROP: op_drop(op); break;
          case CO_MUT: op_mut(op); break; case CO_GET: op_get(op); break; case CO_CONV: op_conv(op); break; case CO_PARSE: op_parse(op); break; case CO_JSON: op_json(op); break; case CO_BYTES: op_bytes(op); break;
          case CO_ITER: op_iter(op); break; case CO_EQUAL: op_equal(op); break; case CO_MISUSE: op_misuse(op); break; case CO_SWAP: op_swap(op); break; case CO_CPP: op_cpp(op); break;
        }
        check_all("after this step"); ++opi;
      }
      set_op(opi); Rng r((u64) plan.get("keyseed") ^ 5); int order[NS]; for (int i = 0; i < NS; ++i) order[i] = i; for (int i = NS; i > 1; --i) std::swap(order[i - 1], order[r.below((u64) i)]);
      for (int i = 0; i < NS; ++i) { wipe(order[i]); for (int j = 0; j < NS; ++j) check(j, "after another handle was destroyed", false); }
      if (mem.live_blocks > mem.base) suspect("leak", "all handles are gone and %llu blocks are still held: %s", (unsigned long long) (mem.live_blocks - mem.base), mem_describe_leaks().c_str());
    }
  };
  void capi_run(Plan const& p) { CWorld w(p); w.run(); }
}
