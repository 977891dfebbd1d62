// Wire engine: senders, a lossy channel on virtual time, receivers with reused memory,
// a crashing disk, and bytes corrupted in transit.
#pragma once
#include "rc.h"
#include "adapter.h"
#include "hist.h"
#include <queue>

namespace sim {
  enum WireOp { W_SEND, W_RESEND, W_TICK, W_PART, W_CHECK, W_DROP, W_SCRIB, W_CONVERT, W_APPEND, W_SYNC, W_CRASH, W_CUTS, W_CORRUPT, W_DEEP, W_NOPS };
  static char const* const wire_opnames[] = {"SEND", "RESEND", "TICK", "PART", "CHECK", "DROP", "SCRIB", "CONVERT", "APPEND", "SYNC", "CRASH", "CUTS", "CORRUPT", "DEEP"};

  inline V wire_object(Rng& r, int cls) {
    GenCfg g;
    switch (cls) {
      case 0: g.maxdepth = 3; g.maxwidth = 4; g.nonfinite = true; return gen_object(r, g, 3);
      case 1: {   // wide, many keys with common prefixes or equal lengths
        Fields f; size_t n = r.below(60) * (r.chance(10) ? 5 : 1); int fl = (int) r.below(5); g.maxdepth = 1;
        for (size_t i = 0; i < n; ++i) {
          std::string k;
          switch (fl) { case 0: k = strf("key%zu", (size_t) r.below(1000)); break; case 1: k = gen_bytes(r, 2, 1); break; case 2: k = std::string(20, 'p') + gen_bytes(r, 1 + r.below(2), 1); break;
            case 3: k = std::string(1, (char) r.below(256)) + gen_bytes(r, r.below(3), 1); break; default: k = gen_key(r, g); }
          f[k] = gen_value(r, g, (int) r.below(2));
        }
        return mk_obj(f); }
      case 2: {   // deep
        V v = gen_value(r, g, 1); int n = (int) r.below(40); g.maxwidth = 2;
        for (int i = 0; i < n; ++i) { if (r.chance(50)) { Fields f; f[gen_key(r, g)] = v; if (r.chance(40)) f[gen_key(r, g)] = gen_scalar(r, g); v = mk_obj(f); } else { std::vector<V> a; if (r.chance(40)) a.push_back(gen_scalar(r, g)); a.push_back(v); if (r.chance(40)) a.push_back(gen_scalar(r, g)); v = mk_arr(a); } }
        if (v->t == T::Obj) return v; Fields f; f["d"] = v; return mk_obj(f); }
      case 3: {   // at the format's size limits
        Fields f; g.big = true; g.maxdepth = 1; g.maxwidth = 3;
        f["s"] = mk_str(gen_bytes(r, 65533 + r.below(6), 0)); if (r.chance(50)) f[gen_bytes(r, 65534 + r.below(2), 2)] = gen_value(r, g, 1); if (r.chance(50)) f[gen_bytes(r, 255 + r.below(3), 2)] = gen_value(r, g, 1);
        if (r.chance(30)) f["t"] = mk_arr({mk_str(gen_bytes(r, 70000, 0)), mk_int(1), mk_dec(0.25), mk_bool(true)}); f["z"] = gen_value(r, g, 1); return mk_obj(f); }
      case 4: {   // alignment: neighbours of every width and empties
        Fields f; g.maxwidth = 3; size_t n = 1 + r.below(6);
        for (size_t i = 0; i < n; ++i) { std::vector<V> a; size_t m = r.below(7);
          for (size_t j = 0; j < m; ++j) switch (r.below(9)) { case 0: a.push_back(mk_bool(r.chance(50))); break; case 1: a.push_back(mk_int((i64) r.below(200) - 100)); break; case 2: a.push_back(mk_int((i64) r.next())); break; case 3: a.push_back(mk_dec(0.5)); break; case 4: a.push_back(mk_dec(0.1)); break;
            case 5: a.push_back(mk_str(gen_bytes(r, r.below(9), 0))); break; case 6: a.push_back(mk()); break; case 7: a.push_back(mk_arr({})); break; default: a.push_back(mk_obj({})); }
          f[gen_bytes(r, r.below(9), 0)] = r.chance(70) ? mk_arr(a) : (a.empty() ? mk() : a[0]); }
        return mk_obj(f); }
      case 7: {   // a chain of pairs: aliasing its entries would double the work at every level
        V v = gen_scalar(r, g); int n = 8 + (int) r.below(40); bool ob = r.chance(30);
        for (int i = 0; i < n; ++i) { if (ob) { Fields f; f["a"] = v; f["b"] = mk_int(i); v = mk_obj(f); } else v = mk_arr({v, mk_int(i)}); }
        if (v->t == T::Obj) return v; Fields f; f["d"] = v; return mk_obj(f); }
      case 5: g.maxdepth = 1; g.maxwidth = 2; return gen_object(r, g, 1);
      default: {  // array heavy
        Fields f; g.maxwidth = 3; size_t n = 1 + r.below(3);
        for (size_t i = 0; i < n; ++i) { std::vector<V> a; size_t m = r.below(30); int w = (int) r.below(4); for (size_t j = 0; j < m; ++j) a.push_back(w == 0 ? gen_scalar(r, g) : w == 1 ? mk_int((i64) j) : w == 2 ? gen_object(r, g, 1) : gen_value(r, g, 2)); f[strf("a%zu", i)] = mk_arr(a); }
        return mk_obj(f); }
    }
  }
  struct SendOut { std::string bytes; V v; };
  void wire_run_shared(Plan const&);
  void wire_run_skinny(Plan const&);
}
