// C interface threads engine: plan generation.
#include "cthr.h"
namespace sim {
  //                                   ROOT COPY MOVE DROP READ MUT CONV CHILD JSON PARSE BYTES ITER EQ FAIL NEST SEND RECV QUIT
  static int const weight_[Q_PRE] = {  0,   9,   4,   9,   10,  16, 8,   9,    3,   4,    4,    4,   3, 20,  6,   4,   4,   1};
  struct CthrEngine : Engine {
    CthrEngine() { name = "cthreads"; for (auto n : cthr_opnames) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      int nt = r.chance(55) ? 2 : r.chance(70) ? 3 : 4; set("threads", nt); set("fill", (i64) (r.next() >> 1)); set("fillmode", 1); set("keyseed", (i64) (r.next() >> 1)); set("order", (i64) (r.next() >> 2)); set("enddrop", r.chance(70)); set("warm", r.chance(50));
      int w[Q_PRE], tot = 0; for (int i = 0; i < Q_PRE; ++i) { w[i] = weight_[i]; if (w[i] && r.chance(25)) w[i] = 0; if (w[i] && r.chance(10)) w[i] *= 4; tot += w[i]; } if (!tot) { w[Q_MUT] = w[Q_FAIL] = 1; tot = 2; }
      auto rnd = [&] (Op& op) { for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 16); op.a[4] = (i64) (r.next() >> 24); };
      int nroot = r.chance(50) ? 1 : 1 + (int) r.below(4); for (int i = 0; i < nroot; ++i) { Op op; op.code = Q_ROOT; rnd(op); if (r.chance(60)) op.a[2] = 0; p.ops.push_back(op); }
      int n = r.chance(40) ? (int) r.range(2, 8) : (int) r.range(6, 32); bool hot = r.chance(40), flt = r.chance(25);
      for (int i = 0; i < n; ++i) { Op op; rnd(op); u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = c; op.a[0] = (i64) r.below((u64) nt); if (hot && r.chance(70)) op.a[1] = (i64) r.below((u64) nroot); if (flt && r.chance(20)) { op.fk = r.chance(80) ? F_NTH : F_FROM; op.fn = (i64) (1 + r.below(r.chance(60) ? 4 : 20)); } p.ops.push_back(op); }
      static int const ds[] = {0, 1, 1, 2, 2, 3, 4, 6, 10, 20, 60, 150}; int d = ds[r.below(12)]; u64 est = (u64) n * (r.chance(40) ? 12 : r.chance(50) ? 40 : 120) + 20; bool plainly = r.chance(25);
      for (int i = 0; i < d; ++i) { Op op; op.code = Q_PRE; int k = plainly && r.chance(60); op.a[0] = k; op.a[1] = (i64) r.below(k ? est * 40 : est); op.a[2] = (i64) r.below(4); p.ops.push_back(op); }
      int st = r.chance(50) ? 0 : (int) r.below(30); for (int i = 0; i < st; ++i) { Op op; op.code = Q_STALE; op.a[0] = (i64) r.below(60); op.a[1] = (i64) r.below(8); p.ops.push_back(op); }
      return p;
    }
    void execute(Plan const& p) override { mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1)); cthr_run(p); }
  };
}
int main(int argc, char** argv) { sim::CthrEngine e; return sim::sim_main(argc, argv, e); }
