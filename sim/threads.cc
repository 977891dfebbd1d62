// Threads engine: plan generation.
#include "thrt.h"
namespace sim {
  enum ThrOp { H_ROOT, H_COPY, H_MOVE, H_READ, H_MUT, H_CONV, H_FINDEF, H_BYTES, H_JSON, H_CHILD, H_NEST, H_DROP, H_EQ, H_ITER, H_VIEW, H_INJ, H_SEND, H_RECV, H_WRAP, H_XMOG, H_QUIT, H_PRE, H_STALE, H_NOPS };
  static char const* const names[] = {"ROOT", "COPY", "MOVE", "READ", "MUT", "CONV", "FINDEF", "BYTES", "JSON", "CHILD", "NEST", "DROP", "EQ", "ITER", "VIEW", "INJ", "SEND", "RECV", "WRAP", "XMOG", "QUIT", "PRE", "STALE"};
  void thr_run_shared(Plan const&); void thr_run_skinny(Plan const&);
  static int const weight_[H_PRE] = {0, 10, 5, 12, 16, 6, 5, 4, 3, 9, 5, 10, 3, 4, 5, 3, 4, 4, 4, 2, 1};
  struct ThrEngine : Engine {
    ThrEngine() { name = "threads"; for (auto n : names) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      int nt = r.chance(55) ? 2 : r.chance(70) ? 3 : 4; set("threads", nt); set("rc", (i64) r.below(2)); set("fill", (i64) (r.next() >> 1)); set("fillmode", 1); set("keyseed", (i64) (r.next() >> 1)); set("order", (i64) (r.next() >> 2)); set("enddrop", r.chance(70));
      int w[H_PRE], tot = 0; for (int i = 0; i < H_PRE; ++i) { w[i] = weight_[i]; if (w[i] && r.chance(25)) w[i] = 0; if (w[i] && r.chance(10)) w[i] *= 4; tot += w[i]; } if (!tot) { w[H_MUT] = w[H_DROP] = 1; tot = 2; }
      auto rnd = [&] (Op& op) { for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 16); op.a[4] = (i64) (r.next() >> 24); };
      int nroot = r.chance(50) ? 1 : 1 + (int) r.below(4); for (int i = 0; i < nroot; ++i) { Op op; op.code = H_ROOT; rnd(op); if (r.chance(60)) op.a[2] = 0; p.ops.push_back(op); }
      int n = r.chance(40) ? (int) r.range(2, 8) : (int) r.range(6, 36); bool hot = r.chance(40); bool flt = r.chance(20);
      for (int i = 0; i < n; ++i) { Op op; rnd(op); u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = c; op.a[0] = (i64) r.below((u64) nt); if (hot && r.chance(70)) op.a[1] = (i64) r.below((u64) nroot); if (flt && r.chance(15)) { op.fk = r.chance(80) ? F_NTH : F_FROM; op.fn = (i64) (1 + r.below(r.chance(60) ? 4 : 20)); } p.ops.push_back(op); }
      static int const ds[] = {0, 1, 1, 2, 2, 3, 4, 6, 10, 20, 60, 150}; int d = ds[r.below(12)]; u64 est = (u64) n * (r.chance(40) ? 12 : r.chance(50) ? 40 : 120) + 20;
      bool plainly = r.chance(25);
      for (int i = 0; i < d; ++i) { Op op; op.code = H_PRE; int k = plainly && r.chance(60); op.a[0] = k; op.a[1] = (i64) r.below(k ? est * 40 : est); op.a[2] = (i64) r.below(4); p.ops.push_back(op); }
      int st = r.chance(50) ? 0 : (int) r.below(30); for (int i = 0; i < st; ++i) { Op op; op.code = H_STALE; op.a[0] = (i64) r.below(60); op.a[1] = (i64) r.below(8); p.ops.push_back(op); }
      return p;
    }
    void execute(Plan const& p) override {
      mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1)); probe(p.get("rc") ? "world:skinny_ptr" : "world:shared_ptr");
      if (p.get("rc")) thr_run_skinny(p); else thr_run_shared(p);
    }
  };
}
int main(int argc, char** argv) { sim::ThrEngine e; return sim::sim_main(argc, argv, e); }
