// Casts engine: plan generation.
#include "simcore.h"
namespace sim {
  enum CastOp { X_TO, X_INTO, X_FROM, X_CMP, X_LITM, X_FIN, X_COPY, X_DROP, X_NOPS };
  static char const* const cast_names[] = {"TO", "INTO", "FROM", "CMP", "LITM", "FIN", "COPY", "DROP"};
  void casts_run_shared(Plan const&); void casts_run_skinny(Plan const&);
  struct CastEngine : Engine {
    CastEngine() { name = "casts"; for (auto n : cast_names) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      static int const base[X_NOPS] = {20, 12, 26, 26, 14, 12, 6, 4};
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      set("fill", (i64) (r.next() >> 1)); set("fillmode", r.chance(70) ? 1 : 2); set("rc", (i64) r.below(2));
      int w[X_NOPS], tot = 0; for (int i = 0; i < X_NOPS; ++i) { w[i] = base[i]; if (i > 1 && r.chance(12)) w[i] = 0; tot += w[i]; }
      int fp = r.chance(35) ? 0 : (int) r.below(90), fkind = (int) r.below(4), n = (int) r.range(5, 30);
      for (int i = 0; i < n; ++i) {
        Op op; u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = i < 2 ? (r.chance(50) ? X_TO : X_LITM) : c;
        for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 20); op.a[1] = (i64) (r.next() >> 20);
        if (op.code < X_LITM && (int) r.below(100) < fp) { op.fk = fkind == 3 ? 1 + (int) r.below(3) : F_NTH; op.fn = op.fk == F_EVERY ? r.range(2, 6) : r.chance(60) ? r.range(1, 4) : r.range(1, 24); }
        p.ops.push_back(op);
      }
      return p;
    }
    void execute(Plan const& p) override {
      mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1));
      probe(p.get("rc") ? "world:skinny_ptr" : "world:shared_ptr"); if (p.get("rc")) casts_run_skinny(p); else casts_run_shared(p);
    }
  };
}
int main(int argc, char** argv) { sim::CastEngine e; return sim::sim_main(argc, argv, e); }
