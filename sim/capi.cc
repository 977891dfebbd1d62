#include "capi_ops.h"
#include "model.h"
namespace sim {
  static char const* const opn[] = {"INIT", "LIT", "VA", "COPY", "MOVE", "DROP", "MUT", "GET", "CONV", "PARSE", "JSON", "BYTES", "ITER", "EQUAL", "MISUSE", "SWAP", "CPP"};
  struct Profile { char const* name; int w[CO_N]; int faults, minops, maxops; };
  //                      INIT LIT VA COPY MOVE DROP MUT GET CONV PARSE JSON BYTES ITER EQUAL MISUSE SWAP CPP
  static Profile const profiles[] = {
    {"C12", {  8,   8, 8,   4,   3,   3, 34, 12,  10,    8,   4,    9,   8,    3,     5,   0,  0},  45, 6, 34},
    {"C15", {  3,  12, 1,   5,   4,   8, 22,  6,   6,    1,   1,    3,   3,    2,     0,  22, 26},   8, 8, 44},
  };
  struct CapiEngine : Engine {
    CapiEngine() { name = "capi"; for (auto n : opn) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      Profile const* pr = nullptr; for (auto& p : profiles) if (o.profile == p.name) pr = &p; if (!pr) { fprintf(stderr, "unknown profile\n"); exit(2); }
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      set("keyseed", (i64) (r.next() >> 1)); set("depth", r.chance(15) ? 3 : r.range(1, 2)); set("width", r.range(1, 5)); set("nonfinite", r.chance(20)); set("json", r.chance(40)); set("big", r.chance(10)); set("warm", r.chance(80));
      set("fill", (i64) (r.next() >> 1)); set("fillmode", r.chance(70) ? 1 : 2);
      int w[CO_N], tot = 0; for (int i = 0; i < CO_N; ++i) { w[i] = pr->w[i]; if (w[i] && r.chance(15) && i != CO_LIT) w[i] = 0; else if (r.chance(15)) w[i] *= 3; if (i == CO_PARSE && !p.cfg["json"]) w[i] = w[i] / 3; tot += w[i]; }
      int fp = r.chance(35) ? 0 : (int) r.below((u64) pr->faults * 2); if (fp > 90) fp = 90; int fkind = (int) r.below(4), n = (int) r.range(pr->minops, pr->maxops);
      for (int i = 0; i < n; ++i) {
        Op op; u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = i < 2 ? CO_LIT : c; for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 20); op.a[1] = (i64) (r.next() >> 20);
        if ((int) r.below(100) < fp && op.code != CO_LIT && op.code != CO_MISUSE && op.code != CO_SWAP && op.code != CO_CPP) { op.fk = fkind == 3 ? 1 + (int) r.below(3) : F_NTH; op.fn = op.fk == F_EVERY ? r.range(2, 6) : r.chance(60) ? r.range(1, 4) : r.range(1, 40); }
        p.ops.push_back(op);
      }
      return p;
    }
    void execute(Plan const& p) override { mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1)); capi_run(p); }
  };
}
int main(int argc, char** argv) { sim::CapiEngine e; return sim::sim_main(argc, argv, e); }
