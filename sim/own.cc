// Own engine: histories over the library's owning building blocks (optional, variant, counted, shareable and view pointers),
// with constructors, assignments and allocations failing, against a model of what each of them holds.
#include "own.h"

namespace sim {
  Things things;
  static char const* const own_names[] = {"OMAKE", "OSET", "OCHANGE", "OREAD", "OCMP", "PMAKE", "PSET", "PNEXT", "PRESET", "PREAD", "PARR", "VMAKE", "VSET", "VCHANGE", "VREAD", "PVIEW"};
  struct OwnEngine : Engine {
    OwnEngine() { name = "own"; for (auto n : own_names) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      static int const base[W_NOPS] = {12, 18, 10, 10, 8, 16, 18, 12, 10, 6, 5, 8, 16, 8, 8, 4};
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      set("fill", (i64) (r.next() >> 1)); set("fillmode", r.chance(70) ? 1 : 2); set("ptr", (i64) r.below(PTR_KINDS)); int part = (int) r.below(4);   // all of them, or one kind only
      int w[W_NOPS], tot = 0; for (int i = 0; i < W_NOPS; ++i) { w[i] = base[i]; int k = i <= W_OCMP ? 1 : (i <= W_PARR || i == W_PVIEW) ? 2 : 3; if (part && part != k) w[i] = 0; if (r.chance(10) && i != W_OSET && i != W_PMAKE && i != W_VSET) w[i] = 0; tot += w[i]; }
      int fp = r.chance(25) ? 0 : (int) r.below(70), n = (int) r.range(5, 40);
      for (int i = 0; i < n; ++i) {
        Op op; u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = c;
        for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 20);
        if ((int) r.below(100) < fp) { op.fk = F_NTH; op.fn = r.chance(70) ? r.range(1, 2) : r.range(1, 5); }
        p.ops.push_back(op);
      }
      return p;
    }
    void execute(Plan const& p) override { mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1)); things = Things {}; own_run(p); }
  };
}
int main(int argc, char** argv) { sim::OwnEngine e; return sim::sim_main(argc, argv, e); }
