// Wire engine: plan generation.
#include "simcore.h"
namespace sim {
  enum WireOp { W_SEND, W_RESEND, W_TICK, W_PART, W_CHECK, W_DROP, W_SCRIB, W_CONVERT, W_APPEND, W_SYNC, W_CRASH, W_CUTS, W_CORRUPT, W_DEEP, W_NOPS };
  static char const* const wire_names[] = {"SEND", "RESEND", "TICK", "PART", "CHECK", "DROP", "SCRIB", "CONVERT", "APPEND", "SYNC", "CRASH", "CUTS", "CORRUPT", "DEEP"};
  void wire_run_shared(Plan const&); void wire_run_skinny(Plan const&);
  struct Prof { char const* name; int w[W_NOPS]; int lo, hi; };
  static Prof const profs[] = {
    //      SEND RESEND TICK PART CHECK DROP SCRIB CONV APPEND SYNC CRASH CUTS CORRUPT
    {"C05", { 24,  14,   20,  4,   14,   4,    6,   20,   0,    0,    0,    0,   0}, 6, 30},
    {"C06", {  2,   1,    1,  0,    0,   0,    0,    1,   0,    0,    0,    0,  20}, 1, 5},
    {"C07", {  0,   0,    0,  0,    0,   0,    0,    0,  24,    6,   10,   12,   0}, 3, 24},
  };
  struct WireEngine : Engine {
    WireEngine() { name = "wire"; for (auto n : wire_names) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      Prof const* pr = nullptr; for (auto& p : profs) if (o.profile == p.name) pr = &p; if (!pr) { fprintf(stderr, "unknown profile\n"); exit(2); }
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      set("netseed", (i64) (r.next() >> 1)); set("fill", (i64) (r.next() >> 1)); set("fillmode", r.chance(70) ? 1 : 2); set("rc", (i64) r.below(2)); set("bigpct", r.chance(25) ? 8 : 0);
      int w[W_NOPS], tot = 0; for (int i = 0; i < W_NOPS; ++i) { w[i] = pr->w[i]; if (w[i] && i != W_SEND && i != W_APPEND && i != W_CORRUPT && r.chance(12)) w[i] = 0; tot += w[i]; }
      if (o.profile == "C06" && seed % 128 == 5) { Op op; op.code = W_DEEP; op.a[0] = seed % 256 == 5 ? 400000 : 500; p.ops.push_back(op); return p; }
      int n = (int) r.range(pr->lo, pr->hi);
      for (int i = 0; i < n; ++i) {
        Op op; u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = c;
        if (i == 0) op.code = o.profile == "C05" ? W_SEND : o.profile == "C06" ? W_CORRUPT : W_APPEND;
        for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 20); if (op.code != W_RESEND && op.code != W_CHECK && op.code != W_CONVERT && op.code != W_DROP) op.a[0] = (i64) (r.next() >> 24); if (op.code == W_CORRUPT || op.code == W_RESEND) op.a[op.code == W_CORRUPT ? 2 : 1] = (i64) (r.next() >> 24);
        p.ops.push_back(op);
      }
      return p;
    }
    void execute(Plan const& p) override {
      mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1));
      probe(p.get("rc") ? "world:skinny_ptr" : "world:shared_ptr"); if (p.get("rc")) wire_run_skinny(p); else wire_run_shared(p);
    }
  };
}
int main(int argc, char** argv) { sim::WireEngine e; return sim::sim_main(argc, argv, e); }
