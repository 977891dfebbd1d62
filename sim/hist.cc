// History engine: plan generation, profiles, and the reference encoder.
#include "hist_world.h"

namespace sim {
  bool starve_compare = false;
  std::string hist_reference_bytes(V const& v) {
    Disarm da; mem_set_fill(1, 0);
    std::string out;
    { Lib l; Rng r(99); using H = dart::basic_heap<std::shared_ptr>;
      struct B { static H of(V const& v) {
        if (v->t == T::Obj) { H h = H::make_object(); for (auto& f : v->o) h.add_field(sv(f.first), of(f.second)); return h; }
        if (v->t == T::Arr) { H h = H::make_array(); for (auto& e : v->a) h.push_back(of(e)); return h; }
        switch (v->t) { case T::Null: return H::make_null(); case T::Bool: return H::make_boolean(v->b); case T::Int: return H::make_integer(v->i); case T::Dec: return H::make_decimal(v->d); default: return H::make_string(sv(v->s)); }
      } };
      auto b = B::of(v).finalize(); auto sp = b.get_bytes(); Out o; out.assign((char const*) sp.data(), (size_t) sp.size()); }
    return out;
  }

  // YAML: block and flow styles of the JSON-like subset
  static void yq(std::string const& s, std::string& o) {
    o += '"';
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char) s[i]; if (c == 0xc2 && i + 1 < s.size() && (unsigned char) s[i + 1] < 0xa0) { c = (unsigned char) s[++i]; o += strf("\\x%02x", c); continue; }
      if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c == 127) o += strf("\\x%02x", c); else o += (char) c; }
    o += '"';
  }
  static void yflow(V const& v, std::string& o) {
    switch (v->t) {
      case T::Arr: { o += "["; bool f = true; for (auto& e : v->a) { if (!f) o += ", "; f = false; yflow(e, o); } o += "]"; break; }
      case T::Obj: { o += "{"; bool f = true; for (auto& e : v->o) { if (!f) o += ", "; f = false; yq(e.first, o); o += ": "; yflow(e.second, o); } o += "}"; break; }
      case T::Str: yq(v->s, o); break;
      default: to_json(v, o, nullptr);
    }
  }
  static void yblock(V const& v, std::string& o, int ind, Rng& r) {
    if (v->t == T::Obj && !v->o.empty() && !r.chance(25)) {
      for (auto& e : v->o) { o += std::string((size_t) ind, ' '); yq(e.first, o); o += ":";
        bool nest = (e.second->t == T::Obj && !e.second->o.empty()) || (e.second->t == T::Arr && !e.second->a.empty());
        if (nest && e.first.size() < 100) { o += "\n"; yblock(e.second, o, ind + 2, r); } else { o += " "; yflow(e.second, o); o += "\n"; } }
    } else if (v->t == T::Arr && !v->a.empty() && !r.chance(25)) {
      for (auto& e : v->a) { o += std::string((size_t) ind, ' ') + "- "; yflow(e, o); o += "\n"; }
    } else { o += std::string((size_t) ind, ' '); yflow(v, o); o += "\n"; }
  }
  std::string yaml_lines(V const& v) { std::string o; for (auto& e : v->o) { if (e.first.size() > 100) { o += "? "; yq(e.first, o); o += "\n: "; } else { yq(e.first, o); o += ": "; } yflow(e.second, o); o += "\n"; } return o; }
  std::string yaml_text(V const& v, Rng& r) { std::string o; if (r.chance(40)) yflow(v, o); else yblock(v, o, 0, r); return o; }
  // the reader types every scalar by its spelling, quoted or not, and limits one-line keys to 1024 bytes
  V yaml_value(V const& v) {
    switch (v->t) {
      case T::Str: return v->s.empty() || !strchr("ntf0123456789+-", v->s[0]) ? v : mk_str("s" + v->s);
      case T::Arr: { std::vector<V> a; for (auto& e : v->a) a.push_back(yaml_value(e)); return mk_arr(std::move(a)); }
      case T::Obj: { Fields f; for (auto& e : v->o) f[e.first.substr(0, 120)] = yaml_value(e.second); return mk_obj(std::move(f)); }
      default: return v;
    }
  }

  struct Profile { char const* name; int w[NOPS]; int faults; int minops, maxops; };
  //                       LIT COPY MOVE ASGN DROP CONV GET MUT VIEW OWN WRAP ITER ITMV FIN XMOG PARSE TOJSON BYTES REFUSE DRAIN CANON STARVE EQUAL SCRIB EPHEM ROUTE MATCH
  static Profile const profiles[] = {
    {"C01",               {  8,  12,   5,   6,   4,   6, 14,  44,   3,  2,   4,   6,   4,  4,   0,    0,     0,    1,     3,    0,    0,     0,    2,    0,    0,    8,    2},  12, 8, 40},
    {"C03",               {  8,  12,   6,   7,  10,   7, 12,  24,   6,  5,   4,   4,   2,  4,   1,    0,     0,    4,     0,    3,    0,     0,    0,    0,    8,    8,    2},  10, 8, 40},
    {"C04",               { 10,   6,   3,   4,   3,  10,  8,  36,   2,  1,   4,   3,   1,  8,   2,    0,     2,    5,     2,    1,    0,     0,    2,    0,    3,    8,    4},  75, 4, 24},
    {"C08",               { 10,   8,   3,   4,   4,   8,  6,  30,   0,  0,   2,   0,   0,  8,   1,    9,     0,    4,     0,    0,   20,     0,    0,    0,    0,    0,    0},   8, 4, 26},
    {"C09",               { 10,   8,   3,   4,   3,  12,  6,  20,   2,  1,   2,   0,   0, 22,   1,    0,     1,    1,    24,    0,    0,     0,   10,    0,    0,    8,    3},  12, 4, 28},
    {"C10",               { 10,   6,   4,   4,  12,   6, 20,  16,  10,  9,   6,  12,   8,  6,   0,    0,     0,   10,     0,    0,    0,     0,    0,    0,    0,   12,    0},  10, 8, 40},
    {"C11",               { 14,   6,   3,   3,   4,   6, 12,  10,   6,  2,   0,   0,   0,  8,   0,    0,     0,   10,     0,    0,    0,    30,    0,    0,    0,    0,    0},   0, 3, 22},
    {"C14",               {  8,  12,   6,   7,   7,   8, 12,  30,   4,  3,   5,   4,   2,  6,   6,    0,     4,    3,     8,    2,    0,     0,    3,    0,    4,    8,    4},   0, 6, 32},
    {"C16",               {  4,   6,   2,   3,   3,   3,  4,  10,   0,  0,   0,   0,   0,  4,   0,   40,     4,    0,     0,    1,    0,     0,    2,    0,    0,    0,    0},  30, 3, 20},
    {"C19",               { 12,   6,   4,   4,   4,   8,  6,  30,   3,  2,   4,   0,   0,  9,   2,    6,    55,    3,     0,    0,    0,     0,    0,    0,    0,    4,    0},  25, 5, 30},
    {"C18",               { 10,  10,   4,   6,   4,   8,  6,  30,   4,  2,   3,   0,   0,  6,   1,    0,     0,    2,     0,    0,    0,     0,   30,    0,    0,    0,   50},  25, 6, 34},
  };

  struct HistEngine : Engine {
    HistEngine() { name = "hist"; for (auto n : hist_opnames) opnames.push_back(n); }
    Plan generate(u64 seed, Options const& o) override {
      Profile const* pr = nullptr; for (auto& p : profiles) if (o.profile == p.name) pr = &p; if (!pr) { fprintf(stderr, "unknown profile\n"); exit(2); }
      Rng r(seed); Plan p; p.cfg = o.cfg; auto set = [&] (char const* k, i64 v) { if (!p.cfg.count(k)) p.cfg[k] = v; };
      set("keyseed", (i64) (r.next() >> 1)); set("depth", r.chance(15) ? 3 : r.range(1, 2)); set("width", r.range(1, 5)); set("nonfinite", r.chance(20)); set("big", r.chance(3));
      bool text = o.profile == "C16" || ((o.profile == "C14" || o.profile == "C04" || o.profile == "C08") && r.chance(45)); set("json", text);
      set("fill", (i64) (r.next() >> 1)); set("fillmode", r.chance(70) ? 1 : 2); set("rc", (i64) r.below(4)); set("all", o.profile == "C14");
      // swarm: a random subset of operation kinds is switched off or boosted in each run
      int w[NOPS]; int tot = 0; for (int i = 0; i < NOPS; ++i) { w[i] = pr->w[i]; if (w[i] && r.chance(15) && i != LIT) w[i] = 0; else if (r.chance(15)) w[i] *= 3; tot += w[i]; }
      if (!w[PARSE] && o.profile == "C16") { w[PARSE] = 40; tot += 40; } if (!w[CANON] && o.profile == "C08") { w[CANON] = 20; tot += 20; } if (!w[STARVE] && o.profile == "C11") { w[STARVE] = 20; tot += 20; } if (!w[MUT]) { w[MUT] = 5; tot += 5; }
      int fp = pr->faults ? (r.chance(35) && o.profile != "C04" ? 0 : (int) r.below((u64) pr->faults * 2)) : 0; if (fp > 90) fp = 90;
      int fkind = (int) r.below(4); int n = (int) r.range(pr->minops, pr->maxops);
      if (o.profile == "C16" && seed % 256 == 5) { Op op; op.code = DEEPTEXT; op.a[0] = seed % 512 == 5 ? 400000 : 300; op.a[1] = (i64) (seed >> 20) % 4; p.ops.push_back(op); return p; }
      for (int i = 0; i < n; ++i) {
        Op op; u64 x = r.below((u64) tot); int c = 0; while (x >= (u64) w[c]) x -= (u64) w[c++]; op.code = i < 2 ? (o.profile == "C16" ? PARSE : LIT) : c;
        for (int a = 0; a < NARG; ++a) op.a[a] = (i64) r.below(1u << 20);
        if (op.code == LIT || op.code == PARSE || op.code == MUT) op.a[op.code == MUT ? 3 : 1] = (i64) (r.next() >> 20);
        if ((int) r.below(100) < fp && op.code != DRAIN && op.code != STARVE && op.code != SCRIBBLE) {
          op.fk = fkind == 3 ? 1 + (int) r.below(3) : F_NTH; op.fn = op.fk == F_EVERY ? r.range(2, 6) : r.chance(60) ? r.range(1, 4) : r.range(1, 40);
        }
        p.ops.push_back(op);
      }
      return p;
    }
    void one(int rc, Plan const& p, Obs& o) { switch (rc) { case 0: hist_run_shared(p, o); break; case 1: hist_run_unsafe(p, o); break; case 2: hist_run_skinny(p, o); break; default: hist_run_sim(p, o); } }
    void execute(Plan const& p) override {
      static char const* const nm[] = {"shared_ptr", "unsafe_ptr", "skinny_ptr", "user-supplied counter"};
      mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1));
      if (!p.get("all")) { Obs o; probe(strf("world:%s", nm[p.get("rc") & 3]).c_str()); one((int) (p.get("rc") & 3), p, o); return; }
      Obs first; first.on = true;
      for (int rc = 0; rc < 4; ++rc) {
        probe(strf("world:%s", nm[rc]).c_str());
        Obs o; o.on = true; mem_reset((u64) p.get("fill", 1), (int) p.get("fillmode", 1)); one(rc, p, o);
        if (rc == 0) { first.lines = o.lines; continue; }
        for (size_t i = 0; i < std::max(first.lines.size(), o.lines.size()); ++i) {
          std::string a = i < first.lines.size() ? first.lines[i] : "(nothing)", b = i < o.lines.size() ? o.lines[i] : "(nothing)";
          if (a != b) fail("value", "the same history behaves differently: with shared_ptr '%s', with %s '%s'", a.substr(0, 600).c_str(), nm[rc], b.substr(0, 600).c_str());
        }
      }
    }
  };
}
int main(int argc, char** argv) { sim::HistEngine e; return sim::sim_main(argc, argv, e); }
