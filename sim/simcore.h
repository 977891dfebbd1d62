// Deterministic simulation core: seeded choice, simulated allocator with fault
// injection, run isolation, shrinking and replay.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <utility>
#include <stdexcept>
#include <new>

namespace sim {
  using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t;

  inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  inline u64 mix(u64 a, u64 b) { return mix(mix(a) ^ (b * 0xd6e8feb86659fd93ull + 0x632be59bd9b4e019ull)); }
  inline u64 hash_str(char const* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) { h ^= (unsigned char) *s; h *= 1099511628211ull; } return mix(h); }
  inline u64 hash_bytes(void const* p, size_t n, u64 h = 1469598103934665603ull) {
    auto* s = static_cast<unsigned char const*>(p); for (size_t i = 0; i < n; ++i) { h ^= s[i]; h *= 1099511628211ull; } return h; }

  struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
      x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    bool permille(unsigned pm) { return below(1000) < pm; }
    template <class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
  };

  // ---- plan ----------------------------------------------------------------
  constexpr int NARG = 6;
  struct Op { int code = 0; i64 a[NARG] = {0, 0, 0, 0, 0, 0}; int fk = 0; i64 fn = 0; };
  struct Plan {
    u64 seed = 0;
    std::string engine, prop, profile;
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    i64 get(char const* k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  };

  // ---- violations ----------------------------------------------------------
  struct Violation { std::string kind, detail; };
  [[noreturn]] void fail(std::string kind, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

  // A finding that storage the library keeps for good (a cache, a lazily built static) would explain: the run is
  // repeated in the same process, and it counts only if it shows again at the same place.
  void suspect(char const* kind, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

  // ---- in-library flag, simulated allocator --------------------------------
  extern __thread int in_lib;
  struct Lib { Lib() { ++in_lib; } ~Lib() { --in_lib; } Lib(Lib const&) = delete; };
  struct Out { int save; Out() : save(in_lib) { in_lib = 0; } ~Out() { in_lib = save; } };

  enum FaultKind { F_NONE = 0, F_NTH = 1, F_FROM = 2, F_EVERY = 3 };
  struct Fault {
    int kind = 0; u64 n = 0; u64 count = 0; u64 fired = 0; bool armed = false; bool cmalloc = false;
    size_t csize = 0;   // when set, only C allocations of this size fail
  };
  extern Fault fault;
  struct Arm {  // arms a fault for one operation
    Arm(int kind, i64 n, bool cmalloc = false) { fault = Fault {}; fault.kind = kind; fault.n = (u64) (n < 1 ? 1 : n); fault.armed = kind != 0; fault.cmalloc = cmalloc; }
    ~Arm() { fault.armed = false; }
  };
  struct Disarm { bool save; Disarm() : save(fault.armed) { fault.armed = false; } ~Disarm() { fault.armed = save; } };

  struct Mem { u64 live_blocks = 0, live_bytes = 0, allocs = 0, base = 0; };   // base: blocks live when the run began
  extern Mem mem;
  void mem_reset(u64 fillseed, int fillmode);        // start of a run
  bool mem_live(void const* p);                      // is p inside a live library block?
  void mem_block(void const* p, void const** base, size_t* size);
  std::string mem_describe_leaks(size_t max = 5);
  void mem_set_fill(u64 seed, int mode);             // 0 = zero, 1 = seeded bytes, 2 = 0xff, 3 = leave
  void* sim_malloc_raw(size_t n);

  // ---- step budget -----------------------------------------------------------
  extern __thread u64 steps;          // edges executed inside the library
  extern __thread u64 step_limit;     // 0 = none; exceeding it is a "hang" violation
  extern __thread bool step_on;       // count even while in_lib == 0

  // ---- probes / measures -----------------------------------------------------
  void probe(char const* name, u64 n = 1);
  void note_state(u64 h);                 // distinct state measure
  void note_history(u64 h);               // distinct history measure
  void logf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));   // deterministic event log
  extern bool verbose;
  void set_op(int idx);
  void sim_time(u64 ticks);               // adds simulated time
  extern bool replaying;

  [[noreturn]] void die_kind(char const* kind, char const* detail);   // async-safe-ish violation + _exit

  // ---- engine ------------------------------------------------------------------
  int on_small_stack(std::function<int()> const& f);   // f in a forked child with an 8 MB stack; its result, or -1 if it crashed

  struct Options { std::string prop, profile; std::map<std::string, i64> cfg; };
  struct Engine {
    char const* name;
    std::vector<char const*> opnames;
    virtual Plan generate(u64 seed, Options const&) = 0;
    virtual void execute(Plan const&) = 0;
    virtual std::string describe(Plan const& p) { (void) p; return ""; }
    virtual bool shrinkable_arg(int code, int arg) { (void) code; (void) arg; return true; }
    virtual ~Engine() {}
  };
  int sim_main(int argc, char** argv, Engine& e);
  std::string hexdump(void const* p, size_t n, size_t max = 64);
  std::string strf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
}
