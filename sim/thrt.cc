// The runtime behind the compiler's thread instrumentation.  See thrt.h and DESIGN.md.
#include "thrt.h"
#include <pthread.h>
#include <unistd.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unordered_map>
#include <algorithm>
#include <cerrno>

extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
  extern char __data_start, _end; }

namespace sim {
  __thread int in_lib = 0;
  Fault fault; Mem mem; ThrStats thr_stats;
  static __thread int self = 0;
  struct VC { u32 c[NT]; VC() { memset(c, 0, sizeof c); } void join(VC const& o) { for (int i = 0; i < NT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
  struct Thr { VC vc, acq, rel; bool hasrel = false, nostale = false, ended = false, used = false; sem_t sem; Fault flt; };
  static Thr thr[NT]; static int nthr = 1; static u64 sched_hash = 7;
  static bool started = false;
  static u64 atomic_pos, plain_pos, stale_pos, churn; static SchedPlan plan; static size_t next_pre[2]; static std::vector<Preempt> pre[2]; static size_t next_stale;
  static u64 next_at[2] = {~0ull, ~0ull};

  // ---- regions and shadow ---------------------------------------------------------------
  static constexpr size_t ARENA = 48u << 20; static char* arena = nullptr; static size_t arena_used = 0;
  static char *glo = nullptr, *ghi = nullptr;
  // epoch: thread in the top 3 bits, its clock below
  static u32 epoch(int t) { return ((u32) t << 29) | (thr[t].vc.c[t] & 0x1fffffffu); }
  static bool before(u32 e, VC const& v) { return (e & 0x1fffffffu) <= v.c[e >> 29]; }
  struct Cell { u32 w; u32 r[NT]; };               // last write, last reads
  static Cell* cells = nullptr; static unsigned char* life = nullptr;   // per byte of the arena: 0 never allocated, 1 live, 2 freed
  static Cell* gcells = nullptr;
  static std::vector<std::pair<size_t, size_t>>* blocks = nullptr;

  struct Store { u64 val; u32 at; unsigned char size; VC rel; };
  struct Loc { bool live = false; std::vector<Store> hist; u64 base = 0; std::vector<std::pair<u32, u64>> reads[NT]; u32 aw[NT], ar[NT]; Loc() { memset(aw, 0, sizeof aw); memset(ar, 0, sizeof ar); } };
  static std::unordered_map<u64, Loc>* locs = nullptr; static unsigned char* locflag = nullptr; // one byte per 4 bytes of the arena

  static void init() {
    if (arena) return;
    auto map = [] (size_t n, void* at) { void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (char*) p; };
    cells = (Cell*) map(ARENA * sizeof(Cell), nullptr); life = (unsigned char*) map(ARENA, nullptr); locflag = (unsigned char*) map(ARENA / 4 + 8, nullptr);
    glo = &__data_start; ghi = &_end; gcells = (Cell*) map((size_t) (ghi - glo) * sizeof(Cell), nullptr);
    locs = new std::unordered_map<u64, Loc>; blocks = new std::vector<std::pair<size_t, size_t>>;
    arena = map(ARENA, (void*) 0x300000000000ull);
    for (int i = 0; i < NT; ++i) { sem_init(&thr[i].sem, 0, 0); thr[i].vc.c[i] = 1; }
    thr[0].used = true;
  }
  static inline bool in_arena(void const* p) { return arena && (char*) p >= arena && (char*) p < arena + ARENA; }
  static inline bool in_glob(void const* p) { return (char*) p >= glo && (char*) p < ghi; }
  static inline Cell* cell(void const* p) { return in_arena(p) ? cells + ((char*) p - arena) : gcells + ((char*) p - glo); }
  static std::string where(void const* p) {
    if (!in_arena(p)) return "a global variable";
    size_t off = (size_t) ((char*) p - arena);
    for (size_t i = 0; i < blocks->size(); ++i) if (off >= (*blocks)[i].first && off < (*blocks)[i].first + (*blocks)[i].second) return strf("byte %zu of allocation #%zu (%zu bytes)", off - (*blocks)[i].first, i + 1, (*blocks)[i].second);
    return "memory outside every allocation";
  }
  [[noreturn]] static void race(char const* what, char const* other, int ot, void const* p) {
    int me = self; in_lib = 0; fail("race", "thread %d %s %s while thread %d's %s is not ordered before it", me, what, where(p).c_str(), ot, other);
  }
  static void check_life(void const* p, size_t n, char const* what) {
    size_t off = (size_t) ((char*) p - arena);
    for (size_t i = 0; i < n; ++i) if (life[off + i] != 1) { int me = self; in_lib = 0; if (life[off + i] == 2) fail("memory:use-after-free", "thread %d %s %s, which was released", me, what, where((char*) p + i).c_str()); fail("memory:out-of-bounds", "thread %d %s memory outside every allocation", me, what); }
  }
  static Loc* loc_find(void const* p) {
    if (in_arena(p)) { if (!locflag[((char*) p - arena) >> 2]) return nullptr; }
    auto it = locs->find((u64) p >> 2); return it == locs->end() || !it->second.live ? nullptr : &it->second;
  }
  static void switch_to(int t);
  static void maybe_switch(int kind) {
    u64 pos = kind == 0 ? atomic_pos++ : plain_pos++;
    if (pos < next_at[kind] || !started) return;
    auto& v = pre[kind]; size_t& i = next_pre[kind]; int to = -1;
    while (i < v.size() && v[i].at <= pos) to = v[i++].to;
    next_at[kind] = i < v.size() ? v[i].at : ~0ull;
    if (to < 0) return;
    int n = 0, cand[NT]; for (int t = 1; t <= nthr; ++t) if (!thr[t].ended && t != self) cand[n++] = t;
    if (n && self != 0) { sched_hash = mix(sched_hash, (pos << 4) + (u64) kind * 8 + (u64) cand[to % n]); switch_to(cand[to % n]); }
  }
  // the runtime's own accesses and allocations are not the library's
  struct Mine { int s; Mine() : s(in_lib) { in_lib = 0; } ~Mine() { in_lib = s; } };
  static void plain_check(void const* p, size_t n, bool w);
  static void plain(void const* p, size_t n, bool w) {
    if (!in_lib || !n) return;
    if (!in_arena(p) && !in_glob(p)) return;
    Mine mine;
    if (++steps > step_limit && step_limit) { in_lib = 0; die_kind("hang:steps", "step budget exceeded"); }
    ++thr_stats.plains; maybe_switch(1); plain_check(p, n, w);
  }
  static void plain_check(void const* p, size_t n, bool w) {
    if (in_arena(p)) check_life(p, n, w ? "writes" : "reads");
    int t = self; Thr& me = thr[t]; Cell* c = cell(p); u32 e = epoch(t);
    for (size_t i = 0; i < n; ++i, ++c) {
      if (c->w && (int) (c->w >> 29) != t && !before(c->w, me.vc)) race(w ? "writes" : "reads", "write", (int) (c->w >> 29), (char*) p + i);
      if (w) {
        for (int o = 0; o < NT; ++o) if (o != t && c->r[o] && c->r[o] > me.vc.c[o]) race("writes", "read", o, (char*) p + i);
        c->w = e;
      } else c->r[t] = me.vc.c[t];
    }
    for (u64 g = (u64) p & ~3ull; g < (u64) p + n; g += 4) if (Loc* l = loc_find((void*) g)) {
      for (int o = 0; o < NT; ++o) if (o != t) {
        if (l->aw[o] > me.vc.c[o]) race(w ? "plainly writes" : "plainly reads", "atomic write", o, (void*) g);
        if (w && l->ar[o] > me.vc.c[o]) race("plainly writes", "atomic read", o, (void*) g);
      }
      if (w) { l->hist.clear(); for (auto& v : l->reads) v.clear(); }
    }
  }
  void thr_point() { if (started && self) { int s = in_lib; in_lib = 0; maybe_switch(0); in_lib = s; } }

  // ---- atomics ------------------------------------------------------------------------------
  enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
  static bool acquires(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo >= MO_ACQ_REL; }
  static bool releases(int mo) { return mo >= MO_RELEASE; }
  static bool tracked(void const* p) { return in_lib && (in_arena(p) || in_glob(p)); }
  static u64 raw(void const* p, size_t n) { u64 v = 0; memcpy(&v, p, n); return v; }
  static void atomic_enter(void const* p, size_t n) {
    if (++steps > step_limit && step_limit) { in_lib = 0; die_kind("hang:steps", "step budget exceeded"); }
    ++thr_stats.atomics; maybe_switch(0);
    if (in_arena(p)) check_life(p, n, "atomically accesses");
  }
  static void atomic_race(void const* p, size_t n, bool w) {
    int t = self; Thr& me = thr[t]; Cell* c = cell(p);
    for (size_t i = 0; i < n; ++i, ++c) {
      if (c->w && (int) (c->w >> 29) != t && !before(c->w, me.vc)) race(w ? "atomically writes" : "atomically reads", "plain write", (int) (c->w >> 29), (char*) p + i);
      if (w) for (int o = 0; o < NT; ++o) if (o != t && c->r[o] > me.vc.c[o]) race("atomically writes", "plain read", o, (char*) p + i);
    }
  }
  static Loc& loc_get(void const* p, size_t n) {
    Loc& l = (*locs)[(u64) p >> 2];
    if (!l.live) { l.live = true; if (in_arena(p)) locflag[((char*) p - arena) >> 2] = 1; }
    if (l.hist.empty()) { Store s; s.val = raw(p, n); s.at = cell(p)->w; s.size = (unsigned char) n; l.hist.push_back(s); ++l.base; }
    return l;
  }
  static u64 top(Loc& l) { return l.base + l.hist.size() - 1; }
  static void take(Thr& me, Store const& s, int mo) { if (acquires(mo)) me.vc.join(s.rel); else me.acq.join(s.rel); }
  static u64 aload(void const* p, size_t n, int mo) {
    atomic_enter(p, n); atomic_race(p, n, false);
    int t = self; Thr& me = thr[t]; Loc& l = loc_get(p, n); u64 v;
    u64 idx = top(l); bool uniform = true; for (auto& s : l.hist) uniform &= s.size >= n;
    Loc* hi = nullptr; if (n == 8) { hi = loc_find((char*) p + 4); if (hi && !hi->hist.empty() && hi->hist.back().size != 8) uniform = false; else hi = nullptr; }
    if (uniform && mo != MO_SEQ_CST && !me.nostale) {
      u64 lo = l.base;
      for (u64 i = l.base; i <= idx; ++i) { Store& s = l.hist[i - l.base]; if (!s.at || (int) (s.at >> 29) == t || before(s.at, me.vc)) lo = i; }
      for (int o = 0; o < NT; ++o) for (auto& r : l.reads[o]) if ((o == t || r.first <= me.vc.c[o]) && r.second > lo) lo = r.second;
      if (lo < idx) {
        ++thr_stats.stale_possible; u64 pos = stale_pos++; int back = 0;
        while (next_stale < plan.stale.size() && plan.stale[next_stale].at <= pos) back = plan.stale[next_stale++].back;
        if (back) { u64 d = 1 + (u64) (back - 1) % (idx - lo); idx -= d; ++thr_stats.stale; sched_hash = mix(sched_hash, (pos << 8) + 255 + d); }
      }
    }
    Store& s = l.hist[idx - l.base]; v = uniform ? (n == 8 ? s.val : s.val & ((1ull << (8 * n)) - 1)) : raw(p, n);
    take(me, s, mo); if (hi) take(me, hi->hist.back(), mo);
    for (size_t g = 0; g < n; g += 4) { Loc* q = g ? loc_find((char*) p + g) : &l; if (q) { q->ar[t] = me.vc.c[t]; } }
    auto& rd = l.reads[t]; if (rd.empty() || rd.back().second < idx) rd.push_back({me.vc.c[t], idx});
    return v;
  }
  static void astore_sync(void const* p, size_t n, int mo, u64 v, bool rmw) {
    int t = self; Thr& me = thr[t]; Store s; s.val = v; s.at = epoch(t); s.size = (unsigned char) n;
    for (size_t g = 0; g < n; g += 4) {
      Loc& l = g ? loc_get((char*) p + g, 4) : loc_get(p, n); Store q = s; q.val = v >> (8 * g); q.size = (unsigned char) (n - g);
      if (rmw) { Store& last = l.hist.back(); take(me, last, mo); q.rel = last.rel; }
      if (releases(mo)) q.rel.join(me.vc); else if (me.hasrel) q.rel.join(me.rel);
      l.hist.push_back(q); l.aw[t] = me.vc.c[t]; if (rmw) l.ar[t] = me.vc.c[t];
      if (l.hist.size() > 8) { l.hist.erase(l.hist.begin()); ++l.base; }
      l.reads[t].push_back({me.vc.c[t], top(l)}); for (auto& rd : l.reads) while (!rd.empty() && rd.front().second < l.base) rd.erase(rd.begin());
    }
    if (releases(mo)) ++me.vc.c[t];
  }
  template <class T> static T a_load(T const volatile* p, int mo) { if (!tracked((void*) p)) return __atomic_load_n(p, __ATOMIC_SEQ_CST); Mine mine; return (T) aload((void const*) p, sizeof(T), mo); }
  template <class T> static void a_store(T volatile* p, T v, int mo) {
    if (!tracked((void*) p)) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    Mine mine; atomic_enter((void*) p, sizeof(T)); atomic_race((void*) p, sizeof(T), true); loc_get((void*) p, sizeof(T)); *p = v; astore_sync((void*) p, sizeof(T), mo, (u64) v, false);
  }
  template <class T, class F> static T a_rmw(T volatile* p, int mo, F f) {
    if (!tracked((void*) p)) { T o = *p; *p = f(o); return o; }
    Mine mine; atomic_enter((void*) p, sizeof(T)); atomic_race((void*) p, sizeof(T), true); loc_get((void*) p, sizeof(T));
    T o = *p, v = f(o); *p = v; u64 x = 0; memcpy(&x, &v, sizeof v); astore_sync((void*) p, sizeof(T), mo, x, true); return o;
  }
  template <class T> static bool a_cas(T volatile* p, T* exp, T v, int mo, int fmo) {
    if (!tracked((void*) p)) { T o = *p; if (o == *exp) { *p = v; return true; } *exp = o; return false; }
    Mine mine; atomic_enter((void*) p, sizeof(T)); atomic_race((void*) p, sizeof(T), true); Loc& l = loc_get((void*) p, sizeof(T));
    T o = *p; if (o == *exp) { *p = v; u64 x = 0; memcpy(&x, &v, sizeof v); astore_sync((void*) p, sizeof(T), mo, x, true); return true; }
    take(thr[self], l.hist.back(), fmo); l.ar[self] = thr[self].vc.c[self]; *exp = o; return false;
  }
  static void fence(int mo) {
    if (!in_lib) return; Mine mine; Thr& me = thr[self]; maybe_switch(0);
    if (acquires(mo)) me.vc.join(me.acq);
    if (mo == MO_SEQ_CST) me.nostale = true;
    if (releases(mo)) { me.rel = me.vc; me.hasrel = true; ++me.vc.c[self]; }
  }

  // ---- storage ----------------------------------------------------------------------------------
  static u64 fill_seed = 1; static int fill_mode = 1;
  void mem_reset(u64 s, int m) { init(); fill_seed = s; fill_mode = m; fault = Fault {}; }
  void mem_set_fill(u64 s, int m) { fill_seed = s; fill_mode = m; }
  bool mem_live(void const* p) { return in_arena(p) && life[(char*) p - arena] == 1; }
  void mem_block(void const* p, void const** b, size_t* n) { *b = nullptr; *n = 0; size_t off = (size_t) ((char*) p - arena); if (in_arena(p)) for (auto& k : *blocks) if (off >= k.first && off < k.first + k.second) { *b = arena + k.first; *n = k.second; } }
  std::string mem_describe_leaks(size_t max) {
    std::string o; size_t n = 0; for (size_t i = 0; i < blocks->size(); ++i) { auto& k = (*blocks)[i]; if (life[k.first] == 1 && n++ < max) o += strf("[alloc #%zu, %zu bytes] ", i + 1, k.second); }
    return strf("%zu blocks: ", n) + o;
  }
  static bool should_fail() {
    if (!in_lib || !fault.armed) return false; ++fault.count; bool f = false;
    switch (fault.kind) { case F_NTH: f = fault.count == fault.n; break; case F_FROM: f = fault.count >= fault.n; break; case F_EVERY: f = fault.count % fault.n == 0; break; }
    if (f) { ++fault.fired; probe("fault:allocation-failed"); } return f;
  }
  static void* get(size_t n, size_t al = 16) {
    if (!in_lib) return __real_malloc(n ? n : 1);
    if (should_fail()) return nullptr;
    init(); size_t want = n ? n : 1, at = (arena_used + 16 + al - 1) & ~(al - 1);
    if (at + want + 16 > ARENA) { in_lib = 0; die_kind("harness", "arena full"); }
    arena_used = at + want; arena_used = (arena_used + 15) & ~size_t(15);
    memset(life + at, 1, want); ++mem.allocs; ++mem.live_blocks; mem.live_bytes += want; { int s = in_lib; in_lib = 0; blocks->push_back({at, want}); in_lib = s; }
    if (fill_mode == 1) { Rng r(fill_seed ^ mem.allocs * 0x9e37); for (size_t i = 0; i < want; ++i) arena[at + i] = (char) r.next(); } else if (fill_mode == 2) memset(arena + at, 0xff, want);
    return arena + at;
  }
  static void put(void* p) {
    if (!p) return; if (!in_arena(p)) { __real_free(p); return; }
    int save = in_lib; in_lib = 0; size_t off = (size_t) ((char*) p - arena);
    auto it = std::lower_bound(blocks->begin(), blocks->end(), std::make_pair(off, size_t(0)));
    if (it == blocks->end() || it->first != off) fail("memory:bad-free", "thread %d releases %s, which is not the start of an allocation", self, where(p).c_str());
    size_t n = it->second; if (save && started) maybe_switch(1);
    if (life[off] == 2) fail("memory:double-free", "thread %d releases %s a second time", self, where(p).c_str());
    plain_check(p, n, true);
    memset(life + off, 2, n); --mem.live_blocks; mem.live_bytes -= n;
    for (size_t g = off & ~size_t(3); g < off + n; g += 4) if (locflag[g >> 2]) { locs->erase((u64) (arena + g) >> 2); locflag[g >> 2] = 0; }
    in_lib = save;
  }

  // ---- threads --------------------------------------------------------------------------------------
  int thr_self() { return self; }
  u64 thr_schedule_hash() { return sched_hash; }
  static std::function<void(int)>* body = nullptr;
  static void switch_to(int t) {
    int me = self; int save = in_lib; thr[me].flt = fault; ++thr_stats.switches; sim_time(1); steps += 0;
    fault = thr[t].flt; sem_post(&thr[t].sem);
    while (sem_wait(&thr[me].sem)) {} in_lib = save;
  }
  static void* thr_main(void* arg) {
    self = (int) (intptr_t) arg; in_lib = 0; while (sem_wait(&thr[self].sem)) {}
    (*body)(self); in_lib = 0;
    thr[self].ended = true; thr[0].vc.join(thr[self].vc); ++thr[self].vc.c[self];
    int n = 0, cand[NT]; for (int t = 1; t <= nthr; ++t) if (!thr[t].ended) cand[n++] = t;
    int to = n ? cand[mix(plan.order, (u64) ++churn) % (u64) n] : 0; sched_hash = mix(sched_hash, 1000 + (u64) to);
    fault = thr[to].flt; sem_post(&thr[to].sem);
    while (sem_wait(&thr[self].sem)) {}      // what the thread keeps for itself is destroyed in turn, once all have ended
    return nullptr;
  }
  void thr_start(SchedPlan const& sp, int n, std::function<void(int)> b) {
    init(); plan = sp; nthr = n; body = &b;
    for (int k = 0; k < 2; ++k) { pre[k].clear(); next_pre[k] = 0; } next_stale = 0; atomic_pos = plain_pos = stale_pos = churn = 0;
    for (int t = 1; t < NT; ++t) { thr[t].ended = false; thr[t].hasrel = thr[t].nostale = false; thr[t].acq = thr[t].rel = VC {}; thr[t].flt = Fault {}; }
    for (auto& p : plan.pre) pre[p.kind & 1].push_back(p);
    for (int k = 0; k < 2; ++k) { std::stable_sort(pre[k].begin(), pre[k].end(), [] (Preempt const& x, Preempt const& y) { return x.at < y.at; }); next_at[k] = pre[k].empty() ? ~0ull : pre[k][0].at; }
    std::stable_sort(plan.stale.begin(), plan.stale.end(), [] (Stale const& x, Stale const& y) { return x.at < y.at; });
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); std::vector<pthread_t> ids((size_t) n + 1);
    for (int t = 1; t <= n; ++t) { thr[t].used = true; thr[t].vc.join(thr[0].vc); if (pthread_create(&ids[(size_t) t], &at, thr_main, (void*) (intptr_t) t)) die_kind("harness", "pthread_create"); }
    ++thr[0].vc.c[0]; started = true; thr[0].flt = fault;
    int first = 1 + (int) (mix(plan.order, 99) % (u64) n); fault = Fault {};
    sem_post(&thr[first].sem); while (sem_wait(&thr[0].sem)) {}
    started = false;
    for (int t = 1; t <= n; ++t) { sem_post(&thr[t].sem); pthread_join(ids[(size_t) t], nullptr); thr[0].vc.join(thr[t].vc); }
  }
  struct Sync { VC vc; };
  Sync* sync_new() { return new Sync; }
  void sync_release(Sync* s) { s->vc.join(thr[self].vc); ++thr[self].vc.c[self]; }
  void sync_acquire(Sync* s) { thr[self].vc.join(s->vc); }
}

// ---- what the compiler calls ---------------------------------------------------------------------------
#define A1(n) extern "C" void __tsan_read##n(void* p) { sim::plain(p, n, false); } extern "C" void __tsan_write##n(void* p) { sim::plain(p, n, true); } \
  extern "C" void __tsan_unaligned_read##n(void* p) { sim::plain(p, n, false); } extern "C" void __tsan_unaligned_write##n(void* p) { sim::plain(p, n, true); } \
  extern "C" void __tsan_read_write##n(void* p) { sim::plain(p, n, true); } extern "C" void __tsan_unaligned_read_write##n(void* p) { sim::plain(p, n, true); } \
  extern "C" void __tsan_volatile_read##n(void* p) { sim::plain(p, n, false); } extern "C" void __tsan_volatile_write##n(void* p) { sim::plain(p, n, true); }
A1(1) A1(2) A1(4) A1(8) A1(16)
extern "C" {
  void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
  void __tsan_vptr_update(void** p, void*) { sim::plain(p, 8, true); } void __tsan_vptr_read(void** p) { sim::plain(p, 8, false); }
  void __tsan_read_range(void* p, size_t n) { sim::plain(p, n, false); } void __tsan_write_range(void* p, size_t n) { sim::plain(p, n, true); }
  void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
  void* __tsan_memcpy(void* d, void const* s, size_t n) { sim::plain(s, n, false); sim::plain(d, n, true); return memcpy(d, s, n); }
  void* __tsan_memmove(void* d, void const* s, size_t n) { sim::plain(s, n, false); sim::plain(d, n, true); return memmove(d, s, n); }
  void* __tsan_memset(void* d, int c, size_t n) { sim::plain(d, n, true); return memset(d, c, n); }
  void __tsan_atomic_thread_fence(int mo) { sim::fence(mo); } void __tsan_atomic_signal_fence(int) {}
}
#define AT(B, T) extern "C" { \
  T __tsan_atomic##B##_load(T const volatile* p, int mo) { return sim::a_load<T>(p, mo); } \
  void __tsan_atomic##B##_store(T volatile* p, T v, int mo) { sim::a_store<T>(p, v, mo); } \
  T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T) { return v; }); } \
  T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) (o + v); }); } \
  T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) (o - v); }); } \
  T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) (o & v); }); } \
  T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) (o | v); }); } \
  T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) (o ^ v); }); } \
  T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int mo) { return sim::a_rmw<T>(p, mo, [v] (T o) { return (T) ~(o & v); }); } \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int f) { return sim::a_cas<T>(p, e, v, mo, f); } \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int f) { return sim::a_cas<T>(p, e, v, mo, f); } \
  T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T e, T v, int mo, int f) { sim::a_cas<T>(p, &e, v, mo, f); return e; } }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

// ---- library functions the instrumented code calls ---------------------------------------------------------
extern "C" {
  int __real_memcmp(void const*, void const*, size_t); size_t __real_strlen(char const*); int __real_strcmp(char const*, char const*); void* __real_memchr(void const*, int, size_t);
  int __wrap_memcmp(void const* a, void const* b, size_t n) { sim::plain(a, n, false); sim::plain(b, n, false); return __real_memcmp(a, b, n); }
  size_t __wrap_strlen(char const* s) { size_t n = __real_strlen(s); sim::plain(s, n + 1, false); return n; }
  int __wrap_strcmp(char const* a, char const* b) { sim::plain(a, __real_strlen(a) + 1, false); sim::plain(b, __real_strlen(b) + 1, false); return __real_strcmp(a, b); }
  void* __wrap_memchr(void const* p, int c, size_t n) { sim::plain(p, n, false); return __real_memchr(p, c, n); }

  void* __real_calloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
  void* __wrap_malloc(size_t n) { if (!sim::in_lib) return __real_malloc(n); bool a = sim::fault.armed; if (!sim::fault.cmalloc) sim::fault.armed = false; void* p = sim::get(n); sim::fault.armed = a; return p; }
  void* __wrap_calloc(size_t a, size_t b) { if (!sim::in_lib) return __real_calloc(a, b); void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
  void __wrap_free(void* p) { sim::put(p); }
  void* __wrap_realloc(void* q, size_t n) {
    if (!sim::in_lib && !sim::in_arena(q)) return __real_realloc(q, n);
    void* p = __wrap_malloc(n); if (!p) return nullptr; if (q) { void const* b; size_t o; sim::mem_block(q, &b, &o); size_t k = o < n ? o : n; __tsan_memcpy(p, q, k); sim::put(q); } return p;
  }
  int __wrap_posix_memalign(void** out, size_t al, size_t n) { if (!sim::in_lib) return __real_posix_memalign(out, al, n); void* p = sim::get(n, al < 16 ? 16 : al); if (!p) return ENOMEM; *out = p; return 0; }
  char* __wrap_strdup(char const* s) { size_t n = __wrap_strlen(s) + 1; char* p = (char*) __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }

  // one-time initialisation of function-local statics
  int __cxa_guard_acquire(unsigned long* g) {
    unsigned char* b = (unsigned char*) g;
    for (;;) { if (__tsan_atomic8_load(b, sim::MO_ACQUIRE)) return 0; if (!b[1]) { b[1] = 1; return 1; }
      if (!sim::started) return 1; int n = 0, c[sim::NT]; for (int t = 1; t <= sim::nthr; ++t) if (!sim::thr[t].ended && t != sim::self) c[n++] = t; if (!n) sim::die_kind("hang", "a thread waits for an initialisation that never ends"); sim::switch_to(c[++sim::churn % (unsigned) n]); }
  }
  void __cxa_guard_release(unsigned long* g) { unsigned char* b = (unsigned char*) g; b[1] = 0; __tsan_atomic8_store(b, 1, sim::MO_RELEASE); }
  void __cxa_guard_abort(unsigned long* g) { ((unsigned char*) g)[1] = 0; }
}
void* operator new(size_t n) { void* p = sim::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim::get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return sim::get(n); }
void operator delete(void* p) noexcept { sim::put(p); }
void operator delete[](void* p) noexcept { sim::put(p); }
void operator delete(void* p, size_t) noexcept { sim::put(p); }
void operator delete[](void* p, size_t) noexcept { sim::put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::put(p); }
