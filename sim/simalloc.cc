// Simulated allocator: every allocation of the library goes through here.
// Blocks come from the sanitizer's malloc (so red zones and quarantine stay),
// are filled with seeded garbage, tracked until freed, and fail on command.
#include "simcore.h"
#include <cerrno>

extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); }
namespace sim {
  __thread int in_lib = 0;
  Fault fault;
  Mem mem;
  static u64 fill_seed = 1; static int fill_mode = 1;

  struct Ent { void* p; size_t n; u64 seq; };
  static constexpr size_t CAP = 1u << 18;
  static Ent* tab = nullptr; static size_t tab_used = 0;
  static size_t slot_of(void const* p) { return (size_t) (mix((u64) p) & (CAP - 1)); }
  static void tab_put(void* p, size_t n) {
    if (!tab) { tab = (Ent*) __real_calloc(CAP, sizeof(Ent)); }
    if (tab_used > CAP / 2) die_kind("harness", "allocation table full");
    size_t i = slot_of(p);
    while (tab[i].p) i = (i + 1) & (CAP - 1);
    tab[i] = {p, n, mem.allocs}; ++tab_used; ++mem.live_blocks; mem.live_bytes += n;
  }
  static bool tab_del(void* p) {
    if (!tab || !p) return false;
    size_t i = slot_of(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
    if (!tab[i].p) return false;
    --tab_used; --mem.live_blocks; mem.live_bytes -= tab[i].n;
    size_t j = i;                                  // backward-shift deletion
    for (;;) {
      j = (j + 1) & (CAP - 1);
      if (!tab[j].p) break;
      size_t k = slot_of(tab[j].p);
      if ((i <= j) ? (k <= i || k > j) : (k <= i && k > j)) { tab[i] = tab[j]; i = j; }
    }
    tab[i].p = nullptr;
    return true;
  }
  static void dirty(void* p, size_t n, u64 seq) {
    switch (fill_mode) {
      case 0: memset(p, 0, n); break;
      case 2: memset(p, 0xff, n); break;
      case 3: break;
      default: { Rng r(fill_seed ^ (seq * 0x9e37)); auto* b = (unsigned char*) p; size_t i = 0;
        for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(b + i, &v, 8); }
        u64 v = r.next(); for (; i < n; ++i, v >>= 8) b[i] = (unsigned char) v; }
    }
  }
  static bool should_fail(bool c, size_t n = 0) {
    if (!in_lib || !fault.armed || (c && !fault.cmalloc) || (fault.csize && (!c || n != fault.csize))) return false;
    ++fault.count; bool f = false;
    switch (fault.kind) { case F_NTH: f = fault.count == fault.n; break; case F_FROM: f = fault.count >= fault.n; break;
      case F_EVERY: f = fault.count % fault.n == 0; break; }
    if (f) { ++fault.fired; probe(c ? "fault:c-allocation-failed" : "fault:allocation-failed"); }
    return f;
  }
  void mem_reset(u64 seed, int mode) { fill_seed = seed; fill_mode = mode; fault = Fault {}; }
  void mem_set_fill(u64 seed, int mode) { fill_seed = seed; fill_mode = mode; }
  bool mem_live(void const* p) { void const* b; size_t n; mem_block(p, &b, &n); return b != nullptr; }
  void mem_block(void const* p, void const** base, size_t* size) {
    *base = nullptr; *size = 0;
    if (tab) for (size_t i = 0; i < CAP; ++i) if (tab[i].p && (char const*) p >= (char*) tab[i].p && (char const*) p < (char*) tab[i].p + tab[i].n) {
      *base = tab[i].p; *size = tab[i].n; return; }
  }
  std::string mem_describe_leaks(size_t max) {
    std::string out; size_t shown = 0; std::vector<std::pair<u64, size_t>> v;
    if (tab) for (size_t i = 0; i < CAP; ++i) if (tab[i].p) v.push_back({tab[i].seq, tab[i].n});
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (v[j] < v[i]) std::swap(v[i], v[j]);
    for (auto& e : v) if (shown++ < max) out += strf("[alloc #%llu, %zu bytes] ", (unsigned long long) e.first, e.second);
    return strf("%zu blocks: ", v.size()) + out;
  }
  // the simulated machine has 4 GB: larger requests fail, injected or not
  static bool too_big(size_t n) { return in_lib && n > ((size_t) 1 << 32); }
  static void* get(size_t n) {
    if (too_big(n) || should_fail(false)) return nullptr;
    void* p = __real_malloc(n ? n : 1);
    if (p && in_lib) { ++mem.allocs; dirty(p, n, mem.allocs); tab_put(p, n); }
    return p;
  }
  static void put(void* p) { if (p) { tab_del(p); __real_free(p); } }
}

void* operator new(size_t n) { void* p = sim::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim::get(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return sim::get(n); }
void operator delete(void* p) noexcept { sim::put(p); }
void operator delete[](void* p) noexcept { sim::put(p); }
void operator delete(void* p, size_t) noexcept { sim::put(p); }
void operator delete[](void* p, size_t) noexcept { sim::put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::put(p); }

// C allocation entry points, redirected with -Wl,--wrap in harness and libyaml objects.
extern "C" {
  void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
  void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t);
  void* __wrap_malloc(size_t n) {
    if (!sim::in_lib) return __real_malloc(n);
    if (sim::too_big(n) || sim::should_fail(true, n)) return nullptr;
    void* p = __real_malloc(n);
    if (p) { ++sim::mem.allocs; sim::dirty(p, n, sim::mem.allocs); sim::tab_put(p, n); }
    return p;
  }
  void* __wrap_calloc(size_t a, size_t b) {
    if (!sim::in_lib) return __real_calloc(a, b);
    if (sim::should_fail(true)) return nullptr;
    void* p = __real_calloc(a, b);
    if (p) { ++sim::mem.allocs; sim::tab_put(p, a * b); }
    return p;
  }
  void* __wrap_realloc(void* q, size_t n) {
    if (!sim::in_lib) return __real_realloc(q, n);
    if (sim::should_fail(true)) return nullptr;
    bool had = sim::tab_del(q);
    void* p = __real_realloc(q, n);
    (void) had;
    if (p) { ++sim::mem.allocs; sim::tab_put(p, n); }
    return p;
  }
  void __wrap_free(void* p) { if (p) { sim::tab_del(p); __real_free(p); } }
  int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (!sim::in_lib) return __real_posix_memalign(out, al, n);
    if (sim::too_big(n) || sim::should_fail(false)) return ENOMEM;
    int r = __real_posix_memalign(out, al, n);
    if (!r) { ++sim::mem.allocs; sim::dirty(*out, n, sim::mem.allocs); sim::tab_put(*out, n); }
    return r;
  }
  char* __wrap_strdup(char const* s) {
    size_t n = strlen(s) + 1; char* p = (char*) __wrap_malloc(n); if (p) memcpy(p, s, n); return p;
  }
}
