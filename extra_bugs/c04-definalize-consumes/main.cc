#include <dart.h>
#include <cstdio>
#include <new>
#include <cstdlib>
static long countdown = -1;
void* operator new(size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  for (long k = 0; k < 12; ++k) {
    auto p = dart::packet::make_object("name", "a somewhat longer string to be allocated", "arr", dart::packet::make_array(1, 2, 3)).finalize();
    auto copy = p; bool threw = false;
    countdown = k;
    try { p.definalize(); } catch (std::bad_alloc const&) { threw = true; }
    countdown = -1;
    if (!p.is_object() || p.size() != 2 || p["arr"].size() != 3 || p != copy) { printf("value lost at allocation %ld\n", k); return 1; }
    if (threw) { p.definalize(); p.add_field("x", 1); if (p.size() != 3) return 1; }
  }
  return 0;
}
