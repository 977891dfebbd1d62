#include <dart.h>
#include <cstdio>
#include <new>
#include <cstdlib>
static bool failing = false;
void* operator new(size_t n) { if (failing) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main() {
  auto p = dart::buffer::make_object("short", 1, "a key of considerable length", 2, "a key of considerable extent", 3);
  std::string key = "a key of considerable length", other = "a key of considerable weight";
  long a = 0, b = 0; bool c = true; bool threw = false;
  failing = true;
  try { a = p[key].integer(); b = p.at("short").integer(); c = p.has_key(other); } catch (...) { threw = true; }
  failing = false;
  return threw || a != 2 || b != 1 || c;
}
