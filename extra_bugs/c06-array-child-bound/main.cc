#include <dart.h>
#include <cstdio>
#include <cstring>
#include <vector>
#include <cstdlib>
int main() {
  // An array whose declared length ends before its last element does.
  auto p = dart::packet::make_object("arr", dart::packet::make_array("first element", "second element, rather longer than the first")).finalize();
  size_t n; auto raw = p.dup_bytes(n);
  std::vector<char> good((char const*) raw.get(), (char const*) raw.get() + n);
  auto arr = p["arr"]; uint32_t off = 0;
  for (size_t i = 8; i + 8 <= n; i += 4) { uint32_t b, c; memcpy(&b, &good[i], 4); memcpy(&c, &good[i + 4], 4); if (c == 2 && b > 60 && b <= n - i) { off = i; break; } }
  if (!off) { puts("array not found"); return 2; }
  uint32_t len; memcpy(&len, &good[off], 4);
  for (uint32_t cut = 8; cut < 40; cut += 8) {
    void* m; if (posix_memalign(&m, 8, n)) return 2; memcpy(m, good.data(), n);
    uint32_t l = len - cut; memcpy((char*) m + off, &l, 4);
    bool ok = dart::is_valid(gsl::make_span((gsl::byte const*) m, n));
    free(m);
    if (ok) { printf("accepted an array %u bytes too short\n", cut); return 1; }
  }
  return 0;
}
