#include <dart.h>
#include <cstdio>
#include <malloc.h>
// Refusing YAML text whose key is longer than a packet can hold must release everything the parser held.
int main() {
  std::string text = "k: [1, 2, text]\n? \"" + std::string(70000, 'x') + "\"\n: 1\n";
  size_t before = 0;
  for (int i = 0; i < 20; ++i) {
    try { auto p = dart::heap::from_yaml(text); puts("accepted"); return 2; } catch (std::exception const& e) { if (!i) puts(e.what()); }
    if (i == 2) before = mallinfo2().uordblks;
  }
  size_t after = mallinfo2().uordblks;
  printf("%zu -> %zu\n", before, after);
  return after > before + 4096;
}
