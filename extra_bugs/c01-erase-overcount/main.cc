#include <dart.h>
#include <cstdio>
int main() {
  auto a = dart::heap::make_object("one", 1, "two", 2, "three", 3);
  auto b = a;
  auto it = b.begin(); ++it;
  b.erase(it);
  printf("%zu %zu\n", a.size(), b.size());
  return !(a.size() == 3 && b.size() == 2);
}
