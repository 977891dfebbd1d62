#include <dart.h>
#include <cstdio>
int main() {
  auto obj = dart::buffer(dart::heap::make_object("a", dart::heap::make_array(1, 70000, 2.5, true)));
  auto arr = obj["a"]; obj = dart::buffer::make_null();
  auto elem = std::move(arr).get(1);
  long v = elem.integer();
  printf("%ld\n", v);
  return v != 70000;
}
