#include <dart.h>
#include <cstdio>
int main() {
  auto p = dart::packet::make_object("one", 1).finalize();
  int refused = 0;
  for (char const* k : {"one", "absent", ""}) try { p.erase(k); printf("erase(\"%s\") accepted\n", k); } catch (dart::state_error const&) { ++refused; }
  auto m = p; m.definalize(); m.erase("absent");
  return !(refused == 3 && m == p);
}
