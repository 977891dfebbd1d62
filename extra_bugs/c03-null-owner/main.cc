#include <dart.h>
#include <cstdio>
static int freed = 0;
int main() {
  auto src = dart::heap::make_object("arr", dart::heap::make_array(1, nullptr, 2), "s", "text").finalize();
  size_t n; auto d = src.dup_bytes(n);
  auto* p = d.release();
  std::vector<dart::buffer> kept;
  {
    dart::buffer::view v; (void) v;
    std::shared_ptr<gsl::byte const> owner((gsl::byte const*) p, [] (gsl::byte const* q) { ++freed; free((void*) q); });
    dart::buffer b {std::move(owner)};
    auto arr = b["arr"];
    kept.push_back(arr[1]);
    for (auto e : arr) if (e.is_null()) kept.push_back(e);
  }
  if (!freed) { puts("storage still held by nulls"); return 1; }
  return 0;
}
