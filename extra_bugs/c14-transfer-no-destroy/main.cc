#include <dart.h>
#include <cstdio>
// A conforming counter that keeps a control block for every instance, null or not.
static int live = 0;
template <class T> struct rc {
  std::shared_ptr<T> p; int* mine;
  using element_type = T;
  rc() : mine(new int(++live)) {}
  rc(std::nullptr_t) : rc() {}
  explicit rc(T* q) : rc() { p.reset(q); }
  template <class D> rc(T* q, D&& d) : rc() { p = std::shared_ptr<T>(q, std::forward<D>(d)); }
  rc(rc const& o) : rc() { p = o.p; }
  rc(rc&& o) : rc() { p = std::move(o.p); }
  rc& operator=(rc const& o) { p = o.p; return *this; }
  rc& operator=(rc&& o) { p = std::move(o.p); return *this; }
  ~rc() { delete mine; --live; }
  T* get() const { return p.get(); }
  T& operator*() const { return *p; }
  T* operator->() const { return p.get(); }
  explicit operator bool() const { return (bool) p; }
  void reset() { p.reset(); }
  long use_count() const { return p.use_count(); }
};
int main() {
  using packet = dart::basic_packet<rc>;
  {
    auto p = packet::make_object("a", "text").finalize();
    rc<gsl::byte const> mine;
    p.share_bytes(mine); p.share_bytes(mine);
    if (!mine.get()) return 1;
  }
  if (live) { printf("%d instances never destroyed\n", live); return 1; }
  return 0;
}
