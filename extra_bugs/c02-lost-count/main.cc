// Threads copy and drop handles to one shared value: its count ends where it began.
#include <dart.h>
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
using ptr = dart::skinny_ptr<int>;
int main() {
  ptr root(new int(7)); int const n = 4; std::atomic<int> ready {0}; std::vector<ptr> keep(64, root);   // spare owners: a lost count does not destroy the value
  std::vector<std::thread> ts;
  long before = root.use_count();
  for (int i = 0; i < n; ++i) ts.emplace_back([&] {
    ++ready; while (ready.load() < n) std::this_thread::yield();
    for (int r = 0; r < 200000; ++r) { if (root.use_count() < 20) return; ptr p(root); if (*p != 7) return; }
  });
  for (auto& t : ts) t.join();
  long after = root.use_count();
  if (after != before) { printf("count is %ld, was %ld\n", after, before); fflush(stdout); _Exit(1); }
  return 0;
}
