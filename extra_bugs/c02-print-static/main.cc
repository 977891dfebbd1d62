// Threads print different finalized documents at the same time: each gets its own document's text.
#include <dart.h>
#include <atomic>
#include <thread>
#include <vector>
#include <string>
#include <cstdio>
int main() {
  int const n = 6; std::atomic<int> ready {0}; std::atomic<int> bad {0};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
    auto obj = dart::heap::make_object();
    for (int k = 0; k < 60; ++k) obj.add_field("key" + std::to_string(k), std::string(40 + i, (char) ('a' + i)));
    auto buf = obj.finalize();
    ++ready; while (ready.load() < n) std::this_thread::yield();
    std::string first = buf.to_json();
    if (first.find((char) ('a' + i)) == std::string::npos || dart::heap::from_json(first) != obj) ++bad;
    for (int r = 0; r < 1500 && !bad; ++r) if (buf.to_json() != first) ++bad;
  });
  for (auto& t : ts) t.join();
  if (bad) { puts("a thread got another document's text"); return 1; }
  return 0;
}
