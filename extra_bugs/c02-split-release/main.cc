// Threads that each own a handle to one shared value drop them at the same time: the value is released exactly once.
#include <dart.h>
#include <atomic>
#include <thread>
#include <vector>
#include <cstdio>
static std::atomic<int> destroyed {0};
struct Payload { char pad[64]; ~Payload() { destroyed.fetch_add(1); } };
using ptr = dart::skinny_ptr<Payload>;
int main() {
  int const rounds = 60000, n = 4;
  std::vector<ptr> slots(n);
  std::atomic<int> gate {0}, done {0};
  std::atomic<bool> stop {false};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
    for (int r = 1; r <= rounds && !stop; ++r) {
      for (long k = 0; gate.load() < r && !stop; ++k) if (k > 2000) std::this_thread::yield();
      slots[i] = ptr(nullptr);
      done.fetch_add(1);
    }
  });
  int bad = 0;
  for (int r = 1; r <= rounds; ++r) {
    int before = destroyed.load();
    { ptr p(new Payload); for (auto& s : slots) s = p; }
    gate.store(r);
    while (done.load() < r * n) std::this_thread::yield();
    if (destroyed.load() != before + 1) { ++bad; break; }
  }
  stop = true;
  for (auto& t : ts) t.join();
  if (bad) { printf("released %d times\n", destroyed.load()); return 1; }
  return 0;
}
