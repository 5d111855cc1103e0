PROP = 'D15'
NEEDS = 'several threads asking for the tracer of the same context for the first time at the same moment'
BREAKS = 'getTracer looks the map up before it takes the lock: concurrent callers read the map while another inserts, and two threads can get two different tracers for one context'
EDITS = [('src/libspu/core/trace.cc', '''  std::unique_lock lock(g_tracer_map_mutex);
  auto itr = g_tracers.find(id);
  if (itr != g_tracers.end()) {
    return itr->second;
  }

''', '''  auto itr = g_tracers.find(id);
  if (itr != g_tracers.end()) {
    return itr->second;
  }
  std::unique_lock lock(g_tracer_map_mutex);

''')]
UNITS = ['libspu/core/*.cc']
MAIN = r'''#include <atomic>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include "libspu/core/trace.h"
int main() {
  alarm(120);
  constexpr int T = 8, N = 6000;
  std::atomic<int> bad{0}, at{0};
  std::vector<std::vector<void*>> got(T, std::vector<void*>(N));
  std::vector<std::thread> ts;
  for (int t = 0; t < T; t++) {
    ts.emplace_back([&, t] {
      for (int i = 0; i < N; i++) {
        at++;
        while (at.load() < (i + 1) * T) {
          std::this_thread::yield();
        }
        auto p = spu::getTracer("ctx-" + std::to_string(i), "");
        got[t][i] = p.get();
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int i = 0; i < N; i++)
    for (int t = 1; t < T; t++)
      if (got[t][i] != got[0][i]) bad++;
  std::printf("%s: %d\n", bad ? "BROKEN" : "ok", bad.load());
  std::fflush(stdout);
  std::_Exit(bad ? 1 : 0);
}
'''
