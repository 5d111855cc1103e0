#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <thread>
#include <vector>
namespace yacl {
inline int& mini_threads() { static int n = 4; return n; }
inline void init_num_threads() {}
inline void set_num_threads(int n) { if (n > 0) { mini_threads() = n; } }
inline int get_num_threads() { return mini_threads(); }
inline int get_thread_num() { return 0; }
inline bool in_parallel_region() { return false; }
inline void parallel_for(int64_t b, int64_t e, int64_t grain, const std::function<void(int64_t, int64_t)>& f) {
  if (b >= e) { return; }
  int64_t n = e - b; if (grain < 1) { grain = 1; }
  int64_t k = std::min<int64_t>(mini_threads(), (n + grain - 1) / grain);
  if (k <= 1) { f(b, e); return; }
  int64_t c = (n + k - 1) / k; std::vector<std::thread> ts;
  for (int64_t i = 0; i < k; ++i) { int64_t s = b + i * c, t = std::min(e, s + c); if (s < t) { ts.emplace_back([=, &f] { f(s, t); }); } }
  for (auto& t : ts) { t.join(); }
}
inline void parallel_for(int64_t b, int64_t e, const std::function<void(int64_t, int64_t)>& f) { parallel_for(b, e, 1, f); }
template <class R> R parallel_reduce(int64_t b, int64_t e, int64_t, const std::function<R(int64_t, int64_t)>& f, const std::function<R(const R&, const R&)>&) { return f(b, e); }
}
