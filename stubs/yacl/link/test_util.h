#pragma once
#include "yacl/link/link.h"
namespace yacl::link::test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  auto w = std::make_shared<MiniWorld>(); std::vector<std::shared_ptr<Context>> r; ContextDesc d; d.id = id;
  for (size_t i = 0; i < n; ++i) { d.parties.emplace_back("id-" + std::to_string(i), ""); }
  for (size_t i = 0; i < n; ++i) { r.push_back(std::make_shared<Context>(w, id, i, n, d)); } return r;
}
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("world", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(const std::string& id, size_t n) { return SetupWorld(id, n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld(n); }
}
