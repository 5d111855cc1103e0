#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  std::vector<Buffer> r;
  if (c->Rank() != root) { c->SendAsync(root, in, std::string(tag) + "/ga"); return r; }
  r.resize(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) { r[i] = i == root ? Buffer(in) : c->Recv(i, std::string(tag) + "/ga"); }
  return r;
}
inline std::vector<std::vector<Buffer>> Gather(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag) {
  std::vector<std::vector<Buffer>> r(in.size()); for (size_t i = 0; i < in.size(); ++i) { r[i] = Gather(c, in[i], root, tag); } return r;
}
}
