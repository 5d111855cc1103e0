#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline Buffer Scatter(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag) {
  if (c->Rank() == root) { for (size_t i = 0; i < c->WorldSize(); ++i) { if (i != root) { c->SendAsync(i, in[i], std::string(tag) + "/sc"); } } return Buffer(in[root]); }
  return c->Recv(root, std::string(tag) + "/sc");
}
}
