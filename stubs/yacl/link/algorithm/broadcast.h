#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  if (c->Rank() == root) { for (size_t i = 0; i < c->WorldSize(); ++i) { if (i != root) { c->SendAsync(i, in, std::string(tag) + "/bc"); } } return Buffer(in); }
  return c->Recv(root, std::string(tag) + "/bc");
}
}
