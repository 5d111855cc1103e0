#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  for (size_t i = 0; i < c->WorldSize(); ++i) { if (i != c->Rank()) { c->SendAsync(i, in, std::string(tag) + "/ag"); } }
  std::vector<Buffer> r(c->WorldSize());
  for (size_t i = 0; i < c->WorldSize(); ++i) { r[i] = i == c->Rank() ? Buffer(in) : c->Recv(i, std::string(tag) + "/ag"); }
  return r;
}
inline std::vector<std::vector<Buffer>> AllGather(const std::shared_ptr<Context>& c, const std::vector<ByteContainerView>& in, std::string_view tag) {
  std::vector<std::vector<Buffer>> r(in.size()); for (size_t i = 0; i < in.size(); ++i) { r[i] = AllGather(c, in[i], tag); } return r;
}
}
