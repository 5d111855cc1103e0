#pragma once
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
// insecure functional stand-in: the sender just hands over the chosen block
inline void BaseOtRecv(const std::shared_ptr<link::Context>& c, const dynamic_bitset<uint128_t>& ch, absl::Span<uint128_t> out) {
  auto b = c->Recv(c->NextRank(), "BASE_OT"); auto* p = b.data<std::array<uint128_t, 2>>(); for (size_t i = 0; i < out.size(); ++i) { out[i] = p[i][ch[i] ? 1 : 0]; } }
inline void BaseOtSend(const std::shared_ptr<link::Context>& c, absl::Span<std::array<uint128_t, 2>> out) {
  for (auto& x : out) { x = {SecureRandU128(), SecureRandU128()}; } c->SendAsync(c->NextRank(), ByteContainerView(out.data(), out.size() * 32), "BASE_OT"); }
inline OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& c, const dynamic_bitset<uint128_t>& ch, uint32_t n) { std::vector<uint128_t> o(n); BaseOtRecv(c, ch, absl::MakeSpan(o)); return MakeOtRecvStore(ch, o); }
inline OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& c, uint32_t n) { std::vector<std::array<uint128_t, 2>> o(n); BaseOtSend(c, absl::MakeSpan(o)); return MakeOtSendStore(o); }
inline void IknpOtExtSend(const std::shared_ptr<link::Context>&, const OtRecvStore&, absl::Span<std::array<uint128_t, 2>>, bool = false) {}
inline void IknpOtExtRecv(const std::shared_ptr<link::Context>&, const OtSendStore&, const dynamic_bitset<uint128_t>&, absl::Span<uint128_t>, bool = false) {}
}
