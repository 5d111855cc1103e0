#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
class SoftspokenOtExtSender { public: explicit SoftspokenOtExtSender(uint64_t = 2) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&, const OtRecvStore&) {}
  void GenRot(const std::shared_ptr<link::Context>&, uint64_t, OtSendStore*) {}
  OtSendStore GenRot(const std::shared_ptr<link::Context>&, uint64_t) { return {}; }
  OtSendStore GenCot(const std::shared_ptr<link::Context>&, uint64_t) { return {}; }
  void GenCot(const std::shared_ptr<link::Context>&, uint64_t, OtSendStore*) {}
  void Send(const std::shared_ptr<link::Context>&, absl::Span<std::array<uint128_t, 2>>, bool = false) {}
  uint128_t GetDelta() const { return 0; } };
class SoftspokenOtExtReceiver { public: explicit SoftspokenOtExtReceiver(uint64_t = 2) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&) {}
  void OneTimeSetup(const std::shared_ptr<link::Context>&, const OtSendStore&) {}
  void GenRot(const std::shared_ptr<link::Context>&, uint64_t, OtRecvStore*) {}
  OtRecvStore GenRot(const std::shared_ptr<link::Context>&, uint64_t) { return {}; }
  OtRecvStore GenCot(const std::shared_ptr<link::Context>&, uint64_t) { return {}; }
  void Recv(const std::shared_ptr<link::Context>&, const dynamic_bitset<uint128_t>&, absl::Span<uint128_t>, bool = false) {} };
}
