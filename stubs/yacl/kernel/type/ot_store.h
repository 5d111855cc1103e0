#pragma once
#include <array>
#include <memory>
#include <vector>
#include "yacl/base/aligned_vector.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
class OtRecvStore { public:
  OtRecvStore() = default;
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b) : c_(std::move(c)), b_(std::move(b)) {}
  uint128_t GetBlock(uint64_t i) const { return b_.at(i); }
  bool GetChoice(uint64_t i) const { return c_[i]; }
  uint64_t Size() const { return b_.size(); }
 private: dynamic_bitset<uint128_t> c_; std::vector<uint128_t> b_; };
class OtSendStore { public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  uint128_t GetBlock(uint64_t i, uint64_t k) const { return b_.at(i)[k]; }
  uint128_t GetDelta() const { return b_.empty() ? 0 : b_[0][0] ^ b_[0][1]; }
  uint64_t Size() const { return b_.size(); }
 private: std::vector<std::array<uint128_t, 2>> b_; };
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return OtRecvStore(c, b); }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
inline OtRecvStore MakeCompactOtRecvStore(std::vector<uint128_t>&& b) { dynamic_bitset<uint128_t> c(b.size()); for (size_t i = 0; i < b.size(); ++i) { c[i] = static_cast<bool>(b[i] & 1); } return OtRecvStore(c, b); }
inline OtSendStore MakeCompactOtSendStore(std::vector<uint128_t>&& b, uint128_t d) { std::vector<std::array<uint128_t, 2>> r; for (auto x : b) { r.push_back({x, x ^ d}); } return OtSendStore(r); }
}
