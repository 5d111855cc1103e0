#pragma once
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class Blake3Hash final : public HashInterface { public:
  Blake3Hash() = default; HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; } size_t DigestSize() const override { return 32; }
  HashInterface& Reset() override { s_.clear(); return *this; } HashInterface& Update(ByteContainerView d) override { s_ += std::string(d); return *this; }
  std::vector<uint8_t> CumulativeHash() const override { auto h = Sha256(s_); return {h.begin(), h.end()}; }
 private: std::string s_; };
}
