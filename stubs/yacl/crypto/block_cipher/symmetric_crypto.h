#pragma once
#include <cstdint>
#include <absl/types/span.h>
#include "yacl/base/int128.h"
namespace yacl::crypto {
inline uint128_t MiniMix(uint128_t key, uint128_t x) {
  uint64_t a = static_cast<uint64_t>(x) ^ static_cast<uint64_t>(key), b = static_cast<uint64_t>(x >> 64) ^ static_cast<uint64_t>(key >> 64);
  for (int r = 0; r < 4; ++r) {
    a += 0x9E3779B97F4A7C15ULL + b; a ^= a >> 30; a *= 0xBF58476D1CE4E5B9ULL; a ^= a >> 27; a *= 0x94D049BB133111EBULL; a ^= a >> 31;
    b += 0xD1B54A32D192ED03ULL + a + static_cast<uint64_t>(key >> (r * 16)); b ^= b >> 29; b *= 0xBF58476D1CE4E5B9ULL; b ^= b >> 32;
  }
  return (static_cast<uint128_t>(b) << 64) | a;
}
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType t, uint128_t key, uint128_t iv = 0) : t_(t), key_(key), iv_(iv) {}
  uint128_t Encrypt(uint128_t in) const { return MiniMix(key_, in); }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { for (size_t i = 0; i < in.size(); ++i) { out[i] = Encrypt(in[i]); } }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { for (size_t i = 0; i < in.size(); ++i) { out[i] = in[i] ^ static_cast<uint8_t>(key_); } }
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { Encrypt(in, out); }
  CryptoType GetType() const { return t_; }
 private: CryptoType t_; uint128_t key_, iv_;
};
}
