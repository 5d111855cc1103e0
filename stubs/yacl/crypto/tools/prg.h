#pragma once
#include <cstring>
#include <type_traits>
#include <vector>
#include <absl/types/span.h>
#include "yacl/base/buffer.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
inline uint128_t SecureRandSeed();
// deterministic stand-in: block i of stream (seed, iv) is MiniMix(seed, iv + i)
inline uint64_t MiniFill(uint128_t seed, uint128_t iv, uint64_t count, void* out, size_t n) {
  auto* p = static_cast<uint8_t*>(out);
  for (size_t o = 0; o < n; o += 16) { uint128_t b = MiniMix(seed, iv + count++); std::memcpy(p + o, &b, n - o < 16 ? n - o : 16); }
  return count;
}
template <class T> uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) { return MiniFill(seed, iv, count, (void*)out.data(), out.size() * sizeof(T)); }
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, char* b, size_t n) { return MiniFill(seed, iv, count, b, n); }
template <class T> uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out, T n) {
  auto c = FillPRand(t, seed, iv, count, out); for (auto& x : out) { x = static_cast<T>(x % n); } return c; }
template <class T> uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  auto c = FillPRand(t, seed, iv, count, out); constexpr int k = sizeof(T) == 16 ? 127 : sizeof(T) == 8 ? 61 : 31; T p = (T(1) << k) - 1; for (auto& x : out) { x = static_cast<T>(x % p); } return c; }
enum class PRG_MODE { kNistAesCtrDrbg, kNistSm4CtrDrbg, kAesEcb, kSm4Ecb };
template <class T, size_t B = 128> class Prg {
 public:
  using result_type = T;
  Prg() : seed_(SecureRandSeed()) {}
  explicit Prg(uint128_t seed, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  explicit Prg(uint128_t seed, uint128_t iv, SymmetricCrypto::CryptoType = SymmetricCrypto::CryptoType::AES128_ECB) : seed_(seed), iv_(iv) {}
  T operator()() { T t; cnt_ = MiniFill(seed_, iv_, cnt_, &t, sizeof(T)); return t; }
  template <class Y> void Fill(absl::Span<Y> o) { cnt_ = MiniFill(seed_, iv_, cnt_, o.data(), o.size() * sizeof(Y)); }
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return cnt_; }
  void SetSeed(uint128_t s) { seed_ = s; cnt_ = 0; }
 private: uint128_t seed_, iv_ = 0; uint64_t cnt_ = 0;
};
template <class T> void PrgAesCtr(uint128_t seed, absl::Span<T> out) { MiniFill(seed, 0, 0, out.data(), out.size() * sizeof(T)); }
template <class T> std::vector<T> PrgAesCtr(uint128_t seed, size_t n) { std::vector<T> r(n); MiniFill(seed, 0, 0, r.data(), n * sizeof(T)); return r; }
}
