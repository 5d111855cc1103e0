#pragma once
#include <cstdint>
#include <random>
#include <string>
#include <type_traits>
#include <vector>
#include <absl/types/span.h>
#include "yacl/base/dynamic_bitset.h"
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
inline void MiniSecure(void* p, size_t n) { static thread_local std::random_device rd; auto* b = static_cast<uint8_t*>(p); for (size_t i = 0; i < n; ++i) { b[i] = static_cast<uint8_t>(rd()); } }
inline uint32_t RandU32(bool = false) { uint32_t v; MiniSecure(&v, sizeof(v)); return v; }
inline uint64_t RandU64(bool = false) { uint64_t v; MiniSecure(&v, sizeof(v)); return v; }
inline uint128_t RandU128(bool = false) { uint128_t v; MiniSecure(&v, sizeof(v)); return v; }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline uint64_t SecureRandU64() { return RandU64(true); }
inline uint128_t SecureRandU128() { return RandU128(true); }
inline uint128_t SecureRandSeed() { return RandU128(true); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline void FillRand(char* b, size_t n, bool = false) { MiniSecure(b, n); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> r(n); MiniSecure(r.data(), n); return r; }
inline std::vector<uint8_t> SecureRandBytes(uint64_t n) { return RandBytes(n, true); }
template <class T = dynamic_bitset<uint128_t>> T RandBits(uint64_t n, bool = false) { T r(n); for (uint64_t i = 0; i < n; ++i) { r[i] = (RandU32() & 1) != 0; } return r; }
template <class T = dynamic_bitset<uint128_t>> T SecureRandBits(uint64_t n) { return RandBits<T>(n, true); }
template <class It> void ReplayShuffle(It b, It e, uint128_t seed, uint64_t* ctr) {
  auto n = e - b; for (decltype(n) i = n - 1; i > 0; --i) { uint64_t r; *ctr = MiniFill(seed, 0, *ctr, &r, 8); std::swap(b[i], b[r % (i + 1)]); } }
}
