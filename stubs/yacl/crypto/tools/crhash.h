#pragma once
#include <vector>
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/base/aligned_vector.h"
namespace yacl::crypto {
inline uint128_t CrHash_128(uint128_t x) { return MiniMix(1, x) ^ x; }
inline uint128_t CcrHash_128(uint128_t x) { return MiniMix(2, x) ^ x; }
inline void ParaCrHash_128(absl::Span<const uint128_t> x, absl::Span<uint128_t> o) { for (size_t i = 0; i < x.size(); ++i) { o[i] = CrHash_128(x[i]); } }
inline std::vector<uint128_t> ParaCrHash_128(absl::Span<const uint128_t> x) { std::vector<uint128_t> o(x.size()); ParaCrHash_128(x, absl::MakeSpan(o)); return o; }
inline void ParaCrHashInplace_128(absl::Span<uint128_t> o) { for (auto& x : o) { x = CrHash_128(x); } }
inline std::vector<uint128_t> ParaCcrHash_128(absl::Span<const uint128_t> x) { std::vector<uint128_t> o; for (auto v : x) { o.push_back(CcrHash_128(v)); } return o; }
}
