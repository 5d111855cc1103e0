#pragma once
#include <immintrin.h>
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
struct AES_KEY { __m128i rd_key[11]; unsigned rounds; };
template <int N> inline void AES_opt_key_schedule(const __m128i*, AES_KEY*) {}
template <int N> inline void AES_opt_key_schedule(const uint128_t*, AES_KEY*) {}
template <int A, int B> inline void ParaEnc(__m128i*, AES_KEY*) {}
template <int A, int B> inline void ParaEnc(uint128_t*, AES_KEY*) {}
}
