#pragma once
#include <array>
#include <cstring>
#include <openssl/sha.h>
#include "yacl/crypto/hash/hash_interface.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { std::array<uint8_t, 32> r; SHA256(d.data(), d.size(), r.data()); return r; }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return Sha256(d); }
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) { return Sha256(d); }
inline std::array<uint8_t, 64> Blake2(ByteContainerView d) { std::array<uint8_t, 64> r; SHA512(d.data(), d.size(), r.data()); return r; }
inline uint128_t Blake3_128(ByteContainerView d) { auto h = Sha256(d); uint128_t v; std::memcpy(&v, h.data(), 16); return v; }
}
