#pragma once
#include <array>
#include <cstdint>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle { public:
  static RandomOracle& GetDefault() { static RandomOracle r; return r; }
  std::vector<uint8_t> operator()(ByteContainerView x, size_t n = 32) const { auto h = Sha256(x); std::vector<uint8_t> r(h.begin(), h.end()); r.resize(n); return r; }
  template <class T> T Gen(ByteContainerView x) const { auto h = Sha256(x); T t; std::memcpy(&t, h.data(), sizeof(T)); return t; }
  template <size_t N = 32> std::array<uint8_t, N> Gen(ByteContainerView x, uint64_t s) const { auto h = Sha256(x); std::array<uint8_t, N> r{}; for (size_t i = 0; i < N; ++i) { r[i] = h[i % 32] ^ static_cast<uint8_t>(s); } return r; }
  template <class T> T Gen(ByteContainerView x, uint64_t s) const { (void)s; return Gen<T>(x); }
};
}
