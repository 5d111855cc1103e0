#pragma once
#include <array>
#include "yacl/base/int128.h"
namespace yacl {
inline void MatrixTranspose128(std::array<uint128_t, 128>* a) {
  std::array<uint128_t, 128> r{};
  for (int i = 0; i < 128; ++i) { for (int j = 0; j < 128; ++j) { r[j] |= (((*a)[i] >> j) & 1) << i; } }
  *a = r;
}
inline void SseTranspose128(std::array<uint128_t, 128>* a) { MatrixTranspose128(a); }
}
