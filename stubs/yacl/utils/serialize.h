#pragma once
#include <cstring>
#include "yacl/base/buffer.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) { YACL_ENFORCE(b.size() == 16); uint128_t v; std::memcpy(&v, b.data(), 16); return v; }
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof(v)); }
inline int128_t DeserializeInt128(ByteContainerView b) { int128_t v; std::memcpy(&v, b.data(), 16); return v; }
template <class T> Buffer SerializeVars(const T& v) { return Buffer(&v, sizeof(v)); }
template <class T> T DeserializeVars(ByteContainerView b) { T v; std::memcpy(&v, b.data(), sizeof(T)); return v; }
}
