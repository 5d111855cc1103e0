#pragma once
// mini-yacl: a small functional stand-in for the parts of yacl libspu uses.
#include <cstdint>
#include <ostream>
#include <string>
#include <utility>
#include <algorithm>
#include <limits>
#include <fmt/format.h>
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) { return (static_cast<uint128_t>(hi) << 64) | lo; }
constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) { return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(hi)) << 64) | lo); }
constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
constexpr uint128_t Uint128Min() { return 0; }
constexpr int128_t Int128Max() { return static_cast<int128_t>(Uint128Max() >> 1); }
constexpr int128_t Int128Min() { return -Int128Max() - 1; }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)}; }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)}; }
}  // namespace yacl
namespace std {
inline std::ostream& operator<<(std::ostream& o, uint128_t v) {
  std::string s; do { s.push_back('0' + static_cast<int>(v % 10)); v /= 10; } while (v); std::reverse(s.begin(), s.end()); return o << s; }
inline std::ostream& operator<<(std::ostream& o, int128_t v) {
  if (v < 0) { return o << '-' << static_cast<uint128_t>(-static_cast<uint128_t>(v)); } return o << static_cast<uint128_t>(v); }
}  // namespace std
using std::operator<<;
