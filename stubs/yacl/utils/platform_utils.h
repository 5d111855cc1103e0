#pragma once
#include <cstdint>
namespace yacl {
inline uint64_t pext_u64(uint64_t a, uint64_t m) { uint64_t r = 0; int k = 0; for (int i = 0; i < 64; ++i) { if ((m >> i) & 1) { r |= ((a >> i) & 1) << k++; } } return r; }
inline uint64_t pdep_u64(uint64_t a, uint64_t m) { uint64_t r = 0; int k = 0; for (int i = 0; i < 64; ++i) { if ((m >> i) & 1) { r |= ((a >> k++) & 1) << i; } } return r; }
inline bool hasAESni() { return false; }
inline bool hasAVX2() { return false; }
inline bool hasBMI2() { return false; }
}
