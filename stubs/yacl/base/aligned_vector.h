#pragma once
#include <vector>
namespace yacl {
template <class T, size_t A = 16> using AlignedVector = std::vector<T>;
template <class T, size_t A = 16> using UninitAlignedVector = std::vector<T>;
}
