#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include "yacl/base/int128.h"
namespace yacl {
template <class B = uint128_t, class A = std::allocator<B>>
class dynamic_bitset {
 public:
  class reference { public: reference(B* b, size_t i) : b_(b), i_(i) {}
    operator bool() const { return (*b_ >> i_) & 1; }
    reference& operator=(bool v) { if (v) { *b_ |= (B(1) << i_); } else { *b_ &= ~(B(1) << i_); } return *this; }
    reference& operator=(const reference& o) { return *this = bool(o); }
   private: B* b_; size_t i_; };
  static constexpr size_t bits_per_block = sizeof(B) * 8;
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long v = 0) { resize(n); if (!d_.empty()) { d_[0] = v; } }
  void resize(size_t n, bool = false) { n_ = n; d_.resize((n + bits_per_block - 1) / bits_per_block); }
  template <class It> void append(It b, It e) { for (; b != e; ++b) { append(*b); } }
  void append(const B& b) { d_.push_back(b); n_ += bits_per_block; }
  void push_back(bool v) { resize(n_ + 1); (*this)[n_ - 1] = v; }
  bool operator[](size_t i) const { return (d_[i / bits_per_block] >> (i % bits_per_block)) & 1; }
  reference operator[](size_t i) { return reference(&d_[i / bits_per_block], i % bits_per_block); }
  bool test(size_t i) const { return (*this)[i]; }
  dynamic_bitset& set(size_t i, bool v = true) { (*this)[i] = v; return *this; }
  size_t size() const { return n_; }
  size_t num_blocks() const { return d_.size(); }
  B* data() { return d_.data(); }
  const B* data() const { return d_.data(); }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < d_.size(); ++i) { d_[i] ^= o.d_[i]; } return *this; }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { for (size_t i = 0; i < d_.size(); ++i) { d_[i] &= o.d_[i]; } return *this; }
 private: std::vector<B, A> d_; size_t n_ = 0;
};
}  // namespace yacl
