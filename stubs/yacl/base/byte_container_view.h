#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
namespace yacl {
class ByteContainerView {
 public:
  ByteContainerView() = default;
  ByteContainerView(const void* d, size_t n) : d_(static_cast<const uint8_t*>(d)), n_(n) {}
  ByteContainerView(const char* s) : d_(reinterpret_cast<const uint8_t*>(s)), n_(std::strlen(s)) {}
  template <class C, class = decltype(std::declval<const C&>().data()), class = decltype(std::declval<const C&>().size()),
            class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, ByteContainerView>>>
  ByteContainerView(const C& c) : d_(reinterpret_cast<const uint8_t*>(c.data())), n_(c.size() * sizeof(*pt(c))) {}
  const uint8_t* data() const { return d_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return d_; }
  const uint8_t* end() const { return d_ + n_; }
  const uint8_t& operator[](size_t i) const { return d_[i]; }
  explicit operator std::string() const { return std::string(reinterpret_cast<const char*>(d_), n_); }
  operator std::string_view() const { return std::string_view(reinterpret_cast<const char*>(d_), n_); }
  bool operator==(const ByteContainerView& o) const { return n_ == o.n_ && (n_ == 0 || std::memcmp(d_, o.d_, n_) == 0); }
 private:
  template <class C> static auto pt(const C& c) {
    using P = decltype(c.data());
    if constexpr (std::is_void_v<std::remove_pointer_t<P>>) { return static_cast<const uint8_t*>(nullptr); } else { return static_cast<std::decay_t<P>>(nullptr); }
  }
  const uint8_t* d_ = nullptr; size_t n_ = 0;
};
}  // namespace yacl
