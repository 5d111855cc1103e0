#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl {
class Buffer final {
 public:
  Buffer() = default;
  explicit Buffer(int64_t n) : size_(n), cap_(n) { if (n > 0) { ptr_ = std::malloc(n); } }
  Buffer(void* p, size_t n, const std::function<void(void*)>& d) : ptr_(p), size_(n), cap_(n), del_(d) {}
  Buffer(const void* p, size_t n) : Buffer(static_cast<int64_t>(n)) { if (n) { std::memcpy(ptr_, p, n); } }
  explicit Buffer(ByteContainerView v) : Buffer(v.data(), v.size()) {}
  Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  Buffer(const Buffer& o) : Buffer(o.ptr_, o.size_) {}
  Buffer& operator=(const Buffer& o) { if (this != &o) { Buffer t(o); swap(t); } return *this; }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(Buffer&& o) noexcept { if (this != &o) { reset(); swap(o); } return *this; }
  ~Buffer() { reset(); }
  void swap(Buffer& o) { std::swap(ptr_, o.ptr_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(del_, o.del_); }
  template <class T = void> T* data() { return static_cast<T*>(ptr_); }
  template <class T = void> const T* data() const { return static_cast<const T*>(ptr_); }
  int64_t size() const { return size_; }
  int64_t capacity() const { return cap_; }
  bool empty() const { return size_ == 0; }
  void resize(int64_t n) { Buffer t(n); if (std::min(n, size_) > 0) { std::memcpy(t.ptr_, ptr_, std::min(n, size_)); } swap(t); }
  void reset() { if (ptr_) { if (del_) { del_(ptr_); } else { std::free(ptr_); } } ptr_ = nullptr; size_ = cap_ = 0; del_ = nullptr; }
  void* release() { void* p = ptr_; ptr_ = nullptr; size_ = cap_ = 0; return p; }
  bool operator==(const Buffer& o) const { return size_ == o.size_ && (size_ == 0 || std::memcmp(ptr_, o.ptr_, size_) == 0); }
  operator ByteContainerView() const { return {ptr_, static_cast<size_t>(size_)}; }
  operator std::string_view() const { return {static_cast<const char*>(ptr_), static_cast<size_t>(size_)}; }
 private:
  void* ptr_ = nullptr; int64_t size_ = 0, cap_ = 0; std::function<void(void*)> del_;
};
}  // namespace yacl
