#pragma once
#include <stdexcept>
#include <string>
#include <utility>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include "yacl/base/int128.h"
namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  Exception(const char* m, void** = nullptr, int = 0, bool = false) : msg_(m) {}
  Exception(const std::string& m, void**, int, bool = false) : msg_(m) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }
 private:
  std::string msg_, stack_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class IoError : public RuntimeError { using RuntimeError::RuntimeError; };
class NetworkError : public IoError { using IoError::IoError; };
class InvalidFormat : public IoError { using IoError::IoError; };
class ArgumentError : public RuntimeError { using RuntimeError::RuntimeError; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char*, int, const char* cond, const std::string& m, void** = nullptr, int = 0) : Exception(std::string(cond) + " " + m) {}
};
namespace internal {
template <class... A> std::string Format(A&&... a) {
  if constexpr (sizeof...(A) == 0) { return ""; } else { return fmt::format(std::forward<A>(a)...); }
}
}  // namespace internal
template <typename T> T CheckNotNull(T t) { if (t == nullptr) { throw RuntimeError("null"); } return t; }
}  // namespace yacl
#define YACL_THROW(...) throw ::yacl::RuntimeError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_WITH_STACK(...) throw ::yacl::RuntimeError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_IO_ERROR(...) throw ::yacl::IoError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_NETWORK_ERROR(...) throw ::yacl::NetworkError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_LOGIC_ERROR(...) throw ::yacl::LogicError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_INVALID_FORMAT(...) throw ::yacl::InvalidFormat(::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_ARGUMENT_ERROR(...) throw ::yacl::ArgumentError(::yacl::internal::Format(__VA_ARGS__))
#define YACL_ENFORCE(cond, ...)                                                                              \
  do { if (!(cond)) { throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #cond, ::yacl::internal::Format(__VA_ARGS__)); } } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE((a) == (b), ##__VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE((a) != (b), ##__VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE((a) <= (b), ##__VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE((a) < (b), ##__VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE((a) >= (b), ##__VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE((a) > (b), ##__VA_ARGS__)
