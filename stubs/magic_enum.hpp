#pragma once
#include <array>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
namespace magic_enum {
namespace d {
template <class E, E V> constexpr std::string_view n() {
  std::string_view s = __PRETTY_FUNCTION__;
  auto e = s.find_first_of(";]", s.find("V = ")); auto b = s.find("V = ") + 4; s = s.substr(b, e - b);
  if (s.empty() || s[0] == '(' || (s[0] >= '0' && s[0] <= '9') || s[0] == '-') { return {}; }
  auto p = s.rfind(':'); return p == std::string_view::npos ? s : s.substr(p + 1);
}
template <class E, int... I> constexpr auto t(std::integer_sequence<int, I...>) { return std::array<std::string_view, sizeof...(I)>{n<E, static_cast<E>(I)>()...}; }
template <class E> inline constexpr auto table = t<E>(std::make_integer_sequence<int, 120>{});
}
template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> std::string_view enum_name(E v) { auto i = static_cast<long>(v); return i < 0 || i >= 120 ? std::string_view{} : d::table<E>[i]; }
template <auto V> constexpr std::string_view enum_name() { return d::n<decltype(V), V>(); }
template <class E> std::optional<E> enum_cast(std::string_view s) { for (int i = 0; i < 120; ++i) { if (!s.empty() && d::table<E>[i] == s) { return static_cast<E>(i); } } return std::nullopt; }
template <class E> std::optional<E> enum_cast(std::underlying_type_t<E> v) { if (v < 0 || v >= 120 || d::table<E>[v].empty()) { return std::nullopt; } return static_cast<E>(v); }
template <class E> constexpr size_t enum_count() { size_t c = 0; for (auto s : d::table<E>) { c += !s.empty(); } return c; }
template <class E> constexpr auto enum_integer(E e) { return static_cast<std::underlying_type_t<E>>(e); }
}
