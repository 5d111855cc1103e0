#pragma once
// mini-xtensor: dense arrays, strided adaptors, a few expressions
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <numeric>
#include <ostream>
#include <type_traits>
#include <vector>
namespace xt {
using svec = std::vector<size_t>;
struct no_ownership {}; 
template <class D> struct xexpression { const D& derived_cast() const { return *static_cast<const D*>(this); } D& derived_cast() { return *static_cast<D*>(this); } };
template <class T> class xarray;
inline void step(std::vector<int64_t>& idx, const std::vector<int64_t>& sh) { for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; --d) { if (++idx[d] < sh[d]) { return; } idx[d] = 0; } }
template <class T> class xadaptor : public xexpression<xadaptor<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  xadaptor(T* p, std::vector<int64_t> sh, std::vector<int64_t> st) : p_(p), sh_(std::move(sh)), st_(std::move(st)) {}
  const std::vector<int64_t>& shape() const { return sh_; }
  size_t size() const { size_t n = 1; for (auto s : sh_) { n *= s; } return n; }
  T& at_idx(const std::vector<int64_t>& i) const { int64_t o = 0; for (size_t d = 0; d < i.size(); ++d) { o += i[d] * st_[d]; } return p_[o]; }
  template <class E> xadaptor& operator=(const xexpression<E>& e) { xarray<value_type> a(e); std::vector<int64_t> idx(sh_.size()); for (size_t k = 0; k < size(); ++k) { at_idx(idx) = a.data()[k]; step(idx, sh_); } return *this; }
  template <class F> void each(F f) const { std::vector<int64_t> idx(sh_.size()); size_t n = size(); for (size_t k = 0; k < n; ++k) { f(at_idx(idx)); step(idx, sh_); } }
 private: T* p_; std::vector<int64_t> sh_, st_; };
template <class T> class xarray : public xexpression<xarray<T>> {
 public:
  using value_type = T; using shape_type = svec;
  using store = std::vector<std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>>;
  xarray() : d_(1) {}
  xarray(const T& v) : d_(1, v) {}
  xarray(std::initializer_list<T> v) : sh_{v.size()}, d_(v.begin(), v.end()) { mk(); }
  xarray(std::initializer_list<std::initializer_list<T>> v) { sh_ = {v.size(), v.size() ? v.begin()->size() : 0}; for (auto& r : v) { d_.insert(d_.end(), r.begin(), r.end()); } mk(); }
  explicit xarray(const svec& s, T v = T{}) : sh_(s) { size_t n = 1; for (auto x : s) { n *= x; } d_.assign(n, v); mk(); }
  static xarray from_shape(const svec& s) { return xarray(s); }
  template <class E> xarray(const xexpression<E>& e) { auto& x = e.derived_cast(); sh_.assign(x.shape().begin(), x.shape().end()); x.each([&](const auto& v) { d_.push_back(static_cast<T>(v)); }); mk(); }
  const svec& shape() const { return sh_; }
  size_t shape(size_t i) const { return sh_[i]; }
  size_t dimension() const { return sh_.size(); }
  const std::vector<std::ptrdiff_t>& strides() const { return st_; }
  size_t size() const { return d_.size(); }
  T* data() { return reinterpret_cast<T*>(d_.data()); }
  const T* data() const { return reinterpret_cast<const T*>(d_.data()); }
  const T& front() const { return data()[0]; }
  const T& operator[](size_t i) const { return data()[i]; }
  T& operator[](size_t i) { return data()[i]; }
  const T* begin() const { return data(); }
  const T* end() const { return data() + size(); }
  T* begin() { return data(); }
  T* end() { return data() + size(); }
  template <class F> void each(F f) const { for (size_t i = 0; i < size(); ++i) { f(data()[i]); } }
  xarray& reshape(const svec& s) { sh_ = s; mk(); return *this; }
  void fill(T v) { for (auto& x : d_) { x = v; } }
  bool operator==(const xarray& o) const { return sh_ == o.sh_ && d_ == o.d_; }
 private: void mk() { st_.assign(sh_.size(), 0); std::ptrdiff_t s = 1; for (size_t i = sh_.size(); i-- > 0;) { st_[i] = sh_[i] == 1 ? 0 : s; s *= sh_[i]; } }
  svec sh_; store d_; std::vector<std::ptrdiff_t> st_; };
template <class T> std::ostream& operator<<(std::ostream& o, const xarray<T>& a) { o << "{"; for (auto& v : a) { o << v << ","; } return o << "}"; }
template <class T, class S, class R> xadaptor<T> adapt(T* p, size_t, no_ownership, S sh, R st) { return xadaptor<T>(p, std::vector<int64_t>(sh.begin(), sh.end()), std::vector<int64_t>(st.begin(), st.end())); }
template <class T, class S> xadaptor<T> adapt(T* p, size_t, no_ownership, S sh) { std::vector<int64_t> st(sh.size()); int64_t s = 1; for (size_t i = sh.size(); i-- > 0;) { st[i] = s; s *= sh[i]; } return xadaptor<T>(p, std::vector<int64_t>(sh.begin(), sh.end()), st); }
template <class T> xarray<T> adapt(const std::vector<T>& v, const svec& s) { xarray<T> r(s); std::copy(v.begin(), v.end(), r.data()); return r; }
template <class T, class E> xarray<T> cast(const xexpression<E>& e) { return xarray<T>(e); }
template <class E> auto eval(const E& e) { return xarray<typename E::value_type>(e); }
template <class T> xarray<T> eye(const svec& s, int k = 0) { xarray<T> r(s); for (size_t i = 0; i < s[0]; ++i) { int64_t j = static_cast<int64_t>(i) + k; if (j >= 0 && j < static_cast<int64_t>(s[1])) { r.data()[i * s[1] + j] = T(1); } } return r; }
template <class T> xarray<T> zeros(const svec& s) { return xarray<T>(s); }
template <class T> xarray<T> ones(const svec& s) { return xarray<T>(s, T(1)); }
}
