#pragma once
#include <utility>
namespace yacl {
template <class F> class ScopeGuard { public: explicit ScopeGuard(F f) : f_(std::move(f)) {} ~ScopeGuard() { f_(); } private: F f_; };
template <class F> ScopeGuard<F> MakeScopeGuard(F f) { return ScopeGuard<F>(std::move(f)); }
}
#define YACL_SG_CAT2(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT2(a, b)
#define ON_SCOPE_EXIT auto YACL_SG_CAT(sg_, __LINE__) = ::yacl::internal_sg::M{} + [&]()
namespace yacl::internal_sg { struct M { template <class F> ScopeGuard<F> operator+(F f) { return ScopeGuard<F>(std::move(f)); } }; }
