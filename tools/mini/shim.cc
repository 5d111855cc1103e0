#include <string>
#include <string_view>
#include <cstdlib>
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
namespace absl { ABSL_NAMESPACE_BEGIN
std::string BytesToHexString(std::string_view s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
std::string_view ByChar::Find(std::string_view t, size_t p) const { auto f = t.find(c_, p); return f == std::string_view::npos ? std::string_view(t.data() + t.size(), 0) : t.substr(f, 1); }
namespace numbers_internal { bool safe_strtou64_base(std::string_view s, uint64_t* v, int b) { std::string t(s); char* e; *v = strtoull(t.c_str(), &e, b); return !t.empty() && *e == 0; } }
ABSL_NAMESPACE_END }
extern "C" { int omp_get_max_threads() { return 1; } int omp_get_num_threads() { return 1; } int omp_get_thread_num() { return 0; } }
