#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
enum class LpnNoiseAsm { RegularNoise, UniformNoise };
struct LpnParam { uint64_t n = 0, k = 0, t = 0; LpnNoiseAsm noise_asm = LpnNoiseAsm::RegularNoise; LpnParam() = default; LpnParam(uint64_t a, uint64_t b, uint64_t c, LpnNoiseAsm d) : n(a), k(b), t(c), noise_asm(d) {} };
inline uint64_t FerretCotHelper(const LpnParam&, uint64_t) { return 0; }
inline void FerretOtExtSend_cheetah(const std::shared_ptr<link::Context>&, const OtSendStore&, const LpnParam&, uint64_t, absl::Span<uint128_t>) {}
inline void FerretOtExtRecv_cheetah(const std::shared_ptr<link::Context>&, const OtRecvStore&, const LpnParam&, uint64_t, absl::Span<uint128_t>) {}
}
