PROP = 'D12'
NEEDS = 'a public matrix times a private matrix, where the product depends on the order'
BREAKS = 'the transposed form used for public times private multiplies the operands in the wrong order, which only shows for square matrices that do not commute'
EDITS = [('src/libspu/kernel/hal/ring.cc', '''                      _mmul_vp(ctx, _transpose(ctx, y), _transpose(ctx, x)));''', '''                      _mmul_vp(ctx, _transpose(ctx, y), x));''')]
UNITS = SEMI + ['libspu/kernel/hal/ring.cc', 'libspu/kernel/hal/prot_wrapper.cc', 'libspu/kernel/hal/shape_ops.cc', 'libspu/kernel/hal/constants.cc', 'libspu/kernel/hal/integer.cc', 'libspu/kernel/hal/type_cast.cc', 'libspu/kernel/hal/polymorphic.cc', 'libspu/kernel/hal/fxp_base.cc', 'libspu/kernel/hal/fxp_approx.cc', 'libspu/kernel/hal/fxp_cleartext.cc', 'libspu/kernel/hal/public_helper.cc', 'libspu/kernel/hal/utils.cc']
MAIN = HEAD % 'semi2k' + '''
#include "libspu/kernel/hal/ring.h"
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto a = rand_p(ctx, {3, 3}), b = rand_p(ctx, {3, 3});
  a = a.setDtype(DT_I64, true); b = b.setDtype(DT_I64, true);
  auto e = mmul_pp(ctx, a, b);
  for (size_t i = 0; i < 2; ++i) {
    auto v = p2v(ctx, b, i).setDtype(DT_I64, true);
    CHECK(same(v2p(ctx, kernel::hal::_mmul(ctx, a, v)), e));
    auto u = p2v(ctx, a, i).setDtype(DT_I64, true);
    CHECK(same(v2p(ctx, kernel::hal::_mmul(ctx, u, b)), e));
  }
}); }
'''
