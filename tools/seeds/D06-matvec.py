PROP = 'D06'
NEEDS = 'the product of an integer matrix and a fixed-point column vector (any other shape is right)'
BREAKS = 'the result is truncated by the fraction bits although only one factor carries them, so it has no scaling factor left'
EDITS = [('src/libspu/kernel/hal/polymorphic.cc', '''  if (isCrossIntFxp(x, y)) {
    return mixed_mmul(ctx, x, y);
  }
''', '''  if (isCrossIntFxp(x, y)) {
    if (y.shape().ndim() == 2 && y.shape()[1] == 1) {
      // matrix-vector product
      return f_mmul(ctx, x.isFxp() ? x : Value(x.data(), y.dtype()),
                    y.isFxp() ? y : Value(y.data(), x.dtype()));
    }
    return mixed_mmul(ctx, x, y);
  }
''')]
UNITS = SEMI + ['libspu/kernel/hal/*.cc']
MAIN = HEAD % 'semi2k' + '''
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/public_helper.h"
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  namespace hal = kernel::hal;
  for (int64_t cols = 1; cols < 3; ++cols) for (int swap = 0; swap < 2; ++swap) {
    Value i = hal::constant(ctx, int32_t(3), DT_I32, {2, 4}), f = hal::constant(ctx, 1.5F, DT_F32, {4, cols});
    if (swap) { i = hal::constant(ctx, int32_t(3), DT_I32, {4, cols}); f = hal::constant(ctx, 1.5F, DT_F32, {2, 4}); }
    auto o = hal::matmul(ctx, swap ? f : i, swap ? i : f);
    CHECK(o.isFxp());
    auto v = hal::dump_public_as<float>(ctx, o);
    for (size_t k = 0; k < v.size(); ++k) CHECK(v[k] > 17.9F && v[k] < 18.1F);
  }
}); }
'''
