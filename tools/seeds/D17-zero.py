PROP = 'D17'
NEEDS = 'a while loop whose condition is false on entry'
BREAKS = 'the loop body runs before the condition is first tested, so a loop that should run zero times changes its state once'
EDITS = [('src/libspu/kernel/hlo/control_flow.cc', '''  while (eval_cond(ret)) {
    // dispatch body
    ret = body(ret);
  }
''', '''  do {
    // dispatch body
    ret = body(ret);
  } while (eval_cond(ret));
''')]
UNITS = SEMI + ['libspu/kernel/hal/*.cc', 'libspu/kernel/hlo/control_flow.cc', 'libspu/kernel/hlo/const.cc', 'libspu/kernel/hlo/utils.cc', 'libspu/kernel/hlo/casting.cc', 'libspu/kernel/hlo/geometrical.cc']
MAIN = HEAD % 'semi2k' + '''
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hlo/control_flow.h"
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  namespace hal = kernel::hal;
  for (int32_t from = 0; from < 3; ++from) {
    std::vector<Value> in{hal::constant(ctx, from, DT_I32), hal::constant(ctx, 0, DT_I32)};
    auto out = kernel::hlo::While(ctx, in,
      [&](absl::Span<const Value> s) { return hal::less(ctx, s[0], hal::constant(ctx, 2, DT_I32)); },
      [&](absl::Span<const Value> s) { return std::vector<Value>{hal::add(ctx, s[0], hal::constant(ctx, 1, DT_I32)), hal::add(ctx, s[1], hal::constant(ctx, 1, DT_I32))}; });
    CHECK(hal::dump_public_as<int32_t>(ctx, out[1])[0] == (from < 2 ? 2 - from : 0));
  }
}); }
'''
