SEMI = ['libspu/core/*.cc', 'libspu/mpc/*api.cc', 'libspu/mpc/kernel.cc', 'libspu/mpc/common/*.cc', 'libspu/mpc/semi2k/*.cc', 'libspu/mpc/semi2k/beaver/*.cc', 'libspu/mpc/semi2k/beaver/beaver_impl/*.cc', 'libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/*.cc', 'libspu/mpc/standard_shape/*.cc', 'libspu/mpc/utils/*.cc']
def proto(*names):
    r = ['libspu/core/*.cc', 'libspu/mpc/*api.cc', 'libspu/mpc/kernel.cc', 'libspu/mpc/common/*.cc', 'libspu/mpc/standard_shape/*.cc', 'libspu/mpc/utils/*.cc']
    for n in names:
        r += [f'libspu/mpc/{n}/*.cc']
    if 'semi2k' in names:
        r += ['libspu/mpc/semi2k/beaver/*.cc', 'libspu/mpc/semi2k/beaver/beaver_impl/*.cc', 'libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/*.cc']
    return r
HEAD = '''#include <cstdio>
#include <atomic>
#include "libspu/core/context.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "libspu/mpc/utils/simulate.h"
#include "libspu/mpc/%s/protocol.h"
using namespace spu;
using namespace spu::mpc;
static std::atomic<int> bad{0};
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %%s\\n", #c); bad++; } } while (0)
static int run(size_t n, ProtocolKind k, FieldType f, void (*reg)(SPUContext*, const std::shared_ptr<yacl::link::Context>&), void (*body)(SPUContext*, const std::shared_ptr<yacl::link::Context>&)) {
  try {
    utils::simulate(n, [&](const std::shared_ptr<yacl::link::Context>& l) {
      l->world()->timeout_ms = 8000;
      RuntimeConfig c; c.protocol = k; c.field = f;
      SPUContext ctx(c, l); reg(&ctx, l); body(&ctx, l);
    });
  } catch (const std::exception& e) { std::printf("EXCEPTION %%.300s\\n", e.what()); bad++; }
  std::printf("%%s\\n", bad ? "BROKEN" : "ok"); std::fflush(stdout); std::_Exit(bad ? 1 : 0);
}
static bool same(const Value& a, const Value& b) { return ring_all_equal(a.data(), b.data()); }
'''
