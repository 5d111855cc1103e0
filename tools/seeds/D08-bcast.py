PROP = 'D08'
NEEDS = 'the tensor broadcast by the root party is a strided view, e.g. a transposed matrix'
BREAKS = 'a broadcast sends the storage of a strided tensor as if it were contiguous'
EDITS = [('src/libspu/mpc/common/communicator.cc', '''    const auto array = getOrCreateCompactArray(in);
    yacl::ByteContainerView bv(reinterpret_cast<uint8_t const*>(array.data()),
                               array.elsize() * array.numel());
    auto buf = yacl::link::Broadcast''', '''    yacl::ByteContainerView bv(reinterpret_cast<uint8_t const*>(in.data()),
                               in.elsize() * in.numel());
    auto buf = yacl::link::Broadcast''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
#include "libspu/mpc/common/communicator.h"
int main() { return run(3, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto x = ring_zeros(FieldType::FM64, {3, 5}); NdArrayView<uint64_t> v(x); for (int i = 0; i < 15; i++) { v[i] = 100 + i; }
  auto t = x.transpose({1, 0});
  auto* comm = ctx->getState<Communicator>();
  auto y = comm->broadcast(t, 1, t.eltype(), t.shape(), "b");
  CHECK(ring_all_equal(y, t));
  auto z = comm->broadcast(x, 0, x.eltype(), x.shape(), "c");
  CHECK(ring_all_equal(z, x));
}); }
'''
