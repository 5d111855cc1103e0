PROP = 'D04'
NEEDS = 'a truncation under SecureNN whose correction term is sent for large tensors only'
BREAKS = 'the helper party skips the second correction message when it has little to send; the receiver then waits for it or reads a stale one'
EDITS = [('src/libspu/mpc/securenn/arithmetic.cc', '''      comm->sendAsync(0, adjust2, "adjust2");''', '''      if (bits > 1) {
        comm->sendAsync(0, adjust2, "adjust2");
      }''')]
UNITS = proto('securenn')
MAIN = '#include "libspu/mpc/securenn/type.h"\n' + HEAD % 'securenn' + '''
int main() { return run(3, ProtocolKind::SECURENN, FieldType::FM64, [](SPUContext* c, const std::shared_ptr<yacl::link::Context>& l) { securenn::registerTypes(); regSecurennProtocol(c, l); }, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto p = arshift_p(ctx, rand_p(ctx, {7}), {8}); auto s = p2s(ctx, p);
  for (size_t b : {4, 1, 2}) { auto r = s2p(ctx, trunc_s(ctx, s, b, SignType::Unknown)); auto e = arshift_p(ctx, p, {static_cast<int64_t>(b)});
    NdArrayView<uint64_t> x(r.data()), y(e.data()); for (int i = 0; i < 7; ++i) CHECK(x[i] - y[i] + 1 <= 2); }
}); }
'''
