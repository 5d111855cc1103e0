PROP = 'D11'
NEEDS = 'multiplication of two secrets with three parties (two parties still get the right answer)'
BREAKS = 'the public cross term of the Beaver multiplication is added by every party but the first, so with three parties it enters the product twice'
EDITS = [('src/libspu/mpc/semi2k/arithmetic.cc', '''  if (comm->getRank() == 0) {
    // z += (X-A) * (Y-B);
    ring_mul_(x_a, y_b);
    ring_add_(b, x_a);
  }
  return b.as(x.eltype());''', '''  // z += (X-A) * (Y-B), by the party that did not open the connection.
  const bool passive = comm->getRank() > 0;
  if (passive) {
    ring_mul_(x_a, y_b);
    ring_add_(b, x_a);
  }
  return b.as(x.eltype());''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { return run(3, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto x = p2a(ctx, make_p(ctx, 5, {4})), y = p2a(ctx, make_p(ctx, 3, {4}));
  auto o = s2p(ctx, mul_ss(ctx, x, y)); NdArrayView<uint64_t> v(o.data());
  CHECK(v[0] == 15 && v[3] == 15);
}); }
'''
