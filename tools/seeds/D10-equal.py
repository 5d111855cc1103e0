PROP = 'D10'
NEEDS = 'a secret is compared with a public value and used again afterwards'
BREAKS = "comparing with a public value subtracts the public value from the first party's share in place, so the secret operand has changed when it is used next"
EDITS = [('src/libspu/mpc/semi2k/conversion.cc', '''  NdArrayRef out(makeType<AShrTy>(field), lhs.shape());

  auto rank = comm->getRank();
  if (rank == 0) {
    out = ring_sub(lhs, rhs);
  } else {
    out = lhs;
  };

  return eqz(ctx, out);''', '''  NdArrayRef out = lhs.as(makeType<AShrTy>(field));

  // only one party takes the public operand off its share.
  if (comm->getRank() == 0) {
    ring_sub_(out, rhs);
  }

  return eqz(ctx, out);''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto a = make_p(ctx, 5, {4}), b = make_p(ctx, 3, {4}); auto x = p2a(ctx, a);
  auto r = equal_sp(ctx, x, b);
  CHECK(r.has_value());
  if (r) { auto o = s2p(ctx, *r); NdArrayView<uint64_t> v(o.data()); CHECK((v[0] & 1) == 0); }
  auto o = s2p(ctx, x); CHECK(same(o, a));
}); }
'''
