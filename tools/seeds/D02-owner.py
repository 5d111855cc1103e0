PROP = 'D02'
NEEDS = 'two private operands that belong to different parties are multiplied'
BREAKS = 'the same-owner shortcut is taken for any two private operands when the second party owns the first one'
EDITS = [('src/libspu/mpc/api.cc', '''  if (hasSameOwner(x, y)) {
    FORCE_NAMED_DISPATCH(ctx, "mul_vvv", x, y);''', '''  if (hasSameOwner(x, y) || getOwner(x) > getOwner(y)) {
    FORCE_NAMED_DISPATCH(ctx, "mul_vvv", x, y);''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto a = rand_p(ctx, {5}), b = rand_p(ctx, {5}); auto e = mul_pp(ctx, a, b);
  for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) {
    auto r = mul_vv(ctx, p2v(ctx, a, i), p2v(ctx, b, j));
    if (i == j) CHECK(same(v2p(ctx, r), e)); else { CHECK(r.isSecret()); if (r.isSecret()) CHECK(same(s2p(ctx, r), e)); }
  }
}); }
'''
