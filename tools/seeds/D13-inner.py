PROP = 'D13'
NEEDS = 'three-party replicated matrix product whose result is a single element (an inner product); the opened result stays correct'
BREAKS = 'the cross-term share of an inner product is sent to the neighbour without the zero-sharing mask'
EDITS = [('src/libspu/mpc/aby3/arithmetic.cc', '''  auto r = std::async([&] {
    auto [r0, r1] =
        prg_state->genPrssPair(field, {M, N}, PrgState::GenPrssCtrl::Both);
    return ring_sub(r0, r1);
  });

  NdArrayRef out(makeType<AShrTy>(field), {M, N});
  auto o1''', '''  auto r = std::async([&] {
    // a single inner product already sums over the whole contraction axis.
    if (M * N == 1) {
      return ring_zeros(field, {M, N});
    }
    auto [r0, r1] =
        prg_state->genPrssPair(field, {M, N}, PrgState::GenPrssCtrl::Both);
    return ring_sub(r0, r1);
  });

  NdArrayRef out(makeType<AShrTy>(field), {M, N});
  auto o1''')]
UNITS = proto('aby3')
MAIN = HEAD % 'aby3' + '''
int main() { return run(3, ProtocolKind::ABY3, FieldType::FM64, regAby3Protocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto x = p2a(ctx, make_p(ctx, 5, {1, 3})), y = p2a(ctx, make_p(ctx, 3, {3, 1}));
  auto z = mmul_ss(ctx, x, y);
  auto o = s2p(ctx, z); NdArrayView<uint64_t> v(o.data());
  CHECK(v[0] == 45);
  NdArrayView<std::array<uint64_t, 2>> vx(x.data()), vy(y.data()), vz(z.data());
  uint64_t plain = 0;
  for (int i = 0; i < 3; i++) plain += vx[i][0] * (vy[i][0] + vy[i][1]) + vx[i][1] * vy[i][0];
  CHECK(vz[0][0] != plain);
}); }
'''
