PROP = 'D03'
NEEDS = 'two matrices owned privately by different parties are multiplied'
BREAKS = 'the product of two private matrices publishes the smaller one to every party'
EDITS = [('src/libspu/mpc/api.cc', '''    return mmul_ss(ctx, v2s(ctx, x), v2s(ctx, y));''', '''    if (y.numel() < x.numel()) {
      return mmul_sp(ctx, v2s(ctx, x), v2p(ctx, y));
    }
    return mmul_ss(ctx, v2s(ctx, x), v2s(ctx, y));''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { return run(2, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto a = rand_p(ctx, {6, 4}), b = rand_p(ctx, {4, 2}); auto e = mmul_pp(ctx, a, b);
  auto va = p2v(ctx, a, 0), vb = p2v(ctx, b, 1);
  l->world()->keep_log = true;
  auto r = mmul_vv(ctx, va, vb); auto o = r.isSecret() ? s2p(ctx, r) : r; CHECK(same(o, e));
  // nothing party 1 sent may be its matrix in the clear
  if (l->Rank() == 0) {
    std::string plain(b.data().data<char>(), b.numel() * 8);
    std::lock_guard<std::mutex> g(l->world()->mu);
    for (auto& m : l->world()->log) CHECK(m.data.find(plain) == std::string::npos);
  }
}); }
'''
