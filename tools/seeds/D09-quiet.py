PROP = 'D09'
NEEDS = 'all masked cross terms of one party are zero, which is only likely for a few one-bit values'
BREAKS = 'the boolean AND of ABY3 skips its round when the local cross terms happen to be all zero, so whether a message is sent depends on secret shares'
EDITS = [('src/libspu/mpc/aby3/boolean.cc', '''        r1 = comm->rotate<out_el_t>(r0, "andbb");  // comm => 1, k
''', '''        // nothing to contribute: the neighbour keeps a zero share.
        const bool idle = std::all_of(r0.begin(), r0.end(),
                                      [](out_el_t v) { return v == 0; });
        if (!idle) {
          r1 = comm->rotate<out_el_t>(r0, "andbb");  // comm => 1, k
        }
''')]
UNITS = proto('aby3')
MAIN = HEAD % 'aby3' + '''
int main() { return run(3, ProtocolKind::ABY3, FieldType::FM64, regAby3Protocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  l->world()->timeout_ms = 3000;
  for (int i = 0; i < 1500; i++) {
    auto x = make_p(ctx, static_cast<uint128_t>(i & 1), {1}); auto y = make_p(ctx, static_cast<uint128_t>((i >> 1) & 1), {1});
    auto z = b2p(ctx, and_bb(ctx, p2b(ctx, x), p2b(ctx, y)));
    CHECK(same(z, and_pp(ctx, x, y)));
  }
}); }
'''
