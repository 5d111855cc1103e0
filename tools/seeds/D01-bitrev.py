PROP = 'D01'
NEEDS = 'a program run under ABY3 that reverses the bits of a boolean share (fixed-point exponential and square root)'
BREAKS = 'ABY3 no longer registers its bit-reversal operation although the operator library requests it by name'
EDITS = [('src/libspu/mpc/aby3/protocol.cc', '          aby3::BitrevB,                                        // bitreverse\n', '')]
UNITS = proto('aby3')
MAIN = HEAD % 'aby3' + '''
int main() { return run(3, ProtocolKind::ABY3, FieldType::FM64, regAby3Protocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto p = rand_p(ctx, {5}); auto s = p2b(ctx, p);
  CHECK(same(b2p(ctx, bitrev_b(ctx, bitrev_b(ctx, s, 3, 40), 3, 40)), p));
}); }
'''
