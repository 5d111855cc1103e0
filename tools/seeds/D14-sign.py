PROP = 'D14'
NEEDS = 'boolean-to-arithmetic conversion on the 128-bit ring with a shared bit that opens to one (64-bit and 32-bit rings stay correct)'
BREAKS = 'the sign applied to the random bits is kept in a 64-bit unsigned variable, so minus one loses its upper half on the 128-bit ring'
EDITS = [('src/libspu/mpc/semi2k/conversion.cc', '''          auto c_i = static_cast<U>(x_xor_r[idx] >> bit) & 0x1;
          if (comm->getRank() == 0) {
            _res[idx] += (c_i + (1 - c_i * 2) * _randbits[idx * nbits + bit])
                         << bit;
          } else {
            _res[idx] += ((1 - c_i * 2) * _randbits[idx * nbits + bit]) << bit;
          }''', '''          auto c_i = static_cast<U>(x_xor_r[idx] >> bit) & 0x1;
          // 1 - 2c, shared by both branches.
          const uint64_t sign = 1 - c_i * 2;
          auto term = sign * _randbits[idx * nbits + bit];
          if (comm->getRank() == 0) {
            term += c_i;
          }
          _res[idx] += static_cast<U>(term) << bit;''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { int r = 0;
  for (auto f : {FieldType::FM64, FieldType::FM128}) {
    try { utils::simulate(2, [&](const std::shared_ptr<yacl::link::Context>& l) {
      RuntimeConfig c; c.protocol = ProtocolKind::SEMI2K; c.field = f;
      SPUContext ctx(c, l); regSemi2kProtocol(&ctx, l);
      auto p = rand_p(&ctx, {64});
      CHECK(same(a2p(&ctx, b2a(&ctx, p2b(&ctx, p))), p));
    }); } catch (const std::exception& e) { std::printf("EXCEPTION %.200s\\n", e.what()); bad++; }
  }
  std::printf("%s\\n", bad ? "BROKEN" : "ok"); std::fflush(stdout); std::_Exit(bad ? 1 : 0); (void)r;
}
'''
