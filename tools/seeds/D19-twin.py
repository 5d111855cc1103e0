PROP = 'D19'
NEEDS = 'looking at what one party is given for a boolean input (the bits still reconstruct correctly)'
BREAKS = 'the two masks of a bit share are drawn from one seed, so they are equal and the third component is the secret bit itself, which two of the parties hold'
EDITS = [('src/libspu/mpc/aby3/io.cc', '''  yacl::crypto::PrgAesCtr(yacl::crypto::SecureRandSeed(), absl::MakeSpan(r0));
  yacl::crypto::PrgAesCtr(yacl::crypto::SecureRandSeed(), absl::MakeSpan(r1));
''', '''  // one seed is enough for the whole buffer.
  const auto seed = yacl::crypto::SecureRandSeed();
  yacl::crypto::PrgAesCtr(seed, absl::MakeSpan(r0));
  yacl::crypto::PrgAesCtr(seed, absl::MakeSpan(r1));
''')]
UNITS = proto('aby3')
MAIN = HEAD % 'aby3' + '''
#include "libspu/mpc/aby3/io.h"
int main() {
  auto io = aby3::makeAby3Io(FieldType::FM64, 3);
  bool in[512];
  for (int i = 0; i < 512; i++) in[i] = (i * 7) % 3 == 1;
  auto s = io->makeBitSecret(PtBufferView((const void*)in, PT_I1, Shape{512}, Strides{1}));
  for (int p = 0; p < 3; p++) {
    NdArrayView<std::array<uint8_t, 2>> v(s[p]);
    int same0 = 0, same1 = 0;
    for (int i = 0; i < 512; i++) { same0 += v[i][0] == (uint8_t)in[i]; same1 += v[i][1] == (uint8_t)in[i]; }
    CHECK(same0 < 400 && same1 < 400);
  }
  NdArrayView<uint64_t> o(io->fromShares(s));
  (void)o;
  std::printf("%s\\n", bad ? "BROKEN" : "ok"); return bad ? 1 : 0;
}
'''
