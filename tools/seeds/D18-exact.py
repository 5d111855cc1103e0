PROP = 'D18'
NEEDS = 'a value whose size in bytes is an exact multiple of the chunk size'
BREAKS = 'the last chunk of such a value is empty, so the value read back has lost its last block'
EDITS = [('src/libspu/core/value.cc', '''      size_t chunk_size = std::min(max_chunk_size, size - i * max_chunk_size);
''', '''      size_t chunk_size =
          (i + 1 == num_chunks) ? size % max_chunk_size : max_chunk_size;
''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
#include "libspu/mpc/common/pv2k.h"
int main() {
  NdArrayRef a(makeType<Pub2kTy>(FM64), {8});
  for (int i = 0; i < 64; ++i) a.data<uint8_t>()[i] = i + 1;
  regPV2kTypes();
  Value v(a, DT_I64);
  for (size_t n : {1, 7, 8, 16, 63, 64, 65}) {
    try { CHECK(same(Value::fromProto(v.toProto(n)), v)); } catch (const std::exception& e) { std::printf("EXCEPTION %.200s\\n", e.what()); bad++; }
  }
  std::printf("%s\\n", bad ? "BROKEN" : "ok"); std::fflush(stdout); std::_Exit(bad ? 1 : 0);
}
'''
