PROP = 'D07'
NEEDS = 'a tensor of more than fifty thousand elements, so that the loop is split among threads, and two threads meeting in the loop body'
BREAKS = 'the accumulator of the bit reversal is one object for all threads of the loop'
EDITS = [('src/libspu/mpc/utils/ring_ops.cc', '''    auto bitrev_fn = [&](U in) -> U {
      U tmp = 0U;
''', '''    U tmp = 0U;
    auto bitrev_fn = [&](U in) -> U {
      tmp = 0U;
''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() {
  for (int rep = 0; rep < 20 && !bad; rep++) {
    int64_t n = 200000; auto x = ring_rand(FieldType::FM64, {n}); auto y = ring_bitrev(x, 0, 40);
    NdArrayView<uint64_t> a(x), b(y);
    for (int64_t i = 0; i < n; i++) {
      uint64_t w = a[i] & ~((uint64_t(1) << 40) - 1);
      for (int k = 0; k < 40; k++) { if (a[i] >> k & 1) { w |= uint64_t(1) << (39 - k); } }
      if (b[i] != w) { bad++; }
    }
  }
  return bad ? 1 : 0;
}
'''
