PROP = 'D16'
NEEDS = 'a forked PRSS state in a protocol with three or more parties (with two parties the neighbours coincide)'
BREAKS = 'the forked seeds are exchanged between own and next, so what a party draws as its next neighbour\'s stream is not what that neighbour draws as its own'
EDITS = [('src/libspu/mpc/common/prg_state.cc', '''  fillPrssPair(&new_prg->self_seed_, &new_prg->next_seed_, 1,
               PrgState::GenPrssCtrl::Both);
''', '''  uint128_t seeds[2];
  fillPrssPair(&seeds[0], &seeds[1], 1, PrgState::GenPrssCtrl::Both);
  new_prg->next_seed_ = seeds[0];
  new_prg->self_seed_ = seeds[1];
''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
#include <cstring>
#include <mutex>
#include "libspu/mpc/common/prg_state.h"
int main() {
  static NdArrayRef mine[2][3], next[2][3];
  static std::mutex m;
  try { utils::simulate(3, [&](const std::shared_ptr<yacl::link::Context>& l) {
    PrgState s(l);
    auto f = s.fork();
    auto* g = dynamic_cast<PrgState*>(f.get());
    auto a = s.genPrssPair(FM64, {5}, PrgState::GenPrssCtrl::Both), b = g->genPrssPair(FM64, {5}, PrgState::GenPrssCtrl::Both);
    std::lock_guard<std::mutex> k(m);
    mine[0][l->Rank()] = a.first; next[0][l->Rank()] = a.second; mine[1][l->Rank()] = b.first; next[1][l->Rank()] = b.second;
  }); } catch (const std::exception& e) { std::printf("EXCEPTION %.200s\\n", e.what()); bad++; }
  for (int w = 0; w < 2; ++w) for (int i = 0; i < 3; ++i) CHECK(ring_all_equal(next[w][i], mine[w][(i + 1) % 3]));
  std::printf("%s\\n", bad ? "BROKEN" : "ok"); std::fflush(stdout); std::_Exit(bad ? 1 : 0);
}
'''
