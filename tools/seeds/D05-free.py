PROP = 'D05'
NEEDS = 'a share is negated in a computation with three or more parties'
BREAKS = 'negating a share, declared free, passes the shares around the ring of parties first'
EDITS = [('src/libspu/mpc/semi2k/arithmetic.cc', '''  auto res = ring_neg(in);
  return res.as(in.eltype());''', '''  auto* comm = ctx->getState<Communicator>();
  auto res = ring_neg(comm->getWorldSize() > 2 ? comm->rotate(in, "neg") : in);
  return res.as(in.eltype());''')]
UNITS = SEMI
MAIN = HEAD % 'semi2k' + '''
int main() { return run(3, ProtocolKind::SEMI2K, FieldType::FM64, regSemi2kProtocol, [](SPUContext* ctx, const std::shared_ptr<yacl::link::Context>& l) {
  auto p = rand_p(ctx, {7}); auto s = p2s(ctx, p);
  size_t a = l->GetStats()->sent_actions; auto n = negate_s(ctx, s); CHECK(l->GetStats()->sent_actions == a);
  CHECK(same(s2p(ctx, n), negate_p(ctx, p)));
}); }
'''
