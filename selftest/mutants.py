"""(property, file, old text, new text[, expected exit code]) — 0 marks an edit that keeps the behaviour"""
L = 'src/libspu/'
M = [
    ('D01', L + 'mpc/semi2k/protocol.cc', 'semi2k::RShiftB, ', ''),
    ('D01', L + 'mpc/api.cc', 'Value v2p(SPUContext* ctx, const Value& x) { FORCE_DISPATCH(ctx, x); }', 'Value v2p(SPUContext* ctx, const Value& x) { FORCE_NAMED_DISPATCH(ctx, "v2pp", x); }'),
    ('D01', L + 'mpc/kernel.cc', 'auto z = proc(ctx, UnwrapValue(lhs), UnwrapValue(rhs));', 'auto z = proc(ctx, UnwrapValue(rhs), UnwrapValue(lhs));'),
    ('D01', L + 'mpc/kernel.cc', 'const auto rank = ctx->getParam<size_t>(1);', 'const auto rank = ctx->getParam<int64_t>(1);'),
    ('D01', L + 'mpc/api.cc', 'dynDispatch<Type>(ctx, __func__, a, b);', 'dynDispatch<Type>(ctx, __func__, b, a);'),
    ('D01', L + 'mpc/kernel.cc', 'auto z = proc(ctx, UnwrapValue(lhs), UnwrapValue(rhs));\n', 'NdArrayRef z; z = proc(ctx, lhs.data(), rhs.data());\n', 0),
    ('D02', L + 'kernel/hal/ring.cc', 'return _trunc_v(', 'return _trunc_p('),
    ('D02', L + 'mpc/api.cc', 'return and_bb(ctx, _2b(ctx, x), _2b(ctx, y));', 'return and_bb(ctx, _2b(ctx, x), y);'),
    ('D02', L + 'mpc/api.cc', '  if (hasSameOwner(x, y)) {\n    FORCE_NAMED_DISPATCH(ctx, "mul_vvv", x, y);\n  } else {', '  {\n    FORCE_NAMED_DISPATCH(ctx, "mul_vvv", x, y);\n  }\n  {'),
    ('D02', L + 'kernel/hal/soprf.cc', '    inp = _v2s(ctx, x);\n  }\n\n  auto ret', '    inp = x;\n  }\n\n  auto ret'),
    ('D03', L + 'kernel/hal/permute.cc', 'auto m = _s2p(ctx, sp);\n', 'auto m = _s2p(ctx, perm);\n'),
    ('D03', L + 'kernel/hal/permute.cc', 'inp.push_back(_perm_ss(ctx, input, rand_perm).setDtype(input.dtype()));', 'inp.push_back(input);'),
    ('D03', L + 'kernel/hlo/indexing.cc', '      auto v_idx = idx.value();\n      start', '      auto v_idx = idx.value();\n      if (v_idx.isSecret()) v_idx = hal::reveal(ctx, v_idx);\n      start'),
    ('D03', L + 'kernel/hlo/casting.cc', 'if (dst_vtype == VIS_PUBLIC)', 'if (dst_vtype != VIS_SECRET)'),
    ('D03', L + 'kernel/hal/group_by_agg.cc', 'if (unsafe_drop_rest) {\n    auto group_dtype', 'if (payloads.size() > 1) {\n    auto group_dtype'),
    ('D03', L + 'kernel/hal/ring.cc', 'return _v2s(ctx, x);\n  } else if (x.isSecret() && to.isa<Secret>())', 'return _v2p(ctx, x);\n  } else if (x.isSecret() && to.isa<Secret>())'),
    ('D03', L + 'mpc/api.cc', 'return mul_ss(ctx, v2s(ctx, x), v2s(ctx, y));', 'return mul_vp(ctx, x, v2p(ctx, y));'),
    ('D03', L + 'kernel/hlo/control_flow.cc', '#define ENABLE_DEBUG_ONLY_REVEAL_SECRET_CONDITION false', '#define ENABLE_DEBUG_ONLY_REVEAL_SECRET_CONDITION true'),
    ('D04', L + 'mpc/securenn/arithmetic.cc', '      comm->sendAsync(0, adjust2, "adjust2");', '      // gone'),
    ('D04', L + 'mpc/aby3/conversion.cc', 'comm->sendAsync<ashr_el_t>(0, x_plus_r_0,', 'comm->sendAsync<ashr_el_t>(1, x_plus_r_0,'),
    ('D04', L + 'mpc/aby3/oram.cc', 'comm->sendAsync<uint128_t>(dst_rank, {aes_key}, "aes_key");', 'if (ctx->lctx()) comm->sendAsync<uint128_t>(comm->nextRank(), {aes_key}, "aes_key");'),
    ('D04', L + 'mpc/cheetah/nonlinear/compare_prot.cc', 'basic_ot_prot_->GetReceiverCOT()->RecvCMCC(absl::MakeSpan(digits), radix,', 'basic_ot_prot_->GetReceiverCOT()->RecvCMCC(absl::MakeSpan(digits), radix / 2,'),
    ('D04', L + 'mpc/common/prg_state.cc', 'lctx->SendAsync(lctx->PrevRank(),', 'lctx->SendAsync(lctx->NextRank(),'),
    ('D05', L + 'mpc/semi2k/arithmetic.cc', '  auto res = ring_neg(in);\n', '  auto res = ring_neg(ctx->getState<Communicator>()->rotate(in, "x"));\n'),
    ('D06', L + 'kernel/hal/fxp_base.cc', 'return _trunc(ctx, _mmul(ctx, x, y)).setDtype', 'return _mmul(ctx, x, y).setDtype'),
    ('D06', L + 'kernel/hal/polymorphic.cc', '    auto xx = dtype_cast(ctx, x, y.dtype());\n    return fn_fxp(ctx, xx, y,', '    return fn_fxp(ctx, x, y,'),
    ('D06', L + 'kernel/hal/type_cast.cc', 'return _lshift(ctx, x, {static_cast<int64_t>(ctx->getFxpBits())})\n      .setDtype(to_type);', 'return Value(x.data(), to_type);'),
    ('D06', L + 'kernel/hal/fxp_base.cc', 'Value res = _mul(ctx, constant(ctx, 1.0F, x.dtype(), x.shape()), coeffs[0]);', 'Value res = coeffs[0];'),
    ('D06', L + 'kernel/hal/polymorphic.cc', 'return _mul(ctx, x, y).setDtype(new_dtype);', 'return _trunc(ctx, _mul(ctx, x, y)).setDtype(new_dtype);'),
    ('D06', L + 'kernel/hal/polymorphic.cc', 'auto new_dtype = x.isFxp() ? x.dtype() : y.dtype();\n  return _mmul', 'auto new_dtype = x.isFxp() ? y.dtype() : x.dtype();\n  return _mmul'),
    ('D06', L + 'kernel/hal/fxp_base.cc', 'r = f_mul(ctx, r, a, a_sign);', 'r = _mul(ctx, r, a).setDtype(a.dtype());'),
    ('D06', L + 'kernel/hal/fxp_base.cc', 'return _equal(ctx, x, y).setDtype(DT_I1);', 'return _equal(ctx, x, y).setDtype(x.dtype());'),
    ('D06', L + 'kernel/hal/fxp_approx.cc', 'f_add(', 'f_add(', 0),
    ('D06', L + 'kernel/hal/fxp_base.cc', '_trunc(ctx, _mul(ctx, x, y), ctx->getFxpBits(), sign)', '_trunc(ctx, _mul(ctx, x, y), ctx->getFxpBits() - 1, sign)'),
    ('D07', L + 'mpc/aby3/arithmetic.cc', '    auto x1 = getFirstShare(x);\n    auto x2 = getSecondShare(x);\n\n    auto y1 = getFirstShare(y);\n    auto y2 = getSecondShare(y);\n    // z1 := x1*y1 + x1*y2 + x2*y1 + k1', '    auto x1 = getFirstShare(x);\n    auto x2 = getSecondShare(x);\n    prg_state->genPriv(field, {M, N});\n    auto y1 = getFirstShare(y);\n    auto y2 = getSecondShare(y);\n    // z1 := x1*y1 + x1*y2 + x2*y1 + k1'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    ring2k_t t; pforeach(0, numel, [&](int64_t idx) { t = _x[idx] * y; _ret[idx] = t; });'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    pforeach(0, numel, [&](int64_t idx) { ring2k_t t; auto j = idx; t = _x[j] * y; auto& o = _ret[j]; o = t; });', 0),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    std::vector<ring2k_t> b; pforeach(0, numel, [&](int64_t idx) { b.push_back(_x[idx]); _ret[idx] = _x[idx] * y; });'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; if (idx > 0) _ret[idx] += _ret[idx - 1]; });'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx >> 1] += _x[idx] * y; });'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    ring2k_t acc = 0; auto f = [&](int64_t i) { acc += _x[i]; return _x[i]; }; pforeach(0, numel, [&](int64_t idx) { _ret[idx] = f(idx) * y; });'),
    ('D07', L + 'mpc/utils/ring_ops.cc', '    pforeach(0, numel, [&](int64_t idx) { _ret[idx] = _x[idx] * y; });', '    yacl::parallel_for(0, numel, [&](int64_t b, int64_t e) { for (int64_t i = b; i < e; i++) { _ret[i] = _x[i] * y; } });', 0),
    ('D08', L + 'mpc/common/communicator.cc', '  const auto array = getOrCreateCompactArray(in);', '  const auto& array = in;'),
    ('D08', L + 'mpc/common/communicator.cc', '  if (!in.isCompact()) {\n    return in.clone();\n  }\n\n  return in;', '  return in;'),
    ('D08', L + 'mpc/common/communicator.cc', '  if (!in.isCompact()) {\n    return in.clone();\n  }\n\n  return in;', '  return in.isCompact() ? in : in.clone();', 0),
    ('D08', L + 'mpc/common/communicator.cc', '  if (!in.isCompact()) {\n    return in.clone();\n  }\n\n  return in;', '  NdArrayRef x = in; if (not in.isCompact()) { x = in.clone(); } return x;', 0),
    ('D08', L + 'core/value.cc', '    if (a.isCompact()) {', '    if (a.numel() > 0) {'),
    ('D08', L + 'core/ndarray_ref.cc', '  return NdArrayRef{buf(), eltype(), ret_shape, ret_strides, offset()};', '  return NdArrayRef{buf(), eltype(), ret_shape, ret_strides, 0};'),
    ('D08', L + 'mpc/aby3/value.cc', '        in.buf(), ty, in.shape(), new_strides,\n        in.offset() + share_idx', '        in.buf(), ty, in.shape(), makeCompactStrides(in.shape()),\n        in.offset() + share_idx'),
    ('D08', L + 'mpc/common/communicator.cc', 'in.shape(), makeCompactStrides(in.shape()), kOffset);\n    if (op', 'in.shape(), in.strides(), kOffset);\n    if (op'),
    ('D08', L + 'mpc/spdz2k/beaver/beaver_tinyot.cc', 'auto t = voleRecv(field, alpha_ext);', 'auto t = voleRecv(field, alpha_col);'),
    ('D08', L + 'kernel/hal/ring.cc', '      if (block.data().isCompact()) {', '      if (block.numel() > 1) {'),
    ('D09', L + 'mpc/semi2k/arithmetic.cc', '  // Open x-a\n  NdArrayRef x_a;\n\n  if (x_cache', '  if (ring_all_equal(x, ring_zeros(field, x.shape()))) { return x; }\n  // Open x-a\n  NdArrayRef x_a;\n\n  if (x_cache'),
    ('D09', L + 'mpc/aby3/arithmetic.cc', '    r1 = comm->rotate<el_t>(r0, "mulaa");  // comm => 1, k', '    bool nz = false; for (auto v : r0) { if (v != 0) { nz = true; } }\n    if (nz) { r1 = comm->rotate<el_t>(r0, "mulaa"); }'),
    ('D09', L + 'mpc/aby3/arithmetic.cc', '    r1 = comm->rotate<el_t>(r0, "mulaa");  // comm => 1, k', '    if (std::any_of(r0.begin(), r0.end(), [](el_t v) { return v != 0; })) { r1 = comm->rotate<el_t>(r0, "mulaa"); }'),
    ('D09', L + 'mpc/aby3/arithmetic.cc', '    r1 = comm->rotate<el_t>(r0, "mulaa");  // comm => 1, k', '    SPU_ENFORCE(!r0.empty()); if (r0.size() > 0) { r1 = comm->rotate<el_t>(r0, "mulaa"); }', 0),
    ('D09', L + 'mpc/semi2k/arithmetic.cc', '    std::vector<ring2k_t> share(numel);\n    NdArrayView<ring2k_t> _in(in);\n    pforeach(0, numel, [&](int64_t idx) { share[idx] = _in[idx]; });', '    std::vector<ring2k_t> share;\n    NdArrayView<ring2k_t> _in(in);\n    for (int64_t idx = 0; idx < numel; idx++) { if (_in[idx] != 0) share.push_back(_in[idx]); }'),
    ('D09', L + 'mpc/semi2k/arithmetic.cc', '    std::vector<ring2k_t> share(numel);\n    NdArrayView<ring2k_t> _in(in);\n    pforeach(0, numel, [&](int64_t idx) { share[idx] = _in[idx]; });', '    int64_t last = 0; NdArrayView<ring2k_t> _in(in); for (int64_t i = 0; i < numel; i++) { if (_in[i] != 0) last = i + 1; }\n    std::vector<ring2k_t> share(last);\n    for (int64_t i = 0; i < last; i++) share[i] = _in[i];'),
    ('D09', L + 'mpc/semi2k/arithmetic.cc', '    std::vector<ring2k_t> share(numel);\n    NdArrayView<ring2k_t> _in(in);\n    pforeach(0, numel, [&](int64_t idx) { share[idx] = _in[idx]; });', '    std::vector<ring2k_t> share;\n    NdArrayView<ring2k_t> _in(in);\n    share.reserve(numel); for (int64_t idx = 0; idx < numel; idx++) { share.push_back(_in[idx]); }', 0),
    ('D09', L + 'mpc/aby3/arithmetic.cc', '      comm->sendAsync((sender1 + 1) % 3, c1, "ABY3-MUL-R1C1");  // 1k', '      if (!ring_all_equal(c1, ring_zeros(field, c1.shape()))) comm->sendAsync((sender1 + 1) % 3, c1, "ABY3-MUL-R1C1");'),
    ('D09', L + 'kernel/hal/public_helper.cc', '  SPU_ENFORCE(v.storage_type().isa<mpc::Pub2kTy>(), "got {}", v.storage_type());\n', ''),
    ('D09', L + 'kernel/hal/fxp_cleartext.cc', '  SPU_ENFORCE(in.isPublic(), ', '  SPU_ENFORCE(in.isFxp(), '),
    ('D10', L + 'mpc/semi2k/arithmetic.cc', '  auto res = ring_neg(in);', '  auto res = in; ring_neg_(res);'),
    ('D10', L + 'mpc/semi2k/arithmetic.cc', '  auto res = ring_neg(in);', '  auto res = in.clone(); ring_neg_(res);', 0),
    ('D10', L + 'mpc/spdz2k/beaver/trusted_party.cc', 'auto t_rs = rs[0].clone();', 'auto t_rs = rs[0];'),
    ('D10', L + 'kernel/hal/permute.cc', '      casted = input.clone();', '      casted = input;'),
    ('D10', L + 'mpc/cheetah/permute.cc', '  NdArrayRef out = in.clone();', '  NdArrayRef out = in;'),
    ('D10', L + 'mpc/aby3/arithmetic.cc', '    NdArrayRef out(makeType<AShrTy>(field), lhs.shape());\n    NdArrayView<shr_t> _out(out);\n    NdArrayView<shr_t> _lhs(lhs);\n    NdArrayView<el_t> _rhs(rhs);\n\n    pforeach', '    NdArrayRef out = lhs.as(makeType<AShrTy>(field));\n    NdArrayView<shr_t> _out(out);\n    NdArrayView<shr_t> _lhs(lhs);\n    NdArrayView<el_t> _rhs(rhs);\n\n    pforeach'),
    ('D10', L + 'mpc/semi2k/arithmetic.cc', '  auto z = ring_add(ring_mul(ring_mul(std::move(a), x_a), 2), b);', '  auto z = ring_add(ring_mul(ring_mul(std::move(x_a), a), 2), b);', 0),
    ('D10', L + 'mpc/utils/lowmc.cc', '  auto c = ciphertext.clone();', '  auto c = ciphertext.as(ciphertext.eltype());'),
    ('D11', L + 'mpc/semi2k/arithmetic.cc', '  if (comm->getRank() == 0) {\n    return ring_add(lhs, rhs).as(lhs.eltype());\n  }\n\n  return lhs;', '  return ring_add(lhs, rhs).as(lhs.eltype());'),
    ('D11', L + 'mpc/semi2k/arithmetic.cc', '  if (comm->getRank() == 0) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);', '  if (comm->getRank() != 0) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);'),
    ('D11', L + 'mpc/semi2k/arithmetic.cc', '  if (comm->getRank() == 0) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);', '  const bool last = comm->getRank() + 1 == comm->getWorldSize();\n  if (last) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);', 0),
    ('D11', L + 'mpc/semi2k/arithmetic.cc', '  if (comm->getRank() == 0) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);', '  if (comm->getRank() == 2) {\n    // z += (X-A) * (Y-B);\n    ring_mul_(x_a, y_b);'),
    ('D11', L + 'mpc/aby3/arithmetic.cc', '      if (rank == 1) _out[idx][0] += _rhs[idx];', '      if (rank == 2) _out[idx][0] += _rhs[idx];'),
    ('D11', L + 'mpc/aby3/arithmetic.cc', '      _out[idx][1] = rank == 2 ? _in[idx] : 0;', '      _out[idx][1] = rank == 1 ? _in[idx] : 0;'),
    ('D11', L + 'mpc/semi2k/boolean.cc', '  if (comm->getRank() == 0) {\n    return makeBShare(ring_xor(lhs, rhs), field, out_nbits);', '  if (comm->getRank() <= 1) {\n    return makeBShare(ring_xor(lhs, rhs), field, out_nbits);'),
    ('D11', L + 'mpc/spdz2k/arithmetic.cc', '  auto z_mac = ring_add(x_mac, ring_mul(t_rhs, key));\n\n  return makeAShare(z, z_mac, field);\n}\n\nNdArrayRef AddAA', '  auto z_mac = ring_add(x_mac, t_rhs);\n\n  return makeAShare(z, z_mac, field);\n}\n\nNdArrayRef AddAA'),
    ('D11', L + 'mpc/semi2k/conversion.cc', '  if (rank == 0) {\n    out = ring_sub(lhs, rhs);\n  } else {\n    out = lhs;\n  };', '  out = ring_sub(lhs, rhs);'),
    ('D11', L + 'mpc/semi2k/conversion.cc', "            _res[idx] += ((1 - c_i * 2) * _randbits[idx * nbits + bit]) << bit;", "            _res[idx] += (c_i + (1 - c_i * 2) * _randbits[idx * nbits + bit]) << bit;"),
    ('D11', L + 'mpc/aby3/boolean.cc', '          _out[idx][1] = static_cast<bshr_el_t>(_in[idx]);\n        }', '          _out[idx][1] = 0U;\n        }'),
    ('D11', L + 'mpc/semi2k/conversion.cc', '      if (comm->getRank() == pivot) {\n        ring_xor_(rb, c_p);\n        ring_not_(rb);\n      }', '      ring_not_(rb);\n      if (comm->getRank() == pivot) {\n        ring_xor_(rb, c_p);\n      }'),
    ('D12', L + 'kernel/hal/polymorphic.cc', '  return less(ctx, y, x);', '  return less(ctx, x, y);'),
    ('D12', L + 'kernel/hal/ring.cc', '                      _mmul_vp(ctx, _transpose(ctx, y), _transpose(ctx, x)));', '                      _mmul_vp(ctx, _transpose(ctx, x), _transpose(ctx, y)));'),
    ('D12', L + 'kernel/hal/ring.cc', '  return _mux(ctx, _less(ctx, res, maxv), res, maxv);', '  return _mux(ctx, _less(ctx, x, maxv), x, maxv);'),
    ('D12', L + 'kernel/hal/ring.cc', '  return _xor(ctx, x, _xor(ctx, y, _and(ctx, x, y)));', '  return _xor(ctx, x, _and(ctx, y, _not(ctx, x)));', 0),
    ('D12', L + 'kernel/hal/ring.cc', '  return _xor(ctx, x, _xor(ctx, y, _and(ctx, x, y)));', '  return _xor(ctx, x, y);'),
    ('D12', L + 'kernel/hal/polymorphic.cc', '  return logical_not(ctx, less(ctx, x, y));', '  return less(ctx, y, x);'),
    ('D12', L + 'kernel/hal/polymorphic.cc', '  return min(ctx, max(ctx, minv, x), maxv);', '  return max(ctx, minv, min(ctx, x, maxv));', 0),
    ('D12', L + 'kernel/hal/polymorphic.cc', '  return select(ctx, less(ctx, x, y), x, y);', '  return select(ctx, greater_equal(ctx, x, y), y, x);', 0),
    ('D12', L + 'mpc/api.cc', '    auto k1 = make_p(ctx, 1, x.shape());\n    return add_sp(ctx, negate_s(ctx, x), negate_p(ctx, k1));', '    auto k1 = make_p(ctx, 1, x.shape());\n    return add_sp(ctx, negate_s(ctx, x), k1);'),
    ('D12', L + 'mpc/api.cc', 'Value square_p(SPUContext* ctx, const Value& x) { return mul_pp(ctx, x, x); }', 'Value square_p(SPUContext* ctx, const Value& x) { return add_pp(ctx, x, x); }'),
    ('D12', L + 'mpc/api.cc', 'if (IsB(x) && NBits(x) == 1 && IsB(y) && NBits(y) == 1) {', 'if (IsB(x) && NBits(x) == 1 && IsB(y)) {'),
    ('D12', L + 'kernel/hlo/basic_unary.cc', '        hal::zeros(ctx, s.dtype(), in.shape()), s);', '        s, hal::zeros(ctx, s.dtype(), in.shape()));'),
    ('D12', L + 'kernel/hlo/basic_binary.cc', 'SIMPLE_BINARY_KERNEL_DEFN(LessEqual, hal::less_equal)', 'SIMPLE_BINARY_KERNEL_DEFN(LessEqual, hal::less)'),
    ('D12', L + 'kernel/hal/fxp_cleartext.cc', '        *ptr_x = fn(*ptr_x, *ptr_y);', '        *ptr_x = fn(*ptr_y, *ptr_x);'),
    ('D12', L + 'kernel/hal/integer.cc', '  return _mul(ctx, _sign(ctx, x), x).setDtype(x.dtype());', '  return _mux(ctx, _msb(ctx, x), _negate(ctx, x), x).setDtype(x.dtype());', 0),
    ('D12', L + 'kernel/hal/integer.cc', '  return i_add(ctx, x, i_negate(ctx, y));', '  auto d = i_add(ctx, y, i_negate(ctx, x));\n  return i_negate(ctx, d);', 0),
    ('D12', L + 'kernel/hal/ring.cc', '              _xor(ctx, _less(ctx, y, x), _k1));', '              _xor(ctx, _less(ctx, x, y), _k1));'),
    ('D12', L + 'kernel/hal/ring.cc', '  // b + pred*(a-b)\n  return _add(ctx, b, _mul(ctx, pred, _sub(ctx, a, b)));', '  const auto one = _constant(ctx, 1, pred.shape());\n  return _add(ctx, _mul(ctx, pred, a), _mul(ctx, _sub(ctx, one, pred), b));', 0),
    ('D13', L + 'mpc/semi2k/arithmetic.cc', '    auto res = vmap({ring_sub(x, a), ring_sub(y, b)}, [&](const NdArrayRef& s) {\n      return comm->allReduce(ReduceOp::ADD, s, "open(x-a,y-b)");', '    auto res = vmap({x, y}, [&](const NdArrayRef& s) {\n      return comm->allReduce(ReduceOp::ADD, s, "open(x-a,y-b)");'),
    ('D13', L + 'mpc/semi2k/arithmetic.cc', '      y_b = comm->allReduce(ReduceOp::ADD, ring_sub(y, b), "open(y-b)");', '      y_b = comm->allReduce(ReduceOp::ADD, ring_sub(y, a), "open(y-b)");'),
    ('D13', L + 'mpc/aby3/arithmetic.cc', '                (_lhs[idx][1] * _rhs[idx][0]) + (r0[idx] - r1[idx]);', '                (_lhs[idx][1] * _rhs[idx][0]);'),
    ('D13', L + 'mpc/aby3/arithmetic.cc', '      const auto z1 = ring_sub(trunc_asym, r1);', '      const auto& z1 = trunc_asym;'),
    ('D13', L + 'mpc/cheetah/ot/basic_ot_prot.cc', '  auto yb = OpenShare(ring_xor(rhs, b), ReduceOp::XOR, nbits, conn_);', '  auto yb = OpenShare(ring_xor(rhs, a), ReduceOp::XOR, nbits, conn_);'),
    ('D13', L + 'mpc/cheetah/ot/basic_ot_prot.cc', '  auto y1b1 = OpenShare(ring_xor(rhs1, b1), ReduceOp::XOR, nbits, conn_);', '  auto y1b1 = OpenShare(rhs1, ReduceOp::XOR, nbits, conn_);'),
    ('D13', L + 'mpc/semi2k/permute.cc', 'wrap_a2v(ctx->sctx(), ring_sub(x, a).as(x.eltype()), perm_rank);', 'wrap_a2v(ctx->sctx(), x, perm_rank);'),
    ('D13', L + 'mpc/semi2k/conversion.cc', '      ReduceOp::XOR, wrap_add_bb(ctx->sctx(), x, r_b), kBindName());', '      ReduceOp::XOR, x, kBindName());'),
    ('D13', L + 'mpc/spdz2k/arithmetic.cc', '  auto f = ring_sub(y, b);\n', '  auto f = ring_sub(y, a);\n'),
    ('D13', L + 'mpc/semi2k/conversion.cc', '  auto r_v = prg_state->genPriv(field, x.shape());', '  auto r_v = prg_state->genPubl(field, x.shape());'),
    ('D13', L + 'mpc/aby3/arithmetic.cc', '                (_lhs[idx][1] * _rhs[idx][0]) + (r0[idx] - r1[idx]);', '                (_lhs[idx][1] * _rhs[idx][0]);\n      r0[idx] += (prg_state->genPriv(field, {1}).numel() - 1);', 1),
    ('D13', L + 'mpc/aby3/arithmetic.cc', '      r0[idx] = (_lhs[idx][0] * _rhs[idx][0]) + (_lhs[idx][0] * _rhs[idx][1]) +\n                (_lhs[idx][1] * _rhs[idx][0]) + (r0[idx] - r1[idx]);', '      const el_t zero = r0[idx] - r1[idx];\n      r0[idx] = zero;\n      r0[idx] += _lhs[idx][0] * (_rhs[idx][0] + _rhs[idx][1]);\n      r0[idx] += _lhs[idx][1] * _rhs[idx][0];', 0),
    ('D13', L + 'mpc/securenn/arithmetic.cc', '    auto send_x_a = ring_sub(x, a);\n', '    auto send_x_a = x;\n'),
    ('D13', L + 'mpc/securenn/arithmetic.cc', '        x_plus_r[idx] = x + _r[idx];', '        x_plus_r[idx] = x;'),
    ('D13', L + 'mpc/semi2k/permute.cc', '    po = applyInvPerm(perm, p);', '    po = perm;'),
    ('D14', L + 'mpc/utils/ring_ops.cc', '      mask = (U)1U << (high - low);', '      mask = 1U << (high - low);'),
    ('D14', L + 'mpc/semi2k/arithmetic.cc', '      auto ck_1 = c[idx] >> (k - 1);', '      auto ck_1 = c[idx] >> 63;'),
    ('D14', L + 'mpc/semi2k/arithmetic.cc', '      auto ck_1 = c[idx] >> (k - 1);', '      uint64_t ck_1 = c[idx] >> (k - 1);', 0),
    ('D14', L + 'kernel/hal/type_cast.cc', '_constant(ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());', '_constant(ctx, (1 << fxp_bits) - 1, x.shape());'),
    ('D14', L + 'mpc/utils/ring_ops.cc', '      U mask = 0U;\n', '      U mask = ((U)1 << end) - ((U)1 << start);\n'),
    ('D14', L + 'mpc/cheetah/arithmetic.cc', 'const u2k mask = (static_cast<u2k>(1) << shft) - 1;', 'const u2k mask = (uint64_t{1} << shft) - 1;'),
    ('D14', L + 'mpc/semi2k/arithmetic.cc', '        auto b = _rb[idx] + ck_1 - 2 * ck_1 * _rb[idx];', '        uint64_t b = _rb[idx] + ck_1 - 2 * ck_1 * _rb[idx];'),
    ('D14', L + 'mpc/semi2k/arithmetic.cc', '      auto ck_1 = c[idx] >> (k - 1);', '      const U top = c[idx] >> (k - 1);\n      const U ck_1 = top & 1;', 0),
    ('D14', L + 'mpc/utils/ring_ops.cc', '      mask = (U)1U << (high - low);', '      const size_t len = high - low;\n      mask = static_cast<U>(1) << len;', 0),
    ('D14', L + 'mpc/aby3/arithmetic.cc', '      r0[idx] = (_lhs[idx][0] * _rhs[idx][0]) + (_lhs[idx][0] * _rhs[idx][1]) +\n', '      const uint64_t x0 = _lhs[idx][0];\n      r0[idx] = (x0 * _rhs[idx][0]) + (_lhs[idx][0] * _rhs[idx][1]) +\n'),
    # D15 locks
    ('D15', L + 'device/executor.cc', '  std::shared_lock<std::shared_mutex> lk(mu_);\n  return hasValueUnsafe(key);', '  return hasValueUnsafe(key);'),
    ('D15', L + 'device/executor.cc', '  std::lock_guard<std::shared_mutex> lk(mu_);\n  symbols_[key] = val;', '  std::shared_lock<std::shared_mutex> lk(mu_);\n  symbols_[key] = val;'),
    ('D15', L + 'device/executor.cc', '    return parent_->hasValue(key);', '    return parent_->hasValueUnsafe(key);'),
    ('D15', L + 'device/executor.cc', '    std::unique_lock lk(event_->mutex);\n    event_->cv.notify_all();', '    event_->cv.notify_all();'),
    ('D15', L + 'device/executor.cc', '    event_->cv.notify_all();', '    event_->cv.notify_one();'),
    ('D15', L + 'device/executor.cc', '      event_->cv.wait(lk, [this] { return ready(); });', '      if (!ready()) event_->cv.wait(lk);'),
    ('D15', L + 'device/executor.cc', '      event_->cv.wait(lk, [this] { return ready(); });', '      while (!ready()) event_->cv.wait(lk);', 0),
    ('D15', L + 'device/executor.cc', '      auto op = std::move(task_queue_.front());\n      task_queue_.pop();\n      queue_lock.unlock();', '      queue_lock.unlock();\n      auto op = std::move(task_queue_.front());\n      task_queue_.pop();'),
    ('D15', L + 'device/executor.cc', '      op.run(opts_);\n      queue_lock.lock();', '      op.run(opts_);'),
    ('D15', L + 'mpc/semi2k/beaver/beaver_cache.cc', '  std::unique_lock lock(mutex_);\n  if (cache_meta_.find(x.buf()->data()) != cache_meta_.end()) {\n    return;\n  }\n', '  {\n    std::shared_lock lock(mutex_);\n    if (cache_meta_.find(x.buf()->data()) != cache_meta_.end()) {\n      return;\n    }\n  }\n'),
    ('D15', L + 'mpc/semi2k/beaver/beaver_cache.cc', '  std::unique_lock lock(mutex_);\n\n  const auto cit = cache_meta_.find(x.buf()->data());\n  if (cit', '  const auto cit = cache_meta_.find(x.buf()->data());\n  std::unique_lock lock(mutex_);\n  if (cit'),
    ('D15', L + 'mpc/semi2k/beaver/beaver_cache.cc', '  std::call_once(db_lazy_once_flag_, [&]() {', '  if (db_ == nullptr) std::call_once(db_lazy_once_flag_, [&]() {'),
    ('D15', L + 'mpc/semi2k/beaver/beaver_cache.cc', '  LazyInitCacheDB();\n  std::unique_lock lock(mutex_);\n', '  std::unique_lock lock(mutex_);\n  LazyInitCacheDB();\n', 0),
    ('D15', L + 'mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc', '      std::unique_lock lk(lock_);\n      cond_.wait(lk, [this] { return read_status_.has_value(); });', '      std::unique_lock lk(lock_);\n      if (!read_status_.has_value()) cond_.wait(lk);'),
    ('D15', L + 'mpc/cheetah/state.h', '    std::lock_guard guard(lock_);\n    if (basic_ot_prot_[idx]) {\n      return;\n    }', '    if (basic_ot_prot_[idx]) {\n      return;\n    }\n    std::lock_guard guard(lock_);'),
    ('D15', L + 'mpc/cheetah/state.cc', '  std::unique_lock guard(lock_);\n  makeSureCacheSize(field, numel);', '  makeSureCacheSize(field, numel);\n  std::unique_lock guard(lock_);'),
    ('D15', L + 'mpc/cheetah/arith/common.cc', '  std::scoped_lock guard(counter_lock_);\n', '  std::scoped_lock(counter_lock_);\n'),
    ('D15', L + 'mpc/cheetah/arith/common.cc', '  std::scoped_lock guard(counter_lock_);\n  if (prng_counter_ > kPRNG_THREASHOLD) {', '  if (prng_counter_ > kPRNG_THREASHOLD) {\n    std::scoped_lock guard(counter_lock_);'),
    ('D15', L + 'mpc/spdz2k/beaver/trusted_party.cc', '  std::unique_lock lock(seeds_mutex_);', ''),
    ('D15', L + 'core/type.h', '    std::unique_lock<std::mutex> lock(creator_mutex_);\n    auto fctor', '    auto fctor'),
    ('D15', L + 'core/trace.h', '    std::unique_lock lk(mutex_);\n    records_.push_back(std::move(rec));', '    records_.push_back(std::move(rec));'),
    ('D15', L + 'core/trace.cc', '  std::unique_lock lock(g_tracer_map_mutex);\n  auto itr', '  auto itr'),
    ('D15', L + 'core/trace.cc', '  std::unique_lock lock(g_trace_flags_map_mutex);\n  return g_trace_flags[id];', '  std::unique_lock lock(g_trace_flags_map_mutex);\n  { std::unique_lock l2(g_tracer_map_mutex); }\n  return g_trace_flags[id];'),
    ('D15', L + 'core/trace.cc', '  std::call_once(flag, [&]() {\n    for (size_t idx = 0; idx < kMaxIndent; idx++) {\n      cache[idx] = std::string(idx * 2, \' \');\n    }\n  });', '  static bool done = false;\n  if (!done) {\n    for (size_t idx = 0; idx < kMaxIndent; idx++) {\n      cache[idx] = std::string(idx * 2, \' \');\n    }\n    done = true;\n  }'),
    ('D15', L + 'core/trace.cc', '  static std::atomic<int64_t> s_counter = 0;', '  static int64_t s_counter = 0;'),
    ('D15', L + 'core/trace.cc', '    std::unique_lock lock(g_trace_flags_map_mutex);\n    g_trace_flags[ctx_id] = tr_flag;', '    const std::lock_guard<std::mutex> guard(g_trace_flags_map_mutex);\n    auto& slot = g_trace_flags[ctx_id];\n    slot = tr_flag;', 0),
    ('D15', L + 'mpc/semi2k/conversion.cc', 'NdArrayRef A2B::proc(KernelEvalContext* ctx, const NdArrayRef& x) const {\n', 'NdArrayRef A2B::proc(KernelEvalContext* ctx, const NdArrayRef& x) const {\n  static int64_t last_numel = 0;\n  last_numel = x.numel();\n'),
    ('D15', L + 'device/executor.cc', '      if (threads_[i].joinable()) {\n        threads_[i].join();\n      }', '      (void)i;'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'STANDARD_BINARY_OP_EXEC_IMPL(MaxOp, Max)', 'STANDARD_BINARY_OP_EXEC_IMPL(MaxOp, Min)'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'STANDARD_UNARY_OP_EXEC_IMPL(RoundOp, Round_AFZ)', 'STANDARD_UNARY_OP_EXEC_IMPL(RoundOp, Round_RNTE)'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'kernel::hlo::Clamp(sctx, lookupValue(sscope, op.getOperand(), opts),\n                              lookupValue(sscope, op.getMin(), opts),\n                              lookupValue(sscope, op.getMax(), opts))', 'kernel::hlo::Clamp(sctx, lookupValue(sscope, op.getOperand(), opts),\n                              lookupValue(sscope, op.getMax(), opts),\n                              lookupValue(sscope, op.getMin(), opts))'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '  auto ret = kernel::hlo::Remainder(sctx, lhs, rhs);', '  auto ret = kernel::hlo::Remainder(sctx, rhs, lhs);'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '      config.outputBatchDimension = dnums.getOutputBatchDimension();\n      config.outputFeatureDimension = dnums.getOutputFeatureDimension();', '      config.outputBatchDimension = dnums.getInputBatchDimension();\n      config.outputFeatureDimension = dnums.getOutputFeatureDimension();'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'config.outputFeatureDimension = dnums.getOutputFeatureDimension() + 1;', 'config.outputFeatureDimension = dnums.getOutputFeatureDimension();'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'edge_padding_low,\n                            edge_padding_high, interior_padding)', 'edge_padding_high,\n                            edge_padding_low, interior_padding)'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'kernel::hlo::Sign(sctx, in, op.getIgnoreZero())', 'kernel::hlo::Sign(sctx, in)'),
    ('D17', L + 'device/executor.cc', '    sscope.addValue(blkarg, params[blkarg.getArgNumber()]);', '    sscope.addValue(blkarg, params[0]);'),
    ('D17', L + 'device/executor.cc', '  SymbolScope sscope(parent_scope);', '  SymbolScope sscope(nullptr);'),
    ('D17', L + 'device/executor.cc', '    return sscope_->hasValues(op_->getOperands()) &&\n', '    return sscope_->hasValues(op_->getOperands()) ||\n'),
    ('D17', L + 'device/executor.cc', '    if (op_->getNumOperands() > 0 || !extra_dependencies_.empty()) {', '    if (op_->getNumOperands() > 0) {'),
    ('D17', L + 'device/executor.cc', '  symbols_[key] = val;', '  symbols_.try_emplace(key, val);'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '        return it.isUnsigned() ? std::make_pair(spu::PT_U16, false)\n                               : std::make_pair(spu::PT_I16, false);', '        return it.isUnsigned() ? std::make_pair(spu::PT_I16, false)\n                               : std::make_pair(spu::PT_U16, false);'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '        return int_ty.isUnsigned() ? spu::DT_U32 : spu::DT_I32;', '        return spu::DT_I32;'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '      SPU_ENFORCE(!val.isComplex(), "Got type {}",', '      SPU_ENFORCE(true || !val.isComplex(), "Got type {}",'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', 'static_cast<float>(std::copysign(n, cValue)) / N,', 'static_cast<float>(n) / N,'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '      if (kv.isFxp() && fValue < eps && fValue > 0) {', '      if (fValue < eps && fValue > 0) {'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '    multiplier = op.getRhs();', '    multiplier = op.getLhs();'),
    ('D17', L + 'device/pphlo/pphlo_intrinsic_executor.cc', 'return kernel::hlo::TopK(ctx, inputs[0], k, k_hi, largest, value_only);', 'return kernel::hlo::TopK(ctx, inputs[0], k, k_hi, value_only, largest);'),
    ('D17', L + 'device/pphlo/pphlo_intrinsic_executor.cc', 'dynDispatch(ctx, "beaver_cache", inputs[0], false);', 'dynDispatch(ctx, "beaver_cache", inputs[0], true);'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '  addValue(sscope, op.getResult(1), ret.second, opts);', '  addValue(sscope, op.getResult(1), ret.first, opts);'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '  if (op.getSortDirection() == mlir::spu::pphlo::SortDirection::ASC) {', '  if (op.getSortDirection() != mlir::spu::pphlo::SortDirection::ASC) {'),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '        return runRegion(executor, sctx, sscope, op.getTrueBranch(), {});', '        return runRegion(executor, sctx, sscope, op.getFalseBranch(), {});'),
    ('D17', L + 'device/executor.cc', '                o.getDefiningOp()->getParentRegion() == current_region) {', '                current_region == o.getDefiningOp()->getParentRegion()) {', 0),
    ('D17', L + 'device/executor.cc', '              extra_dependencies_.emplace_back(o);', '              (void)o;'),
    ('D17', L + 'kernel/hlo/control_flow.cc', '          hal::select(ctx, condition, true_ret[idx], false_ret[idx]);', '          hal::select(ctx, condition, false_ret[idx], true_ret[idx]);'),
    ('D17', L + 'kernel/hlo/control_flow.cc', '    return (v ? on_true() : on_false());', '    return (v ? on_false() : on_true());'),
    ('D17', L + 'kernel/hlo/control_flow.cc', '    ret = body(ret);', '    ret = body(inputs);'),
    ('D17', L + 'device/api.cc', 'env->setVar(executable.output_names[idx], outputs[idx]);', 'env->setVar(executable.output_names[idx], outputs[outputs.size() - 1 - idx]);'),
    ('D17', L + 'device/api.cc', '      if (ir_version != getVersionStr()) {\n        SPU_THROW(', '      if (ir_version != getVersionStr()) {\n        SPDLOG_WARN('),
    ('D17', L + 'device/pphlo/pphlo_executor.cc', '  auto pred = lookupValue(sscope, op.getPred(), opts);\n\n  auto on_true = lookupValue(sscope, op.getOnTrue(), opts);', '  auto on_true = lookupValue(sscope, op.getOnTrue(), opts);\n  auto pred = lookupValue(sscope, op.getPred(), opts);', 0),
    ('D17', L + 'kernel/hlo/control_flow.cc', '    return (v ? on_true() : on_false());', '    if (!v) {\n      return on_false();\n    }\n    return on_true();', 0),
    ('D16', L + 'mpc/common/prg_state.cc', '  priv_counter_ = yacl::crypto::FillPRand(\n      kAesType, priv_seed_, 0, priv_counter_,', '  yacl::crypto::FillPRand(\n      kAesType, priv_seed_, 0, priv_counter_,'),
    ('D16', L + 'mpc/common/prg_state.cc', '      kAesType, priv_seed_, 0, priv_counter_,', '      kAesType, pub_seed_, 0, priv_counter_,'),
    ('D16', L + 'mpc/common/prg_state.h', '        r1_counter_ = yacl::crypto::FillPRand(\n            kAesType, next_seed_, 0, r1_counter_, absl::MakeSpan(r1, numel));\n        return;\n      }\n      case GenPrssCtrl::Both', '        r0_counter_ = yacl::crypto::FillPRand(\n            kAesType, next_seed_, 0, r1_counter_, absl::MakeSpan(r1, numel));\n        return;\n      }\n      case GenPrssCtrl::Both'),
    ('D16', L + 'mpc/common/prg_state.cc', 'genRandomPerm(numel, next_seed_, &r1_counter_)', 'genRandomPerm(numel, next_seed_, &r0_counter_)'),
    ('D16', L + 'mpc/common/prg_state.cc', 'fillPrssPair(&new_prg->self_seed_, &new_prg->next_seed_, 1,', 'fillPrssPair(&new_prg->next_seed_, &new_prg->self_seed_, 1,'),
    ('D16', L + 'mpc/common/prg_state.cc', '  new_prg->priv_seed_ = yacl::crypto::SecureRandSeed();', '  new_prg->priv_seed_ = priv_seed_;'),
    ('D16', L + 'mpc/common/prg_state.cc', 'lctx->SendAsync(lctx->PrevRank(),', 'lctx->SendAsync(lctx->NextRank(),'),
    ('D16', L + 'mpc/common/prg_tensor.h', '  if (desc != nullptr) {\n    *desc = {Shape(shape.begin(), shape.end()), field, *counter, eltype};\n  }\n  if (eltype == ElementType::kGfmp) {\n    return gfmp_rand(field, shape, seed, counter);\n  } else {\n    return ring_rand(field, shape, seed, counter);\n  }', '  auto res = eltype == ElementType::kGfmp\n                 ? gfmp_rand(field, shape, seed, counter)\n                 : ring_rand(field, shape, seed, counter);\n  if (desc != nullptr) {\n    *desc = {Shape(shape.begin(), shape.end()), field, *counter, eltype};\n  }\n  return res;'),
    ('D16', L + 'mpc/utils/ring_ops.cc', '  *prg_counter = yacl::crypto::FillPRand(', '  uint64_t next = yacl::crypto::FillPRand('),
    ('D16', L + 'mpc/utils/lowmc.cc', '  cnt_ = yacl::crypto::FillPRand(', '  yacl::crypto::FillPRand('),
    ('D16', L + 'mpc/cheetah/arith/common.cc', '    seed_ = yacl::crypto::SecureRandSeed();\n    prng_counter_ = 0;', '    prng_counter_ = 0;'),
    ('D16', L + 'mpc/securenn/boolean.cc', '        c = prg_state\n                ->genPrssPair(field, {numField}, PrgState::GenPrssCtrl::First)\n                .first;', '        c = prg_state\n                ->genPrssPair(field, {numField}, PrgState::GenPrssCtrl::Both)\n                .first;'),
    ('D16', L + 'mpc/aby3/ot.cc', 'inline bool inFrontOf(size_t a, size_t b) { return (a + 1) % 3 == b; }', 'inline bool inFrontOf(size_t a, size_t b) { return (b + 1) % 3 == a || a == 2; }'),
    ('D16', L + 'mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc', '  auto r = prgCreateArray(field, shape, seed_, &counter_, &ops[0].desc);', '  auto first = counter_;\n  auto r = prgCreateArray(field, shape, seed_, &first, &ops[0].desc);'),
    ('D16', L + 'mpc/spdz2k/ot/kos_ote.cc', 'ExtendBaseOt(base_ot, block_num, GenKosSharedSeed(ctx));\n\n  // Prepare for consistency check\n  std::array', 'ExtendBaseOt(base_ot, block_num, 0);\n\n  // Prepare for consistency check\n  std::array'),
    ('D16', L + 'mpc/common/prg_state.cc', 'return std::make_pair(r_self, r_next);', 'return std::make_pair(r_next, r_self);'),
    ('D16', L + 'mpc/common/prg_state.cc', 'return genRandomPerm(numel, priv_seed_, &priv_counter_);', 'return genRandomPerm(numel, pub_seed_, &pub_counter_);'),
    ('D16', L + 'mpc/common/prg_state.cc', '  priv_counter_ = yacl::crypto::FillPRand(\n      kAesType, priv_seed_, 0, priv_counter_,\n      absl::MakeSpan(res.data<char>(), res.buf()->size()));\n', '  const auto at = priv_counter_;\n  const auto next = yacl::crypto::FillPRand(\n      kAesType, priv_seed_, 0, at,\n      absl::MakeSpan(res.data<char>(), res.buf()->size()));\n  priv_counter_ = next;\n', 0),
    ('D16', L + 'mpc/common/prg_state.cc', '  auto new_prg = std::make_unique<PrgState>();', '  auto new_prg = std::make_unique<PrgState>(*this);\n  return new_prg;'),
    ('D16', L + 'mpc/common/prg_state.cc', '  fillPubl(absl::MakeSpan(&new_prg->pub_seed_, 1));\n', '  new_prg->pub_seed_ = pub_seed_ + 1;\n'),
    ('D18', L + 'spu.cc', 'dst.set_enable_pphlo_trace(src.enable_pphlo_trace);', 'dst.set_enable_pphlo_trace(src.enable_pphlo_profile);'),
    ('D18', L + 'spu.cc', 'dst.fxp_exp_iters = src.fxp_exp_iters();', 'dst.fxp_exp_iters = src.fxp_log_iters();'),
    ('D18', L + 'core/config.cc', 'cfg.fxp_log_iters = 3;', 'cfg.fxp_log_iters = 4;'),
    ('D18', L + 'core/config.cc', 'if (cfg.quick_sort_threshold == 0) {', 'if (cfg.quick_sort_threshold <= 32) {'),
    ('D18', L + 'core/config.cc', 'return 18;', 'return 16;'),
    ('D18', L + 'core/type.cc', 'return fmt::format("{}<{}>", model_->getId(), model_->toString());', 'return fmt::format("{}({})", model_->getId(), model_->toString());'),
    ('D18', L + 'core/type.cc', 'if (model_->getId() != other.model_->getId()) {', 'if (model_->size() != other.model_->size()) {'),
    ('D18', L + 'mpc/aby3/type.h', 'getBacktype() == derived_other->getBacktype() &&\n           ', ''),
    ('D18', L + 'mpc/semi2k/type.cc', 'auto field_str = detail.substr(0, comma);', 'auto field_str = detail.substr(0, comma + 1);'),
    ('D18', L + 'mpc/common/pv2k.cc', 'owner_ = std::stoll(std::string(owner_str));', '(void)owner_str;'),
    ('D18', L + 'core/value.cc', 'size_t offset = i * max_chunk_size;', 'size_t offset = i * chunk_size;'),
    ('D18', L + 'core/value.cc', 'chunk.set_total_bytes(size);', 'chunk.set_total_bytes(chunk_size);'),
    ('D18', L + 'core/value.cc', 'size_t num_chunks = (total + max_chunk_size - 1) / max_chunk_size;', 'size_t num_chunks = total / max_chunk_size;'),
    ('D18', L + 'core/value.cc', 'std::copy_n(value.chunks.begin() + n, n,', 'std::copy_n(value.chunks.begin(), n,'),
    ('D18', L + 'core/value.cc', 'proto.set_visibility(::spu::pb::Visibility(vtype()));', 'proto.set_visibility(::spu::pb::VIS_SECRET);'),
    ('D18', L + 'core/value.cc', 'build_chunk(copy.data(), copy.buf()->size(), num_chunks);', 'build_chunk(a.data(), copy.buf()->size(), num_chunks);'),
    ('D18', L + 'core/encoding.cc', 'const T kFxpLower = -(T)std::pow(2, k - 2);', 'const T kFxpLower = -(T)std::pow(2, k - 3);'),
    ('D18', L + 'core/encoding.cc', '_dst[idx] = kFxpUpper;', '_dst[idx] = 0;'),
    ('D18', L + 'core/encoding.cc', 'bool value = !((_src[idx] & 0x1) == 0);', 'bool value = !(_src[idx] == 0);'),
    ('D18', L + 'core/encoding.cc', 'static_cast<ScalarT>(static_cast<double>(_src[idx]) / kScale);', 'static_cast<ScalarT>(static_cast<double>(_src[idx]) / (kScale - 1));'),
    ('D18', L + 'core/encoding.h', 'FN(DT_U16, PT_U16)            \\', 'FN(DT_U16, PT_I16)            \\'),
    ('D18', L + 'core/type_util.h', 'FN(FM64, PT_U64)               \\', 'FN(FM64, PT_I64)               \\'),
    ('D18', L + 'core/type_util.h', 'FN(DT_I16, I16, 16)          \\', 'FN(DT_I16, I16, 32)          \\'),
    ('D18', L + 'spu.cc', 'disable_select_optimization == other.disable_select_optimization &&', 'true &&'),
    ('D18', L + 'spu.h', 'SORT_QUICK = 2,', 'SORT_QUICK = 3,'),
    ('D18', L + 'mpc/cheetah/type.h', 'static std::string_view getStaticId() { return "cheetah.BShr"; }', 'static std::string_view getStaticId() { return "cheetah.AShr"; }'),
    ('D19', L + 'mpc/aby3/io.cc', 'splits[(i + 1) % 3]', 'splits[(i + 2) % 3]'),
    ('D19', L + 'mpc/aby3/io.cc', '_s2[idx][1] = r0[idx] & 0x1;', '_s2[idx][1] = r1[idx] & 0x1;'),
    ('D19', L + 'mpc/aby3/io.cc', 'static_cast<bshr_el_t>(in.get<bool>(idx)) - r0[idx] - r1[idx];', 'static_cast<bshr_el_t>(in.get<bool>(idx)) - r0[idx] - r1[0];'),
    ('D19', L + 'mpc/aby3/io.cc', 'static_cast<bshr_el_t>(in.get<bool>(idx)) - r0[idx] - r1[idx];', 'static_cast<bshr_el_t>(in.get<bool>(idx)) ^ r0[idx] ^ r1[idx];', 0),
    ('D19', L + 'mpc/aby3/io.cc', 'yacl::crypto::PrgAesCtr(yacl::crypto::SecureRandSeed(), absl::MakeSpan(r1));', ''),
    ('D19', L + 'mpc/aby3/io.cc', 'owner_rank >= 0 && owner_rank <= 2) {\n      return', 'owner_rank > 0 && owner_rank <= 2) {\n      return'),
    ('D19', L + 'mpc/aby3/io.cc', 'return numel * type.size();', 'return numel * type.size() / 2;'),
    ('D19', L + 'mpc/securenn/io.cc', 'shares.emplace_back(ring_sub(splits[0], splits[0]).as(ty));', 'shares.emplace_back(splits[1].as(ty));'),
    ('D19', L + 'mpc/securenn/io.cc', 'shares.emplace_back(ring_sub(splits[0], splits[0]).as(ty));', 'shares.emplace_back(ring_zeros(field, raw.shape()).as(ty));', 0),
    ('D19', L + 'mpc/semi2k/io.cc', 'for (const auto& share : shares) {\n      if (eltype.isa<AShare>()) {\n        ring_add_(res, share);', 'for (const auto& share : shares) {\n      if (eltype.isa<AShare>()) {\n        ring_sub_(res, share);'),
    ('D19', L + 'mpc/semi2k/io.cc', 'if (idx == owner_rank) {', 'if (idx >= owner_rank) {'),
    ('D19', L + 'mpc/spdz2k/io.cc', 'const auto splits = ring_rand_additive_splits(x, world_size_);', 'const auto splits = ring_rand_additive_splits(raw, world_size_);'),
    ('D19', L + 'mpc/spdz2k/io.cc', 'ring_bitmask_(res, 0, SizeOf(field_) * 8);', 'ring_bitmask_(res, 0, SizeOf(field_) * 4);'),
    ('D19', L + 'mpc/experimental/swift/io.cc', '_out[idx] = _s1[idx][1] - _s0[idx][0] - _s0[idx][1];', '_out[idx] = _s1[idx][1] - _s0[idx][0] - _s1[idx][0];'),
    ('D19', L + 'mpc/experimental/swift/io.cc', 'makeAShare(split_alpha[0], split_alpha[1], gamma_plus_beta, field)', 'makeAShare(split_alpha[0], split_alpha[1], beta, field)'),
    ('D19', L + 'mpc/experimental/swift/io.cc', 'shares.push_back(makeAShare(split_alpha[1], beta, gamma, field));', 'shares.push_back(makeAShare(split_alpha[0], beta, gamma, field));'),
    ('D19', L + 'mpc/factory.cc', 'return securenn::makeSecurennIo(conf.field, npc);', 'return aby3::makeAby3Io(conf.field, npc);'),
    ('D19', L + 'mpc/factory.cc', 'return semi2k::makeSemi2kIo(conf.field, npc);', 'return semi2k::makeSemi2kIo(FM64, npc);'),
    ('D19', L + 'device/io.cc', 'result.emplace_back(r_shares[idx].data(), i_shares[idx].data(),', 'result.emplace_back(r_shares[idx].data(), r_shares[idx].data(),'),
    ('D19', L + 'device/io.cc', 'cols.push_back(rows[idx]);', 'cols.push_back(rows[0]);'),
    ('D19', L + 'device/io.cc', '  unsynced_.clear();\n', ''),
    ('D19', L + 'device/io.cc', 'symbols_.setVar(name, spu::Value::fromProto(proto));', 'if (!symbols_.hasVar(name)) {\n        symbols_.setVar(name, spu::Value::fromProto(proto));\n      }', 0),
    ('D19', L + 'device/io.cc', 'io.makeShares(bv, priv.vtype, priv.owner_rank);', 'io.makeShares(bv, VIS_SECRET, priv.owner_rank);'),
    ('D19', L + 'device/symbol_table.cc', 'data_[name] = val;', 'data_.emplace(name, val);'),
]
