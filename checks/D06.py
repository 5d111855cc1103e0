"""D06 fixed-point scale and element kind"""
import itertools, os
import scale as S
from visib import plain_val, is_val
from program import walk, show

RULE = 'scale inference: every tensor that is given an element type carries exactly one fixed-point scaling factor if that type is fixed-point and none if it is an integer; operands that are added, compared or selected between carry the same number'
EXPLAIN = ('Abstract interpretation of every function of the operator library over (element kind, number of scaling factors), for every combination of element kinds of its tensor and type parameters, '
           'inlining the library context-sensitively; ring primitives act on the factor count by a fixed table.')
ASSUME = ['ring primitives act on values as their names say (their lowering is the subject of other checks)', 'a plain literal ring constant is neutral when multiplied']


# reinterprets the ring element on purpose
REINTERPRET = {'bitcast', 'Bitcast', 'Popcnt', 'popcount'}


# element kind of the result, given those of the operands; every combination listed has to be computable
ANYF = lambda c: 'F' if 'F' in c else 'I'
RESULT = {}
for _n in 'add sub mul matmul tensordot conv2d div Add Sub Mul Div Dot'.split():
    RESULT[_n] = (2, ANYF)
for _n in 'equal not_equal less less_equal greater greater_equal Equal NotEqual Less LessEqual Greater GreaterEqual'.split():
    RESULT[_n] = (2, lambda c: 'I')
for _n in 'negate abs square Neg Abs'.split():
    RESULT[_n] = (1, lambda c: c[0])
for _n in 'sign Sign'.split():
    RESULT[_n] = (1, None)
for _n in 'max min Max Min'.split():
    RESULT[_n] = (2, lambda c: c[0] if c[0] == c[1] else None)
for _n in ('clamp', 'Clamp'):
    RESULT[_n] = (3, lambda c: c[0] if len(set(c)) == 1 else None)
for _n in 'exp log log1p reciprocal floor ceil log2 exp2 tanh sine cosine acos asin rsqrt sqrt logistic Exp Expm1 Log Log1p Reciprocal Floor Ceil Tanh Sine Cosine Acos Asin Rsqrt Sqrt Logistic'.split():
    RESULT[_n] = (1, lambda c: 'F' if c[0] == 'F' else None)
RESULT['select'] = RESULT['Select'] = (3, lambda c: c[1] if c[0] == 'I' and c[1] == c[2] else None)
RESULT['i_add'] = RESULT['i_mul'] = RESULT['i_mmul'] = RESULT['i_sub'] = RESULT['i_less'] = RESULT['i_equal'] = (2, lambda c: 'I' if 'F' not in c else None)
for _n in 'f_add f_sub f_mul f_mmul f_div'.split():
    RESULT[_n] = (2, lambda c: 'F' if 'I' not in c else None)
for _n in ('f_less', 'f_equal'):
    RESULT[_n] = (2, lambda c: 'I' if 'I' not in c else None)


def entries(P):
    for q in sorted(P.by_q):
        if not q.startswith(('spu::kernel::hal::', 'spu::kernel::hlo::')):
            continue
        for f in P.by_q[q]:
            if f.body is None or f.dep or not f.repo or f.name.startswith('_') or f.cls or '_test' in f.f or 'test_util' in f.f:
                continue
            if not (is_val(f.r) or any(is_val(t) for t in f.p)):
                continue
            if f.f.endswith('hal/ring.cc') or f.f.endswith('prot_wrapper.cc'):
                continue
            n = f.name
            if '(anon)' in q or '::detail::' in q or n in REINTERPRET or n.startswith('mixed_'):
                continue
            if '::hlo::' in q and not n[:1].isupper():
                continue
            yield f


def run(P, rep):
    n = 0
    decided, labels = set(), set()

    def report(ai, node, kind, msg):
        g = ai.fn
        chain = ' -> '.join(x.name for x in ai.chain[-4:] + [g]) if ai.chain else g.name
        found.append((f'{g.q}:{kind}:{msg}', f'{g.f}:{node[1]}', f'{msg} (via {chain}; operands {desc})'))
    ai = S.Scale(P, report)
    for f in entries(P):
        n += 1
        rep.fn(f)
        doms = []
        for t in f.p:
            if plain_val(t):
                doms.append([S.F1, S.I0])
            elif is_val(t):
                doms.append([S.F1, S.I0])
            elif 'spu::DataType' in t:
                doms.append([('d', 'F'), ('d', 'I')])
            else:
                doms.append([None])
        while sum(len(d) > 1 for d in doms) > 5:
            j = [i for i, d in enumerate(doms) if len(d) > 1][-1]
            doms[j] = [None]
        bad = 0
        for c in itertools.product(*doms):
            desc = ', '.join({'F': 'fixed-point', 'I': 'integer'}[x[1]] for x in c if x)
            found = []
            ai.nodes = 0
            env = {p: v for p, v in zip(f.params, c) if v is not None}
            ai.chain = []
            rets, end = ai.run(f, env)
            rep.count('ring operations and labellings evaluated', ai.nodes)
            rep.count('operand kind combinations')
            mixed = len({x[1] for x in c if x and x[0] == 'v'}) > 1
            for k, w, m in found:
                if mixed and ':pack:' in k:
                    continue  # tensors laid into one another are given the same element type by the caller
                bad += 1
                rep.finding(k, w, m)
            ks = [x[1] for x in c if x and x[0] == 'v']
            if f.name in RESULT and plain_val(f.r) and len(ks) == RESULT[f.name][0] and RESULT[f.name][1] is not None and RESULT[f.name][1](ks):
                want = RESULT[f.name][1](ks)
                if not rets and end is None:
                    bad += 1
                    rep.finding(f'{f.q}:{"".join(ks)}:none', f'{f.f}:{f.l}', f'{f.name} cannot be computed for operands {desc}: every path fails')
                for nd, v, _ in rets:
                    if v is not None and v[0] == 'v' and v[1] in ('F', 'I'):
                        rep.count('result kinds decided')
                        if v[1] != want:
                            bad += 1
                            rep.finding(f'{f.q}:{"".join(ks)}:kind', f'{f.f}:{nd[1]}', f'{f.name} of {desc} operands yields a {"fixed-point" if v[1] == "F" else "integer"} tensor')
                    else:
                        rep.count('result kinds undecided')
                        if os.environ.get('DBG'): print('UK', f.name, desc, v)
            if plain_val(f.r):
                for nd, v, _ in rets:
                    if v is not None and v[0] == 'v' and v[1] == 'U' and ('hlo' in f.q or f.f.endswith(('polymorphic.cc', 'integer.cc', 'type_cast.cc', 'constants.cc')) or f.name.startswith('f_')):
                        bad += 1
                        rep.finding(f'{f.q}:unlabelled', f'{f.f}:{nd[1]}', f'the result of {f.name} is not given an element type (operands {desc})')
                    if v is not None and v[0] == 'v' and v[2] is not None:
                        rep.count('results decided')
                    else:
                        rep.count('results undecided')
        if not bad:
            rep.good(f'{f.q}/{len(f.params)}', 'functions whose labels and scales agree')
    rep.need('operator library functions', n, 150)
