"""The PPHLO executor runs each op's kernel on that op's operands, attributes and regions."""
import json, os, re
import prov, decide, driver
from decide import NO, Undecided
from program import walk, kids, callee, cargs, strip, show

RULE = ('for every op of the PPHLO dialect: the operands, attributes, regions and result type that reach each argument of the hlo kernel are exactly those the argument means, '
        'each result of the op is stored exactly once from the result of that kernel with the same index, loops over operands and results keep their order; MLIR element types, '
        'visibilities and sort directions map to the SPU ones; a region runs in a scope nested in its parent with argument i bound to value i; symbol lookup prefers the inner scope; '
        'a parallel task waits for its operands and for the values its regions use')
EXPLAIN = ('The op definitions are read from the .td files, the execute() overloads from the executor. A forward provenance dataflow (values and the branches that choose them, '
           'through locals, configuration fields, lambdas and helpers) gives the set of op accessors reaching each kernel argument; it is compared with the table of what each '
           'argument means. Element-type tables and scope functions are decided by evaluating them over their finite abstract inputs.')
ASSUME = ['the tablegen-generated accessor getX returns operand, attribute or region x', 'MLIR verifies operand and result types before execution']

EXEC = 'libspu/device/pphlo/pphlo_executor.cc'
INTR = 'libspu/device/pphlo/pphlo_intrinsic_executor.cc'
NAME = {'RoundOp': 'Round_AFZ', 'RoundNearestEvenOp': 'Round_RNTE', 'SubtractOp': 'Sub', 'PowOp': 'Power', 'ShiftLeftOp': 'Lshift', 'ShiftRightArithmeticOp': 'ARshift',
        'ShiftRightLogicalOp': 'Rshift', 'RngOp': 'Uniform_rand', 'ConvertOp': 'Cast', 'BitcastConvertOp': 'Bitcast', 'RemOp': 'Remainder', 'IfOp': 'IfElse',
        'ConvolutionOp': 'Convolution2D', 'BroadcastShapeAsOp': 'Broadcast', 'CustomCallOp': 'intrinsic_dispatcher'}
NONE = {'CaseOp', 'ReturnOp'}
T = 'type'
WIN = {'window_shape': {'window_dimensions'}, 'window_strides': {'window_strides', '#1'}, 'window_dilations': {'window_dilations', '#1'}, 'window_padding': {'#0'}, 'base_dilations': {'#1'}}
ANY = None
SPEC = {
    'ArgMaxOp': [{'input'}, {T}, WIN],
    'BroadcastOp': [{'operand'}, {T}, {'broadcast_dimensions'}],
    'BroadcastShapeAsOp': [{'lhs'}, {'shape:rhs'}, set()],
    'BitcastConvertOp': [{'operand'}, {T}],
    'ClampOp': [{'operand'}, {'min'}, {'max'}],
    'ConvertOp': [{'operand'}, {T}, {T}],
    'ConvolutionOp': [{'lhs'}, {'rhs'}, dict([('window_strides', {'window_strides', '#1'})] + [
        (a + b, {'dim.' + a[0].upper() + a[1:] + b}) for a, b in (('input', 'BatchDimension'), ('input', 'FeatureDimension'), ('input', 'SpatialDimensions'), ('kernel', 'InputFeatureDimension'),
                                                                   ('kernel', 'OutputFeatureDimension'), ('kernel', 'SpatialDimensions'), ('output', 'BatchDimension'),
                                                                   ('output', 'FeatureDimension'), ('output', 'SpatialDimensions'))]), {T}],
    'CustomCallOp': [ANY, {'inputs'}],
    'DotGeneralOp': [{'lhs'}, {'rhs'}],
    'DynamicSliceOp': [{'operand'}, {'slice_sizes'}, {'start_indices'}],
    'EpsilonOp': [{T}],
    'IfOp': [{'condition'}, {'true_branch'}, {'false_branch'}],
    'IotaOp': [{T}, {T, 'iota_dimension'}],
    'MaxPoolScatterOp': [{'scatter_indices'}, {'update'}, {'window_dimensions'}, {T}, {'window_strides', '#1'}, {'#0'}],
    'PopcntOp': [{'operand'}],
    'ReduceOp': [{'inputs'}, {'init_values'}, {'dimensions'}, {'body'}, ANY],
    'ReduceWindowOp': [{'inputs'}, {'init_values'}, {T}, WIN, {'body'}, ANY],
    'ReshapeOp': [{'operand'}, {T}],
    'RngOp': [{'a'}, {'b'}, {T}],
    'SelectAndScatterOp': [{'operand'}, {'source'}, {'init_value'}, {'window_dimensions'}, {'window_strides', '#1'}, {'#0'}, {'select'}, {'scatter'}],
    'SimpleSortOp': [{'operands'}, {'dimension'}, {'sort_direction'}, {'num_keys'}, {'#-1', '#1'}, {'#0'}],
    'SortOp': [{'operands'}, {'dimension'}, {'is_stable'}, {'comparator'}, {'comparator'}],
    'WhileOp': [{'args'}, {'cond'}, {'body'}],
}
SPEC['SimpleSortOp'][4] = ANY
# kernels an op may run besides its own: name -> what each argument must be (None: anything)
EXTRA = {'Reshape': [ANY, {T}], 'Broadcast': [ANY, {T}, ANY], 'Constant': None, 'Complex': None, 'Cast': None, 'Imag': None, 'runRegion': None, 'Epsilon': None, '_mul': None, '_trunc': None,
         'dump_public_as': None}
XOK = {'ConvolutionOp': {'Reshape'}, 'DotOp': {'Reshape'}, 'DotGeneralOp': {'Reshape'}, 'ReduceOp': {'Reshape'}, 'IotaOp': {'Broadcast', 'Constant', 'Cast', 'Complex'},
       'ConvertOp': {'Complex', 'Imag'}, 'EpsilonOp': {'Broadcast'}, 'ConstantOp': {'Complex'}, 'MulOp': {'Epsilon', 'Constant', '_mul', '_trunc', 'dump_public_as'}}
# attributes the backend documents it does not need
UNUSED = {('ArgMaxOp', 'onehot_index'), ('PopcntOp', 'bits'), ('CustomCallOp', 'call_target_name'), ('CustomCallOp', 'has_side_effect')}


def snake(s):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', s).lower()


def last(g):
    return g.q.rsplit('::', 1)[-1]


class Runaway(Exception):
    pass


class Op:
    def __init__(self, d):
        self.cls, self.name, a, r, self.regions = d['class'], d['name'], d['args'], d['results'], d['regions']
        self.args = [x[0] for x in a]
        self.opnds = [x[0] for x in a if x[1] != 'attr']
        self.variadic = [x[0] for x in a if x[1] == 'variadic']
        self.attrs = [x[0] for x in a if x[1] == 'attr']
        self.results = r
        self.multi = len(r) > 1 or any(x[1] for x in r)


def mksrc(op):
    star = op.variadic[0] if len(op.opnds) == 1 and op.variadic else '*operands'

    def src(pv, n, ev):
        k = n[0]
        g = callee(n) if k in ('call', 'mcall') else None
        if k == 'op' and n[2] == '[]' and len(n[4]) == 2:
            p = ev(n[4][0])
            if p == frozenset([star]) and star == '*operands':
                i = strip(n[4][1])
                if i[0] == 'int' and not op.variadic and int(i[2]) < len(op.opnds):
                    return frozenset([op.opnds[int(i[2])]])
            return None
        if g is None:
            return None
        nm = last(g)
        if k == 'mcall':
            o = ev(n[3])
            if 'OP' in o:
                for a in n[4]:
                    ev(a)
                if nm in ('getNumOperands', 'getNumResults', 'getContext', 'getLoc', 'getNumRegions', 'getName'):
                    return frozenset()
                if nm in ('getOperation', 'operator->'):
                    return o
                if nm in ('getResult', 'getResults', 'getODSResults', 'result_begin', 'getOpResult'):
                    return frozenset(['res'])
                if nm in ('getType', 'getResultTypes', 'getResultType'):
                    return frozenset([T])
                if nm in ('getOperands', 'operand_begin', 'getODSOperands'):
                    return frozenset([star])
                if nm == 'getOperandTypes':
                    return frozenset(['type:*'])
                if nm == 'getOperand' and (n[4] or 'operand' not in op.args):
                    i = strip(n[4][0]) if n[4] else ['int', 0, '0']
                    if i[0] == 'int' and not op.variadic and int(i[2]) < len(op.opnds):
                        return frozenset([op.opnds[int(i[2])]])
                    return frozenset([star])
                if nm == 'getAttr' or nm.startswith('getAttrOfType'):
                    s = [x for a in n[4] for x in walk(a) if x[0] == 'str']
                    return frozenset([s[0][2]]) if s else frozenset()
                if nm == 'getRegion' and n[4] and strip(n[4][0])[0] == 'int':
                    i = int(strip(n[4][0])[2])
                    return frozenset([op.regions[i]]) if i < len(op.regions) else frozenset()
                if nm.startswith('get'):
                    s = snake(nm[3:])
                    for c in (s, re.sub(r'_attr$|_mutable$', '', s)):
                        if c in op.args or c in op.regions:
                            return frozenset([c])
                        if c in [r[0] for r in op.results]:
                            return frozenset(['res'])
                return frozenset()
            if nm in ('getType', 'getTypes'):
                for a in n[4]:
                    o = o | ev(a)
                return frozenset(T if t in ('res', T) else t if ':' in t else 'type:' + t for t in o)
            if nm in ('shape', 'numel', 'strides', 'dtype', 'vtype', 'storage_type', 'elsize', 'isFxp', 'isInt', 'isSecret', 'isPublic'):
                return frozenset('shape:' + t if t in op.opnds else t for t in o)
            if nm.startswith('get') and len(nm) > 3 and any(t.endswith('dimension_numbers') for t in o):
                return frozenset(['dim.' + nm[3:]])
        return None
    return src


def norm(p):
    return frozenset(t for t in p if not t.startswith(('#', 'k:', 'lam:', 'c:', 'shape:', 'abs:', 'type:')) and t not in ('OP', 'res')) | frozenset(t for t in p if t.startswith(('shape:', 'dim.')))


def has(p, t):
    return t in p or 'c:' + t in p


def match(spec, p, main):
    """None if the tokens are the ones asked for, else text"""
    if spec is None:
        return None
    want = {t for t in spec if not t.startswith('#')}
    got = norm(p)
    miss = [t for t in want if not has(p, t)]
    # a shape is derived from the value: fine where the value is asked for
    extra = [t for t in got if t not in want and not (t.startswith('shape:') and main)]
    lit = [t for t in spec if t.startswith('#') and t not in p]
    if miss:
        return 'gets %s where it needs %s' % (', '.join(sorted(got)) or 'nothing of the op', ', '.join(sorted(want)))
    if extra:
        return 'also gets %s; it means %s only' % (', '.join(sorted(extra)), ', '.join(sorted(want)) or 'nothing')
    if lit:
        return 'lost its default %s' % ', '.join(x[1:] for x in lit)
    return None


def isexec(g):
    return g.f in (EXEC,) and not last(g) in ('lookupValue', 'addValue', 'removeValue', 'convertVisibility', 'getPtTypeFromMlirType', 'getDtypeFromMlirType', 'findTwoK', 'do_type_checker')


def run(P, rep):
    ops = [Op(d) if isinstance(d, dict) else d for d in json.load(open(os.path.join(driver.gendir(), 'libspu/dialect/pphlo/IR/ops.json')))]
    rep.need('ops of the dialect', len(ops), 70)
    ex = {}
    for f in P.funcs:
        if f.f == EXEC and last(f) == 'execute' and f.body:
            for v in f.vars.values():
                m = re.search(r'pphlo::(\w+Op)\b', v[1])
                if v[2] == 'p' and m:
                    ex[m.group(1)] = f
    und = 0
    for op in ops:
        f = ex.get(op.cls)
        rep.count('ops')
        if f is None:
            rep.finding('missing|' + op.cls, EXEC, 'no execute() for %s' % op.cls)
            continue
        rep.fn(f)
        und += one(P, rep, op, f)
    rep.count('op aspects not decided', und)
    dispatch(P, rep, ops)
    tables(P, rep)
    scopes(P, rep)
    intrinsics(P, rep)
    ctrl(P, rep)


def opvar(op, f):
    return [i for i, v in f.vars.items() if v[2] == 'p' and ('pphlo::' + op.cls) in v[1]][0]


def one(P, rep, op, f):
    und = 0
    where = '%s:%d execute(%s)' % (f.f, f.l, op.cls)
    key = (f.q, f.l)

    def isk(g):
        return g.q.startswith('spu::kernel::') or last(g) in ('runRegion', 'intrinsic_dispatcher')

    def isadd(g):
        return last(g) == 'addValue' and (g.f == EXEC or 'SymbolScope' in g.q)
    pv = prov.Prov(P, mksrc(op), isexec, isk, isadd)
    pv.fn(f, {(key, opvar(op, f)): frozenset(['OP'])})
    # ---- ops that must not reach the backend
    if op.cls in NONE:
        if pv.kcalls or pv.stores or not any(x[0] == 'throw' for x in walk(f.body)):
            rep.finding('lowered|' + op.cls, where, '%s is lowered before execution; reaching the backend must be an error' % op.cls)
        else:
            rep.good('op ' + op.cls)
        return 0
    if op.cls == 'FreeOp':
        rm = [(n, c) for n in walk(f.body) if n[0] in ('call', 'mcall') and callee(n) and last(callee(n)) == 'removeValue' for c in [pv.ev(n[4], frozenset(), key)]]
        if not rm or not all('operand' in c for _, c in rm):
            rep.finding('free|' + op.cls, where, 'FreeOp does not drop its operand')
        elif not any(n[0] == 'mem' and n[3].endswith('do_parallel') for n in walk(f.body)):
            rep.finding('free-par|' + op.cls, where, 'FreeOp drops its operand in parallel mode too: other tasks may still read it')
        else:
            rep.good('op ' + op.cls)
        return 0
    K = NAME.get(op.cls, op.cls[:-2])
    spec = SPEC.get(op.cls, [{a} for a in op.args])
    if op.cls == 'ConstantOp':
        spec = None
    main = [c for c in pv.kcalls if last(callee(c[0])) == K]
    ok = True
    if not main:
        names = sorted({last(callee(c[0])) for c in pv.kcalls})
        rep.finding('kernel|' + op.cls, where, '%s does not run kernel %s (it runs %s)' % (op.cls, K, ', '.join(names) or 'none'))
        return 0
    allow = XOK.get(op.cls, set()) | {'runRegion', K}
    for n, ps, flds, ctl, kk in pv.kcalls:
        g = callee(n)
        nm = last(g)
        w = '%s:%d' % (f.f, n[1])
        if nm not in allow:
            rep.finding('extra|%s|%s' % (op.cls, nm), w, '%s also runs kernel %s' % (op.cls, nm))
            ok = False
            continue
        if nm == K and spec is not None and not (op.cls == 'IotaOp' and nm == 'Broadcast'):
            args = ps[1:]
            rep.count('kernel arguments', len(args))
            for i, s in enumerate(spec):
                if i >= len(args):
                    rep.finding('arity|%s|%d' % (op.cls, i), w, '%s: kernel %s takes fewer arguments than the op has' % (op.cls, K))
                    ok = False
                    break
                pn = g.vars.get(g.params[i + 1], ('?',))[0] if i + 1 < len(g.params) else '?'
                if isinstance(s, dict):
                    for fld, want in s.items():
                        got = flds[i + 1].get(fld)
                        rep.count('configuration fields')
                        if got is None:
                            if flds[i + 1]:
                                rep.finding('field|%s|%s' % (op.cls, fld), w, '%s: %s.%s is never set' % (op.cls, pn, fld))
                                ok = False
                            else:
                                und += 1
                            continue
                        e = match(want, got, False)
                        if e and (not got or fld.endswith('SpatialDimensions') and not norm(got) and any(t[0] == '#' for t in got)):
                            und += 1 if not got else 0
                        elif e:
                            rep.finding('field|%s|%s' % (op.cls, fld), w, '%s: %s.%s %s' % (op.cls, pn, fld, e))
                            ok = False
                    if K == 'Convolution2D':
                        ft = {fld: '#1' in p for fld, p in flds[i + 1].items() if fld.endswith('FeatureDimension')}
                        if len(set(ft.values())) > 1:
                            rep.finding('conv1d', w, 'ConvolutionOp: after a unit dimension is inserted, %s is not shifted like the other feature dimensions' % ', '.join(sorted(x for x in ft if not ft[x])))
                            ok = False
                    continue
                # a literal that is a legal neutral value of an optional attribute
                e = match(s, args[i], True)
                if e:
                    rep.finding('arg|%s|%s' % (op.cls, pn), w, '%s: argument %s of %s %s' % (op.cls, pn, K, e))
                    ok = False
        elif nm in EXTRA and EXTRA[nm] and nm != K:
            for i, s in enumerate(EXTRA[nm]):
                if s and i + 1 < len(ps) and not (op.cls == 'ConvolutionOp'):
                    e = match(s, ps[i + 1], True)
                    if e:
                        rep.finding('xarg|%s|%s|%d' % (op.cls, nm, i), w, '%s: argument %d of %s %s' % (op.cls, i, nm, e))
                        ok = False
    # ---- every declared argument is used at all
    allp = frozenset()
    for n, ps, flds, ctl, kk in pv.kcalls:
        for p in ps:
            allp |= p
        for d in flds:
            for p in d.values():
                allp |= p
        allp |= ctl
    text = {t[2:] if t.startswith('c:') else t for t in allp}
    for a in op.args:
        used = a in text or any(t.startswith(('dim.', 'shape:' + a)) for t in text) or (op.cls, a) in UNUSED or op.cls == 'DotGeneralOp' or ('*operands' in text and a in op.opnds)
        if not used and op.cls != 'ConstantOp':
            rep.finding('unused|%s|%s' % (op.cls, a), where, '%s: %s does not reach the kernel' % (op.cls, a))
            ok = False
    for r in op.regions:
        if r not in text:
            rep.finding('region|%s|%s' % (op.cls, r), where, '%s: region %s is never run' % (op.cls, r))
            ok = False
    # ---- results
    if not pv.stores:
        rep.finding('nores|' + op.cls, where, '%s never stores its result' % op.cls)
        return und
    for n, ps, ctl, kk in pv.stores:
        w = '%s:%d' % (f.f, n[1])
        a = n[4]
        kp = 1 if len(ps) >= 3 else 0
        if not has(ps[kp], 'res') and not has(ps[kp], T):
            rep.finding('dest|' + op.cls, w, '%s stores a value under something that is not its result' % op.cls)
            ok = False
            continue
        val = ps[kp + 1]
        tiny = op.cls == 'MulOp' and 'k:_trunc' in val
        if ('k:' + K) not in val and not tiny:
            rep.finding('value|' + op.cls, w, '%s stores a value that does not come from kernel %s' % (op.cls, K))
            ok = False
        if op.multi:
            e = aligned(P, f, op, a[kp], a[kp + 1])
            if e is None:
                und += 1
            elif e:
                rep.finding('index|' + op.cls, w, '%s: %s' % (op.cls, e))
                ok = False
        rep.count('result stores')
    lo, hi = counts(P, op, f, isadd)
    early = op.cls == 'CustomCallOp'
    if hi > 1:
        rep.finding('twice|' + op.cls, where, '%s stores a result twice on some path' % op.cls)
        ok = False
    if lo < 1 and not early:
        rep.finding('path|' + op.cls, where, '%s stores no result on some path that does not throw' % op.cls)
        ok = False
    # ---- order inside loops and lambdas
    for e in order(P, f, op):
        rep.finding('order|%s|%s' % (op.cls, e[0]), '%s:%d' % (f.f, e[1]), '%s: %s' % (op.cls, e[2]))
        ok = False
    if op.cls == 'MulOp':
        ok &= mulop(P, rep, f, pv, key, where)
    if op.cls == 'SimpleSortOp':
        ok &= sortdir(P, rep, f, op)
    if ok:
        rep.good('op ' + op.cls)
        rep.sample('mapping', '%s -> %s(%s)' % (op.cls, K, '; '.join(','.join(sorted(norm(p))) for p in main[0][1][1:])))
    return und


def loops(f):
    """var -> ('for', init, bound node, ok) or ('enum', range node)"""
    out = {}
    for n in walk(f.body):
        if n[0] == 'for' and isinstance(n[2], list):
            for d in walk(n[2]):
                if d[0] == 'decl':
                    for y in d[2]:
                        out[y[0]] = ('for', n)
        if n[0] == 'rfor':
            v = n[2][0] if isinstance(n[2], list) else n[2]
            out[v] = ('rfor', n)
    return out


def index(n):
    """the index part of an element access: ('i', text, var) for a.x[i] / op.getResult(i) / x.index() ..."""
    n = strip(n)
    while n[0] in ('call', 'new', 'copy', 'cast') and (n[0] != 'call' or (callee(n) and last(callee(n)) in ('move', 'forward'))):
        k = kids(n)
        if not k:
            return None
        n = strip(k[0])
    if n[0] == 'call' and callee(n) and last(callee(n)) == 'Reshape':
        return index(n[4][1])
    if n[0] == 'op' and n[2] == '[]':
        return lin(n[4][1])
    if n[0] == 'idx':
        return lin(n[3])
    if n[0] == 'mcall' and callee(n) and last(callee(n)) in ('getResult', 'getOperand', 'at') and n[4]:
        return lin(n[4][0])
    if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'value' and strip(n[3])[0] == 'var':
        return ('enum', strip(n[3])[2], 0)
    if n[0] == 'mem' and n[3].endswith('::first'):
        return ('c', None, 0)
    if n[0] == 'mem' and n[3].endswith('::second'):
        return ('c', None, 1)
    return None


def lin(n):
    n = strip(n)
    if n[0] == 'int':
        return ('c', None, int(n[2]))
    if n[0] == 'var':
        return ('v', n[2], 0)
    if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'index' and strip(n[3])[0] == 'var':
        return ('enum', strip(n[3])[2], 0)
    if n[0] == 'bin' and n[2] in ('+', '-'):
        a, b = lin(n[3]), lin(n[4])
        if a and b and b[0] == 'c':
            return (a[0], a[1], a[2] + (b[2] if n[2] == '+' else -b[2]))
        if a and b and a[0] == 'c' and n[2] == '+':
            return (b[0], b[1], a[2] + b[2])
        if b and b[0] == 'v' and n[2] == '-':
            return ('rev', b[1], 0)
        return ('?', show(n), 0)
    return ('?', show(n), 0)


def aligned(P, f, op, dst, val):
    """'' fine, text wrong, None undecided: the index of the result and of the kernel's output"""
    d, v = index(dst), index(val)
    if d is None or v is None:
        return None
    if d == v:
        return ''
    if '?' in (d[0], v[0]):
        return '' if d == v else None
    return 'result [%s] is stored from kernel output [%s]' % (txt(f, d), txt(f, v))


def txt(f, i):
    if i[0] == 'c':
        return str(i[2])
    nm = f.vars.get(i[1], (str(i[1]),))[0] if i[1] is not None else ''
    return '%s%s' % (nm or 'i', '%+d' % i[2] if i[2] else '')


def counts(P, op, f, isadd):
    """(min, max) number of stores of one result over the paths that return"""
    multi = op.multi
    seen = []

    def adds(n):
        c = 0
        for x in walk(n):
            if x[0] in ('call', 'mcall') and callee(x):
                if isadd(callee(x)):
                    kp = 1 if len(x[4]) >= 3 else 0
                    i = index(x[4][kp])
                    if multi and i and i[0] == 'c' and i[2] > 0:
                        continue
                    c += 1
                elif isexec(callee(x)) and callee(x).body and callee(x) is not f and len(seen) < 4 and last(callee(x)) != 'execute':
                    seen.append(1)
                    lo, hi = fin(go(callee(x).body, {0}))
                    seen.pop()
                    c += hi
        return c

    def fin(r):
        s = r[0] | r[1]
        return (min(s), max(s)) if s else (1, 1)

    def go(n, s):
        """-> (states falling through, states returned)"""
        if not isinstance(n, list) or not n or not s:
            return set(s), set()
        if not isinstance(n[0], str):
            out = set()
            for x in n:
                s, r = go(x, s)
                out |= r
            return s, out
        k = n[0]
        if k == 'block':
            return go(n[2], s)
        if k in ('if', 'ifc'):
            if isinstance(n[2], list):
                s = go(n[2], s)[0]
            a, ra = go(n[4], s)
            b, rb = go(n[5], s) if isinstance(n[5], list) and n[5] else (set(s), set())
            return a | b, ra | rb
        if k == 'switch':
            out, ret = set(), set()
            body = n[3][2] if n[3] and n[3][0] == 'block' else [n[3]]
            hasdef = False
            cur = set()
            for x in body:
                while isinstance(x, list) and x and x[0] in ('case', 'default'):
                    cur = cur | s
                    hasdef |= x[0] == 'default'
                    x = x[3] if x[0] == 'case' else x[2]
                if isbrk(x):
                    out |= cur
                    cur = set()
                    continue
                if isinstance(x, list) and x and x[0] == 'block' and x[2] and isbrk(x[2][-1]):
                    c, r = go(x[2][:-1], cur)
                    out |= c
                    ret |= r
                    cur = set()
                    continue
                c, r = go(x, cur)
                cur, ret = c, ret | r
            out |= cur
            if not hasdef:
                out |= s
            return out, ret
        if k in ('for', 'rfor', 'while'):
            c = adds(n)
            return {min(x + c, 3) for x in s}, set()
        if k == 'do':
            return go(n[2], s)
        if k == 'ret':
            c = adds(n[2]) if isinstance(n[2], list) else 0
            return set(), {x + c for x in s}
        if k == 'throw':
            return set(), set()
        c = adds(n)
        return {min(x + c, 3) for x in s}, set()

    def isbrk(x):
        return isinstance(x, list) and bool(x) and (x[0] == 'break' or (x[0] == 's' and x[2:3] == ['break']))
    return fin(go(f.body, {0}))


def order(P, f, op):
    """element i goes to element i; loops start at the first operand; lambda parameters are passed on in order"""
    out = []
    L = loops(f)
    for n in walk(f.body):
        tgt = None
        if n[0] == 'op' and n[2] == '=' and len(n[4]) == 2:
            tgt, val = n[4]
        elif n[0] == 'asg' and n[2] == '=':
            tgt, val = n[3], n[4]
        if tgt is not None:
            c = [x for x in walk(val) if x[0] in ('call', 'mcall') and callee(x) and last(callee(x)) == 'lookupValue']
            if c and len(c) == 1:
                kk = c[0][4][1] if c[0][0] == 'call' and len(c[0][4]) > 1 else c[0][4][0]
                a, b = index(tgt), index(kk)
                if a and b and a[0] != '?' and b[0] != '?' and a != b and a[1] in L:
                    out.append(('elem', n[1], 'operand [%s] is placed at position [%s]' % (txt(f, b), txt(f, a))))
        if n[0] == 'for' and isinstance(n[2], list):
            if not any(x[0] in ('call', 'mcall') and callee(x) and last(callee(x)) in ('lookupValue', 'addValue') for x in walk(n[5])):
                continue
            for d in walk(n[2]):
                if d[0] == 'decl':
                    for y in d[2]:
                        i = strip(y[1]) if isinstance(y[1], list) else None
                        if i and i[0] == 'int' and int(i[2]) != 0:
                            out.append(('start', n[1], 'the loop over operands or results starts at %s' % i[2]))
            c = strip(n[3]) if isinstance(n[3], list) else None
            if c and c[0] == 'bin' and c[2] in ('<', '!='):
                b = strip(c[4])
                if b[0] == 'bin' and b[2] == '-' and strip(b[4])[0] == 'int' and int(strip(b[4])[2]) > 0:
                    out.append(('end', n[1], 'the loop over operands or results stops early'))
            st = strip(n[4]) if isinstance(n[4], list) else None
            if st and st[0] == 'asg' and st[2] == '+=' and strip(st[4])[0] == 'int' and int(strip(st[4])[2]) != 1:
                out.append(('step', n[1], 'the loop over operands or results skips some'))
    for n in walk(f.body):
        if n[0] == 'lam' and len(n[2]) == 2:
            a, b = n[2]
            seq = []
            for x in walk(n[4]):
                if x[0] == 'list' or (x[0] == 'mcall' and callee(x) and last(callee(x)) in prov.MUT):
                    ks = x[2] if x[0] == 'list' else x[4]
                    here = []
                    for y in ks:
                        vs = {z[2] for z in walk(y) if z[0] == 'var'} & {a, b}
                        if len(vs) == 1 and (not here or here[-1] != min(vs)):
                            here.append(min(vs))
                    if x[0] == 'mcall' and last(callee(x)) == 'insert' and x[4] and any(z[0] == 'mcall' and callee(z) and last(callee(z)) in ('begin', 'cbegin') and strip(z[3])[0] == 'var' and strip(z[3])[2] not in (a, b) for z in walk(x[4][0])):
                        seq = here + seq
                    else:
                        seq += here
            if seq and seq[0] == b and a in seq:
                out.append(('lambda', n[1], 'the two parameters of the region are passed to it in swapped order'))
    return out


def mulop(P, rep, f, pv, key, where):
    """x * (tiny constant): only for fixed point x, keeps the sign of the constant, pairs the constant with the other factor"""
    tr = [c for c in pv.kcalls if last(callee(c[0])) == '_trunc']
    if not tr:
        return True
    ok = True
    rep.count('tiny-constant multiplication paths', len(tr))
    mul = [c for c in pv.kcalls if last(callee(c[0])) == '_mul']
    cst = [c for c in pv.kcalls if last(callee(c[0])) == 'Constant']
    for c in cst:
        v = c[1][1]
        if not any(t in v for t in ('lhs', 'rhs')):
            rep.finding('mul-sign|MulOp', '%s:%d' % (f.f, c[0][1]), 'MulOp by a tiny constant: the scaled constant depends on the magnitude only, its sign is lost')
            ok = False
    # fixed-point guard: some isFxp test encloses the truncation
    guards = []

    def enc(n, gs):
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str):
            for x in n:
                enc(x, gs)
            return
        if n is tr[0][0]:
            guards.append(list(gs))
        if n[0] in ('if', 'ifc'):
            enc(n[4], gs + [n[3]])
            enc(n[5], gs)
            return
        for x in kids(n):
            enc(x, gs)
    enc(f.body, [])
    if guards and not any(x[0] == 'mcall' and callee(x) and last(callee(x)) in ('isFxp', 'isInt', 'dtype') for g in guards[0] for x in walk(g)):
        rep.finding('mul-int|MulOp', where, 'MulOp by a tiny constant truncates without checking that the other factor is fixed point: an integer factor is not scaled')
        ok = False
    # pairing
    for b in walk(f.body):
        if b[0] != 'block':
            continue
        cs, ms = set(), set()
        for s in b[2]:
            for lhs, val in defs(s):
                p = pv.ev(val, frozenset(), key) & {'lhs', 'rhs'}
                t = f.vars.get(lhs, ('', '', ''))[1]
                if len(p) == 1 and 'ConstantOp' in t:
                    cs |= p
                elif len(p) == 1 and 'Value' in t and 'spu::Value' not in t:
                    ms |= p
        if cs and (cs & ms or not ms):
            rep.finding('mul-pair|MulOp', '%s:%d' % (f.f, b[1]), 'MulOp: the constant is taken from %s but the multiplier is %s' % (min(cs), min(ms) if ms else 'not updated with it'))
            ok = False
    return ok


def defs(s):
    if not isinstance(s, list) or not s:
        return
    if s[0] == 'decl':
        for y in s[2]:
            if isinstance(y[1], list):
                yield y[0], y[1]
    elif s[0] == 'asg' and strip(s[3])[0] == 'var':
        yield strip(s[3])[2], s[4]
    elif s[0] == 'op' and s[2] == '=' and strip(s[4][0])[0] == 'var':
        yield strip(s[4][0])[2], s[4][1]


def sortdir(P, rep, f, op):
    def mk(d):
        def hook(ev, n):
            if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'getSortDirection':
                return 'E:' + d
            return NO
        return hook
    ok = True
    for d, want in (('ASC', 'Ascending'), ('DES', 'Descending')):
        got = None
        ev = decide.Ev(mk(d))
        for s in f.body[2]:
            try:
                ev.st(s)
            except (Undecided, decide.Throw, decide.Ret):
                pass
        vs = [v for i, v in ev.env.items() if 'SortDirection' in f.vars.get(i, ('', '', ''))[1]]
        rep.count('sort directions')
        if not vs or vs[0] is None:
            continue
        if vs[0] != 'E:' + want:
            rep.finding('sortdir|' + d, '%s:%d' % (f.f, f.l), 'SimpleSortOp with direction %s sorts %s' % (d, str(vs[0])[2:]))
            ok = False
    return ok


def dispatch(P, rep, ops):
    """dispatchOp<...> lists every op and runs execute on the op it was cast to"""
    fs = [f for f in P.funcs if f.f == EXEC and last(f) == 'dispatchOp' and f.body]
    rep.need('dispatchOp instances', len(fs), 1)
    seen = set()
    for f in fs:
        for n in walk(f.body):
            if n[0] == 'call' and callee(n) and last(callee(n)) == 'execute':
                g = callee(n)
                for v in g.vars.values():
                    m = re.search(r'pphlo::(\w+Op)\b', v[1])
                    if v[2] == 'p' and m:
                        seen.add(m.group(1))
                rep.count('dispatch calls')
    if seen:
        for op in ops:
            if op.cls not in seen:
                rep.finding('dispatch|' + op.cls, EXEC, '%s is not dispatched to any kernel' % op.cls)


# ------------------------------------------------------------------------------------------------ tables
def tables(P, rep):
    def find(nm):
        return [f for f in P.funcs if f.f == EXEC and last(f) == nm and f.body]

    def hook(kind, width, uns, elt=None):
        def h(ev, n):
            if n[0] in ('call', 'mcall') and callee(n):
                g = callee(n)
                nm = last(g)
                t = n[5] if n[0] == 'call' else ''
                if nm in ('dyn_cast', 'isa', 'cast', 'dyn_cast_or_null'):
                    s = show(n).split('(')[0]
                    for kd, cl in (('float', 'FloatType'), ('int', 'IntegerType'), ('complex', 'ComplexType'), ('tensor', 'RankedTensorType')):
                        if cl in s.split(',')[0]:
                            if kd == 'tensor':
                                return None if nm != 'isa' else False
                            return ('T', kd) if kd == kind and nm != 'isa' else (kd == kind if nm == 'isa' else None)
                    return NO
                if nm in ('operator bool',):
                    return ev.ex(n[3]) is not None
                if nm == 'getWidth':
                    return width
                if nm == 'isUnsigned':
                    return uns
                if nm in ('isSigned', 'isSignless'):
                    return (not uns) if nm == 'isSignless' else False
                if nm == 'isUnsignedInteger':
                    return uns if not n[4] else (uns and ev.ex(n[4][0]) == width)
                if nm in ('isF16', 'isF32', 'isF64'):
                    return (elt if kind == 'complex' else width if kind == 'float' else 0) == int(nm[3:])
                if nm == 'isInteger':
                    return kind == 'int' and (not n[4] or ev.ex(n[4][0]) == width)
                if nm in ('getContext', 'getType', 'getExpressedType', 'getElementType'):
                    return ('T', kind)
            if n[0] == 'new' and ('TypeTools' in str(n[2])):
                return ('tool',)
            if n[0] == 'var' and n[2] not in ev.env:
                return ('T', kind)
            return NO
        return h
    for fn, pre in (('getPtTypeFromMlirType', 'PT_'), ('getDtypeFromMlirType', 'DT_')):
        for f in find(fn):
            rep.fn(f)
            cases = [('float', w, False, None, 'F%d' % w, 0) for w in (16, 32, 64)] + [('int', 1, False, None, 'I1', 0)]
            cases += [('int', w, u, None, ('U' if u else 'I') + str(w), 0) for w in (8, 16, 32, 64) for u in (False, True)]
            cases += [('complex', 0, False, w, 'F%d' % w, 1) for w in (32, 64)]
            bad = [('float', 8, False, None, None, 0), ('int', 128, False, None, None, 0), ('int', 4, True, None, None, 0), ('complex', 0, False, 16, None, 1)]
            for kd, w, u, e, want, cx in cases + bad:
                rep.count('element types')
                try:
                    r = decide.Ev(hook(kd, w, u, e)).run(f, [('T', kd)])
                except Undecided as x:
                    rep.count('element types not decided')
                    continue
                nm = '%s%s%s' % ('u' if u else '', kd, e or w)
                got = r[1]
                if want is None:
                    if r[0] != 'throw':
                        rep.finding('elt|%s|%s' % (fn, nm), '%s:%d %s' % (f.f, f.l, fn), 'unsupported element type %s is accepted as %s' % (nm, got))
                    continue
                exp = ('E:' + pre + want, cx) if pre == 'PT_' else 'E:' + pre + want
                if isinstance(got, tuple):
                    got = tuple(int(x) if isinstance(x, bool) else x for x in got)
                if r[0] == 'throw' or got != exp:
                    rep.finding('elt|%s|%s' % (fn, nm), '%s:%d %s' % (f.f, f.l, fn), 'MLIR element type %s maps to %s instead of %s' % (nm, 'an error' if r[0] == 'throw' else got, exp))
            rep.good(fn)
    for f in find('convertVisibility'):
        rep.fn(f)
        for v in ('PUBLIC', 'SECRET'):
            rep.count('visibilities')
            try:
                r = decide.Ev(lambda ev, n: NO).run(f, ['E:' + v])
            except Undecided:
                continue
            if r != ('ret', 'E:VIS_' + v):
                rep.finding('vis|' + v, '%s:%d' % (f.f, f.l), 'PPHLO visibility %s becomes %s' % (v, r[1] or 'an error'))
        rep.good('convertVisibility')
    for f in find('findTwoK'):
        rep.fn(f)
        for x in (2, 3, 4, 5, 1 << 17, (1 << 17) + 1, (1 << 18) - 1):
            rep.count('power-of-two table')
            try:
                r = decide.Ev(lambda ev, n: NO).run(f, [x])
            except Undecided:
                rep.count('power-of-two table not decided')
                continue
            k = r[1]
            # any n/N in (0, 1] with N/2 <= n <= N is exact enough: the constant stays representable
            if r[0] == 'ret' and isinstance(k, int) and not (x <= 2 * 2 ** k and 2 ** k <= x):
                rep.finding('twok|%d' % x, '%s:%d findTwoK' % (f.f, f.l), 'findTwoK(%d) = %d: 2^k is not within a factor of two below the argument' % (x, k))
    checker(P, rep, find('do_type_checker'))


def checker(P, rep, fs):
    """with do_type_check on, a value of the wrong rank, extent, dtype, complexness or visibility throws and a right one does not"""
    for f in fs:
        rep.fn(f)
        base = dict(check=True, mshape=(2, 3), vshape=(2, 3), mdt='E:DT_I32', vdt='E:DT_I32', mcx=False, vcx=False, mvis='E:PUBLIC', vvis='pub')
        cases = [({}, False), ({'vshape': (2,)}, True), ({'vshape': (2, 4)}, True), ({'vshape': (3, 3)}, True), ({'vdt': 'E:DT_I64'}, True), ({'vcx': True}, True), ({'mcx': True}, True),
                 ({'mcx': True, 'vcx': True}, False), ({'vvis': 'sec'}, True), ({'vvis': 'prv'}, True), ({'mvis': 'E:SECRET', 'vvis': 'pub'}, True), ({'mvis': 'E:SECRET', 'vvis': 'sec'}, False),
                 ({'mvis': 'E:SECRET', 'vvis': 'prv'}, False), ({'vshape': (2, 3, 1)}, True)]
        for ch, want in cases:
            s = dict(base, **ch)

            def h(ev, n):
                if n[0] == 'mem' and n[3].endswith('do_type_check'):
                    return s['check']
                g = callee(n) if n[0] in ('call', 'mcall') else None
                if g is None:
                    if n[0] == 'new' and 'TypeTools' in str(n[2]):
                        return ('tool',)
                    if n[0] == 'throw':
                        raise decide.Throw()
                    if n[0] == 'op' and n[2] == '[]' and len(n[4]) == 2:
                        a, i = ev.ex(n[4][0]), ev.ex(n[4][1])
                        if isinstance(a, tuple) and isinstance(i, int) and 0 <= i < len(a):
                            return a[i]
                        raise decide.Throw() if isinstance(a, tuple) else Undecided('idx')
                    if n[0] == 'op' and n[2] in ('==', '!=') and len(n[4]) == 2:
                        a, b = ev.ex(n[4][0]), ev.ex(n[4][1])
                        return (a == b) == (n[2] == '==')
                    return NO
                nm = last(g)
                if nm in ('dyn_cast', 'cast', 'getType', 'getExpressedType', 'getContext', 'getElementType') and nm != 'getShape':
                    return ('T',)
                if nm == 'getShape':
                    return s['mshape']
                if nm == 'shape':
                    return s['vshape']
                if nm in ('size', 'ndim', 'rank'):
                    x = ev.ex(n[3])
                    return len(x) if isinstance(x, tuple) else NO
                if nm == 'getRank':
                    return len(s['mshape'])
                if nm == 'getDimSize':
                    return s['mshape'][ev.ex(n[4][0])]
                if nm == 'dim' and n[4]:
                    return s['vshape'][ev.ex(n[4][0])]
                if nm == 'getDtypeFromMlirType':
                    return s['mdt']
                if nm == 'dtype':
                    return s['vdt']
                if nm == 'isa':
                    return s['mcx']
                if nm == 'isComplex':
                    return s['vcx']
                if nm == 'getTypeVisibility':
                    return s['mvis']
                if nm in ('isPublic', 'isSecret', 'isPrivate'):
                    return s['vvis'] == {'isPublic': 'pub', 'isSecret': 'sec', 'isPrivate': 'prv'}[nm]
                if nm == 'operator bool':
                    return True
                return NO
            rep.count('type-checker cases')
            try:
                r = decide.Ev(h).run(f, [('T',), ('V',), ('O',)])
            except Undecided:
                rep.count('type-checker cases not decided')
                continue
            if (r[0] == 'throw') != want:
                rep.finding('checker|%s' % json.dumps(ch, sort_keys=True), '%s:%d do_type_checker' % (f.f, f.l),
                            'a value with %s %s the run-time type check' % (', '.join('%s=%s' % (k, v) for k, v in ch.items()) or 'the declared type', 'passes' if want else 'fails'))
        rep.good('do_type_checker')


# ------------------------------------------------------------------------------------------------ scopes and blocks
def scopes(P, rep):
    S = 'spu::device::SymbolScope::'
    E = 'libspu/device/'

    def get(q):
        return [f for f in P.funcs if f.q == q and f.body and f.f.startswith(E)]
    # lookup / has: inner scope, then parent, then error / false
    for nm in ('lookupValue', 'hasValueUnsafe', 'hasValue'):
        for f in get(S + nm):
            rep.fn(f)
            for found in (True, False):
                for par in ('none', 'has', 'hasnot'):
                    def h(ev, n):
                        if n[0] == 'mem' and n[3].endswith('::parent_'):
                            return None if par == 'none' else ('PARENT',)
                        if n[0] == 'mem' and n[3].endswith('::second'):
                            return ('VAL', 'own') if ev.ex(n[2]) == ('IT', True) else Undecided
                        g = callee(n) if n[0] in ('call', 'mcall') else None
                        if g is not None and n[0] == 'mcall':
                            m = last(g)
                            sym = any(x[0] == 'mem' and x[3].endswith('::symbols_') for x in walk(n[3]))
                            if sym and m == 'find':
                                return ('IT', found)
                            if sym and m in ('end', 'cend'):
                                return ('IT', False)
                            if sym and m in ('count', 'contains'):
                                return int(found)
                            if sym and m == 'at':
                                if not found:
                                    raise decide.Throw()
                                return ('VAL', 'own')
                            if m in ('lookupValue', 'hasValue', 'hasValueUnsafe') and strip(n[3])[0] == 'this':
                                r = ev.run(g, [ev.ex(a) for a in n[4]])
                                if r[0] == 'throw':
                                    raise decide.Throw()
                                return r[1]
                            if m in ('lookupValue', 'hasValue', 'hasValueUnsafe') and ev.ex(n[3]) == ('PARENT',):
                                if m == 'lookupValue':
                                    if par == 'hasnot':
                                        raise decide.Throw()
                                    return ('VAL', 'parent')
                                return par == 'has'
                            if m in ('log', 'should_log'):
                                return None
                        if n[0] == 'op' and n[2] in ('==', '!='):
                            a, b = ev.ex(n[4][0]), ev.ex(n[4][1])
                            return (a == b) == (n[2] == '==')
                        if n[0] == 'op' and n[2] == '->':
                            return ev.ex(n[4][0])
                        if n[0] == 'new' and ('lock' in str(n[2]) or 'source_loc' in str(n[2])):
                            return ('lock',)
                        if n[0] == 'int':
                            return NO
                        return NO
                    if nm == 'lookupValue':
                        want = ('ret', ('VAL', 'own')) if found else ('ret', ('VAL', 'parent')) if par == 'has' else ('throw', None)
                    else:
                        want = ('ret', True if found else par == 'has')
                    rep.count('scope cases')
                    try:
                        r = decide.Ev(h).run(f, [('KEY',)])
                    except Undecided as e:
                        rep.count('scope cases not decided')
                        continue
                    if r[0] == 'ret' and isinstance(r[1], int):
                        r = ('ret', bool(r[1]))
                    if r != want:
                        rep.finding('scope|%s|%s|%s' % (nm, found, par), '%s:%d %s' % (f.f, f.l, nm), 'symbol %sin the inner scope, %s: %s gives %s instead of %s' %
                                    ('' if found else 'not ', {'none': 'no parent', 'has': 'defined in the parent', 'hasnot': 'not in the parent'}[par], nm, r[1] if r[0] == 'ret' else 'an error', want[1] if want[0] == 'ret' else 'an error'))
            rep.good(nm)
    for f in get(S + 'hasValues'):
        rep.fn(f)
        for n in walk(f.body):
            if n[0] == 'call' and callee(n) and last(callee(n)) in ('any_of', 'none_of'):
                rep.finding('hasvalues|%d' % len(f.params), '%s:%d' % (f.f, n[1]), 'hasValues must require every value to be present')
        pars = set(f.params)
        if not any(x[0] == 'var' and x[2] in pars for x in walk(f.body)):
            rep.finding('hasvalues-arg', '%s:%d' % (f.f, f.l), 'hasValues ignores the values it is asked about')
    for f in get(S + 'addValue'):
        rep.fn(f)
        key, val = f.params[:2]
        ok = False
        for n in walk(f.body):
            if (n[0] == 'op' and n[2] == '=' and len(n[4]) == 2) or n[0] == 'asg':
                l, r = (n[4][0], n[4][1]) if n[0] == 'op' else (n[3], n[4])
                if any(x[0] == 'var' and x[2] == key for x in walk(l)) and any(x[0] == 'mem' and x[3].endswith('::symbols_') for x in walk(l)) and any(x[0] == 'var' and x[2] == val for x in walk(r)):
                    ok = True
            if n[0] == 'mcall' and callee(n) and last(callee(n)) in ('insert_or_assign',):
                ok = ok or (any(x[0] == 'var' and x[2] == key for x in walk(n)) and any(x[0] == 'var' and x[2] == val for x in walk(n)))
            if n[0] == 'mcall' and callee(n) and last(callee(n)) in ('try_emplace', 'emplace', 'insert') and any(x[0] == 'mem' and x[3].endswith('::symbols_') for x in walk(n[3])):
                rep.finding('add-keep', '%s:%d' % (f.f, n[1]), 'addValue keeps an old value of the symbol: the body of a loop would see the previous iteration')
                ok = True
        rep.count('symbol stores')
        if not ok and not any(x[0] in ('mcall', 'call') and callee(x) and last(callee(x)) == 'addValue' for x in walk(f.body)):
            rep.finding('add', '%s:%d' % (f.f, f.l), 'addValue does not store the value under its key')
    # regions
    for f in get('spu::device::runRegion'):
        rep.fn(f)
        ex_, sc_, par, reg, prm, opt = f.params[:6]
        sc = [n for n in walk(f.body) if n[0] == 'new' and 'SymbolScope' in str(n[2])]
        if not sc or not all(any(x[0] == 'var' and x[2] == par for x in walk(n)) for n in sc):
            rep.finding('region-scope', '%s:%d runRegion' % (f.f, f.l), 'a region must run in a new scope whose parent is the caller\'s scope')
        svars = {y[0] for n in walk(f.body) if n[0] == 'decl' for y in n[2] if isinstance(y[1], list) and any(x in sc for x in walk(y[1]))}
        L = loops(f)
        bound = False
        for n in walk(f.body):
            if n[0] == 'mcall' and callee(n) and callee(n).q == S + 'addValue':
                rep.count('region argument bindings')
                if not any(x[0] == 'var' and x[2] in svars for x in walk(n[3])):
                    rep.finding('region-bind', '%s:%d' % (f.f, n[1]), 'region arguments are bound in a scope other than the region\'s own')
                i = strip(n[4][1])
                ix = None
                if i[0] == 'op' and i[2] == '[]':
                    ix = strip(i[4][1])
                elif i[0] == 'mcall' and callee(i) and last(callee(i)) == 'at':
                    ix = strip(i[4][0])
                good = None
                if ix is not None:
                    if ix[0] == 'mcall' and callee(ix) and last(callee(ix)) == 'getArgNumber':
                        good = show(ix[3]) == show(strip(n[4][0]))
                    elif lin(ix)[0] in ('v', 'enum'):
                        k = index(n[4][0])
                        kk = strip(n[4][0])
                        if k is None and kk[0] == 'mcall' and callee(kk) and last(callee(kk)) == 'getArgument' and kk[4]:
                            k = lin(kk[4][0])
                        if k is not None and k[0] in ('v', 'enum'):
                            good = k == lin(ix)
                    elif lin(ix)[0] == 'c':
                        good = False
                if good is False:
                    rep.finding('region-arg', '%s:%d' % (f.f, n[1]), 'region argument is bound to the value of a different argument')
                elif good is None:
                    rep.count('region bindings not decided')
                bound = True
        if not bound and not any(n[0] == 'call' and callee(n) and callee(n).f.startswith(E) and any(x[0] == 'var' and x[2] in svars for x in walk(n)) and last(callee(n)) not in ('runBlock', 'runBlockParallel') for n in walk(f.body)):
            rep.finding('region-nobind', '%s:%d' % (f.f, f.l), 'the arguments of the region are never bound')
        for n in walk(f.body):
            if n[0] == 'call' and callee(n) and last(callee(n)) in ('runBlock', 'runBlockParallel'):
                rep.count('block runs')
                a = n[4]
                if not any(x[0] == 'var' and x[2] in svars for x in walk(a[2])):
                    rep.finding('region-run', '%s:%d' % (f.f, n[1]), 'the region\'s block runs in the caller\'s scope')
    for q in ('spu::device::runBlock', 'spu::device::(anon)::BlockParallelRunner::run', 'spu::device::BlockParallelRunner::run'):
        for f in get(q):
            block(P, rep, f)
    task(P, rep)


def block(P, rep, f):
    rep.fn(f)
    L = [n for n in walk(f.body) if n[0] == 'rfor']
    runs = []
    for n in L:
        v = n[2][0] if isinstance(n[2], list) else n[2]
        c = [x for x in walk(n[4]) if x[0] in ('mcall', 'call') and callee(x) and last(callee(x)) in ('runKernel', 'emplace', 'push', 'emplace_back', 'push_back') and any(y[0] == 'var' and y[2] == v for y in walk(x))]
        if not c:
            continue
        rng = show(n[3])
        if 'without_terminator' in rng or 'getOperations' in rng:
            runs.append((n, c, v))
    rep.count('block bodies')
    if not runs:
        rep.count('blocks not decided')
        return
    # nothing in the loop may skip an op before it was run
    for n, c, v in runs:
        stmts = n[4][2] if n[4] and n[4][0] == 'block' else [n[4]]
        for s in stmts:
            if any(x is c[0] for x in walk(s)):
                if s[0] in ('if', 'ifc', 'switch'):
                    rep.finding('block-cond|' + last(f), '%s:%d' % (f.f, s[1]), 'an op of the block is run only under a condition')
                break
            if any(x[0] in ('break', 'continue', 'ret') or (x[0] == 's' and x[2:3] in (['break'], ['continue'])) for x in walk(s)):
                rep.finding('block-skip|' + last(f), '%s:%d' % (f.f, s[1]), 'an op of the block can be skipped')
    for n in L:
        v = n[2][0] if isinstance(n[2], list) else n[2]
        lk = [x for x in walk(n[4]) if x[0] in ('mcall', 'call') and callee(x) and last(callee(x)) == 'lookupValue' and any(y[0] == 'var' and y[2] == v for y in walk(x))]
        if lk and 'getOperands' in show(n[3]):
            rep.count('block results')
            for m in walk(n[4]):
                if m[0] == 'mcall' and callee(m) and last(callee(m)) == 'insert' and 'begin' in show(m[4][0]):
                    rep.finding('block-order|' + last(f), '%s:%d' % (f.f, m[1]), 'block results are returned in reverse order')
            rep.good('block ' + f.q)


def task(P, rep):
    """OpExecTask: ready() = operands and extra dependencies; run() waits on ready() before the kernel; nested uses become dependencies"""
    fs = {last(f): f for f in P.funcs if 'OpExecTask::' in f.q and f.body and last(f) in ('ready', 'run')}
    f = fs.get('ready')
    if f:
        rep.fn(f)
        for a in (True, False):
            for b in (True, False):
                def h(ev, n):
                    if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'hasValues':
                        ext = any(x[0] == 'mem' and x[3].endswith('::extra_dependencies_') for x in walk(n))
                        return b if ext else a
                    return NO
                rep.count('task readiness cases')
                try:
                    r = decide.Ev(h).run(f)
                except Undecided:
                    rep.count('task readiness not decided')
                    continue
                if r[0] == 'ret' and bool(r[1]) != (a and b):
                    rep.finding('ready|%s|%s' % (a, b), '%s:%d ready' % (f.f, f.l), 'a task whose operands are %s and whose region uses are %s counts as %s' %
                                ('there' if a else 'missing', 'there' if b else 'missing', 'ready' if r[1] else 'not ready'))
        rep.good('ready')
    f = fs.get('run')
    if f:
        rep.fn(f)
        for nop in (0, 1):
            for nex in (0, 1):
                waited = []

                def h(ev, n):
                    g = callee(n) if n[0] in ('call', 'mcall') else None
                    if g is not None:
                        m = last(g)
                        if m == 'getNumOperands':
                            return nop
                        if m in ('empty', 'size') and n[0] == 'mcall':
                            ext = any(x[0] == 'mem' and x[3].endswith('::extra_dependencies_') for x in walk(n[3]))
                            v = nex if ext else nop
                            return (v == 0) if m == 'empty' else v
                        if m in ('wait', 'wait_for', 'wait_until') and len(n[4]) >= 2 and any(callee(x) and last(callee(x)) == 'ready' for x in walk(n) if x[0] in ('mcall', 'call')):
                            waited.append('wait')
                            return None
                        if m == 'ready':
                            waited.append('wait')
                            return True
                        if m == 'runKernel':
                            waited.append('run')
                            return None
                        if m.startswith('notify'):
                            waited.append('notify')
                            return None
                        if m in ('lock', 'unlock'):
                            return None
                    if n[0] == 'new' and 'lock' in str(n[2]):
                        return ('lock',)
                    return NO
                rep.count('task orders')
                try:
                    decide.Ev(h).run(f, [('O',)])
                except Undecided:
                    rep.count('task orders not decided')
                    continue
                need = nop or nex
                if 'run' not in waited:
                    rep.finding('task-norun', '%s:%d run' % (f.f, f.l), 'a task never runs its op')
                elif need and 'wait' not in waited[:waited.index('run')]:
                    rep.finding('task-nowait|%d|%d' % (nop, nex), '%s:%d run' % (f.f, f.l), 'a task with %s starts its kernel without waiting for them' % ('operands' if nop else 'region or order dependencies'))
                elif 'notify' not in waited[waited.index('run'):]:
                    rep.finding('task-nonotify', '%s:%d run' % (f.f, f.l), 'a task does not wake the waiters after storing its results')
        rep.good('task run')
    for f in P.funcs:
        if f.q.endswith('OpExecTask::OpExecTask') and f.body and f.params:
            rep.fn(f)
            ok = any(n[0] == 'mcall' and callee(n) and last(callee(n)) in ('emplace_back', 'push_back', 'insert', 'append') and any(x[0] == 'mem' and x[3].endswith('::extra_dependencies_') for x in walk(n[3])) for n in walk(f.body))
            deep = any(callee(n) and last(callee(n)) in ('walk', 'getUsedValuesDefinedAbove') for n in walk(f.body) if n[0] in ('call', 'mcall'))
            rep.count('task constructors')
            if not ok:
                rep.finding('task-deps', '%s:%d' % (f.f, f.l), 'values used inside the regions of an op are not among the dependencies of its task')
            elif not deep:
                rep.finding('task-deps-deep', '%s:%d' % (f.f, f.l), 'only the outermost level of the regions is searched for outside values')


# ------------------------------------------------------------------------------------------------ intrinsics
ISPEC = {'REVEAL': 'Reveal', 'ERF': 'f_erf', 'TOPK': 'TopK', 'GATHER': 'Gather', 'EPSILON': 'Epsilon', 'DBG_PRINT': 'dbg_print', 'PREFER_A': 'Add', 'MAKE_CACHED_VAR': None, 'DROP_CACHED_VAR': None}


def intrinsics(P, rep):
    fs = [f for f in P.funcs if f.f == INTR and last(f) == 'intrinsic_dispatcher' and f.body]
    rep.need('intrinsic dispatcher', len(fs), 1)
    for f in fs:
        rep.fn(f)
        inp = f.params[2]

        def src(pv, n, ev):
            g = callee(n) if n[0] in ('call', 'mcall') else None
            if n[0] == 'op' and n[2] == '[]' and len(n[4]) == 2:
                b, i = strip(n[4][0]), strip(n[4][1])
                if b[0] == 'var' and 'IN' in pv.env.get(((f.q, f.l), b[2]), ()) and i[0] == 'int':
                    return frozenset(['in%s' % i[2]])
            if g is not None and n[0] == 'mcall' and last(g) == 'get' and n[4]:
                s = [x for x in walk(n[4][0]) if x[0] == 'str']
                if s:
                    return frozenset(['a:' + s[0][2]])
            if g is not None and n[0] == 'mcall' and last(g) == 'shape':
                return frozenset('shape:' + t for t in ev(n[3]))
            if g is not None and n[0] == 'mcall' and last(g) in ('getType', 'getResults') and 'CALL' in ev(n[3]):
                return frozenset(['type'])
            return None
        pv = prov.Prov(P, src, lambda g: g.f == INTR, lambda g: g.q.startswith('spu::kernel::') or last(g) == 'dynDispatch', lambda g: False)
        pv.fn(f, {((f.q, f.l), inp): frozenset(['IN']), ((f.q, f.l), f.params[1]): frozenset(['CALL'])})
        want = {'TopK': [{'in0'}, {'a:k'}, {'a:k_hi'}, {'a:largest'}, {'a:value_only'}], 'Gather': [{'in0'}, {'in1'}, {'sliceSizes': {'a:slice_sizes'}, 'indexVectorDim': {'a:index_vector_dim'},
                'offsetDims': {'a:offset_dims'}, 'collapsedSliceDims': {'a:collapsed_slice_dims'}, 'startIndexMap': {'a:start_index_map'}}, {'type'}], 'Reveal': [{'in0'}], 'f_erf': [{'in0'}], 'dbg_print': [{'in0'}]}
        khi = 0
        for n, ps, flds, ctl, kk in pv.kcalls:
            nm = last(callee(n))
            w = '%s:%d' % (f.f, n[1])
            if nm == 'TopK' and len(ps) > 3 and has(ps[3], 'a:k_hi'):
                khi += 1
            for i, s in enumerate(want.get(nm, [])):
                if i + 1 >= len(ps):
                    break
                rep.count('intrinsic arguments')
                pn = callee(n).vars.get(callee(n).params[i + 1], ('?',))[0] if i + 1 < len(callee(n).params) else '?'
                if isinstance(s, dict):
                    for fld, t in s.items():
                        got = flds[i + 1].get(fld)
                        if got is not None and got and not all(has(got, x) for x in t):
                            rep.finding('ifield|%s|%s' % (nm, fld), w, '%s.%s is filled from %s instead of %s' % (pn, fld, ', '.join(sorted(x for x in got if x.startswith('a:'))) or 'a constant', min(t)[2:]))
                        elif got is None and flds[i + 1]:
                            rep.finding('ifield|%s|%s' % (nm, fld), w, '%s.%s is never filled' % (pn, fld))
                    continue
                got = frozenset(t for t in ps[i + 1] if t.startswith(('in', 'a:')) or t == 'type')
                if nm == 'TopK' and i == 2 and not got:
                    continue
                if not all(has(ps[i + 1], t) for t in s) or (got - s):
                    rep.finding('iarg|%s|%s' % (nm, pn), w, 'argument %s of %s gets %s instead of %s' % (pn, nm, ', '.join(sorted(got)) or 'a constant', min(s)))
        if any(last(callee(c[0])) == 'TopK' for c in pv.kcalls) and not khi:
            rep.finding('iarg|TopK|k_hi', '%s:%d' % (f.f, f.l), 'the k_hi attribute of topk never reaches the kernel')
        # name -> kernel, and make/drop pass true/false to the cache
        table = INAMES(P)
        for nm, ker in ISPEC.items():
            for b in [n for n in walk(f.body) if n[0] in ('if', 'ifc')]:
                c = strip(b[3])
                names = {x[2] for x in walk(c) if x[0] == 'str'}
                val = table.get(nm)
                if nm in names or (val and val in names):
                    ks = {last(callee(x)) for x in walk(b[4]) if x[0] in ('call', 'mcall') and callee(x)}
                    rep.count('intrinsic branches')
                    if ker and ker not in ks and not any(g in ks for g in [last(h) for h in P.funcs if h.f == INTR]):
                        rep.finding('intrinsic|' + nm, '%s:%d' % (f.f, b[1]), 'intrinsic %s does not run %s' % (nm, ker))
                    if nm in ('MAKE_CACHED_VAR', 'DROP_CACHED_VAR'):
                        for x in walk(b[4]):
                            if x[0] in ('call',) and callee(x) and last(callee(x)) == 'dynDispatch':
                                fl = strip(x[4][-1])
                                if fl[0] == 'int' and bool(int(fl[2])) != (nm == 'MAKE_CACHED_VAR'):
                                    rep.finding('cache|' + nm, '%s:%d' % (f.f, x[1]), '%s tells the multiplication cache to %s the value' % (nm, 'keep' if int(fl[2]) else 'drop'))
        rep.good('intrinsics')


def INAMES(P):
    out = {}
    with open(os.path.join(driver.SRC, 'libspu/device/intrinsic_table.h')) as f:
        for l in f:
            m = re.match(r'\s*#define\s+(\w+)\s+"([^"]+)"', l)
            if m:
                out[m.group(1)] = m.group(2)
    return out


# ------------------------------------------------------------------------------------------------ control flow and the execute() entry point
def ctrl(P, rep):
    def get(q):
        return [f for f in P.funcs if f.q == q and f.body and f.repo]
    for f in get('spu::kernel::hlo::IfElse'):
        rep.fn(f)
        cond, t, e = f.params[1:4]

        def src(pv, n, ev):
            if n[0] == 'op' and n[2] == '()' and strip(n[4][0])[0] == 'var' and strip(n[4][0])[2] in (t, e):
                return frozenset(['T' if strip(n[4][0])[2] == t else 'F'])
            return None
        pv = prov.Prov(P, src, lambda g: g.f == f.f, lambda g: last(g) in ('select', 'getBooleanValue'), lambda g: False)
        pv.fn(f, {((f.q, f.l), cond): frozenset(['C'])})
        sel = [c for c in pv.kcalls if last(callee(c[0])) == 'select']
        rep.count('secret branches', len(sel))
        if not sel:
            rep.finding('ifelse-select', '%s:%d IfElse' % (f.f, f.l), 'a secret condition does not select between the two branch results')
        for n, ps, _, _, _ in sel:
            got = [{x for x in p if x in 'TFC'} for p in ps[1:4]]
            if got != [{'C'}, {'T'}, {'F'}]:
                rep.finding('ifelse-args', '%s:%d IfElse' % (f.f, n[1]), 'select(condition, on_true, on_false) gets %s' % [''.join(sorted(x)) for x in got])
            ix = {index(a) for a in n[4][2:4]}
            if len(ix) > 1 and None not in ix:
                rep.finding('ifelse-index', '%s:%d IfElse' % (f.f, n[1]), 'results of different index are combined')
        for v in (True, False):
            for sec in (False,):
                def h(ev, n):
                    g = callee(n) if n[0] in ('call', 'mcall') else None
                    if g is not None and last(g) == 'isSecret':
                        return sec
                    if g is not None and last(g) in ('isPublic', 'isPrivate'):
                        return last(g) == 'isPublic'
                    if g is not None and last(g) == 'getBooleanValue':
                        return v
                    if n[0] == 'op' and n[2] == '()' and strip(n[4][0])[0] == 'var':
                        x = strip(n[4][0])[2]
                        return ('R', 'T' if x == t else 'F') if x in (t, e) else NO
                    return NO
                rep.count('public branches')
                try:
                    r = decide.Ev(h).run(f, [('X',)] * 4)
                except Undecided:
                    rep.count('public branches not decided')
                    continue
                if r != ('ret', ('R', 'T' if v else 'F')):
                    rep.finding('ifelse-public|%s' % v, '%s:%d IfElse' % (f.f, f.l), 'a public %s condition does not run exactly the %s branch' % (v, 'true' if v else 'false'))
        rep.good('IfElse')
    for f in get('spu::kernel::hlo::While'):
        rep.fn(f)
        inp, cond, body = f.params[1:4]
        for iters in (0, 1, 3):
            log = []

            def h(ev, n):
                g = callee(n) if n[0] in ('call', 'mcall') else None
                if n[0] == 'new' and 'vector' in str(n[2]) and any(x[0] == 'var' and x[2] == inp for x in walk(n)):
                    return ('S', 0)
                if n[0] == 'mcall' and g is not None and last(g) in ('begin', 'end'):
                    return ev.ex(n[3])
                if n[0] == 'op' and n[2] == '()' and strip(n[4][0])[0] == 'var':
                    x = strip(n[4][0])[2]
                    a = [ev.ex(y) for y in n[4][1:]]
                    if x == cond:
                        log.append(a[0])
                        if len(log) > iters + 2:
                            raise Runaway()
                        return ('B', a[0][1] < iters) if isinstance(a[0], tuple) and len(a[0]) == 2 else Undecided
                    if x == body:
                        return ('S', a[0][1] + 1)
                    y = ev.env.get(x)
                    if isinstance(y, list) and y[0] == 'lam':
                        for p, b in zip(y[2], a):
                            ev.env[p] = b
                        return ev.lam(y)
                if n[0] == 'lam':
                    return n
                if g is not None and last(g) == 'getBooleanValue':
                    x = ev.ex(n[4][1])
                    return x[1]
                if g is not None and last(g) in ('isSecret', 'isPrivate'):
                    return False
                if g is not None and last(g) == 'isPublic':
                    return True
                return NO
            rep.count('loop cases')
            try:
                r = decide.Ev(h).run(f, [('X',), ('S', 0), ('C',), ('B',)])
            except Runaway:
                r = ('ret', ('S', 'more iterations than that: the state does not advance'))
            except (Undecided, TypeError, IndexError):
                rep.count('loop cases not decided')
                continue
            if r != ('ret', ('S', iters)):
                rep.finding('while|%d' % iters, '%s:%d While' % (f.f, f.l), 'a loop whose condition holds %d times returns the state after %s' % (iters, r[1][1] if isinstance(r[1], tuple) else 'an error'))
        rep.good('While')
    for f in P.funcs:
        if f.f != 'libspu/device/api.cc' or last(f) != 'executeImpl' or not f.body:
            continue
        rep.fn(f)
        ver = False
        for n in walk(f.body):
            if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'setVar':
                rep.count('program outputs')
                i, j = index(n[4][0]), index(n[4][1])
                if i and j and '?' not in (i[0], j[0]) and i != j:
                    rep.finding('out-index', '%s:%d' % (f.f, n[1]), 'output name [%s] gets program result [%s]' % (txt(f, i), txt(f, j)))
                if 'output_names' not in show(n[4][0]) and 'input_names' in show(n[4][0]):
                    rep.finding('out-name', '%s:%d' % (f.f, n[1]), 'a program result is stored under an input name')
            if n[0] == 'for' and any(x[0] == 'mcall' and callee(x) and last(callee(x)) in ('getVar', 'setVar') for x in walk(n[5])):
                for d in walk(n[2]) if isinstance(n[2], list) else []:
                    if d[0] == 'decl':
                        for y in d[2]:
                            i = strip(y[1]) if isinstance(y[1], list) else None
                            if i and i[0] == 'int' and int(i[2]):
                                rep.finding('io-start', '%s:%d' % (f.f, n[1]), 'the first program input or output is skipped')
            if n[0] == 'mcall' and callee(n) and last(callee(n)) == 'getVar':
                rep.count('program inputs')
                if 'output_names' in show(n[4][0]):
                    rep.finding('in-name', '%s:%d' % (f.f, n[1]), 'a program input is read from an output name')
            if n[0] in ('if', 'ifc') and any(callee(x) and last(callee(x)) == 'getVersionStr' for x in walk(n[3]) if x[0] in ('call', 'mcall')):
                eq = [x for x in walk(n[3]) if x[0] in ('op', 'bin') and x[2] in ('==', '!=')]
                br = n[4] if eq and eq[0][2] == '!=' and strip(n[3])[0] != 'un' else n[5] if eq and strip(n[3])[0] != 'un' else n[4]
                ver = ver or (isinstance(br, list) and any(x[0] == 'throw' for x in walk(br)))
        hasver = any(callee(x) and last(callee(x)) == 'getVersionStr' for x in walk(f.body) if x[0] in ('call', 'mcall'))
        if not ver and not any(g.f == f.f and g.body and g is not f and any(callee(x) and last(callee(x)) == 'getVersionStr' for x in walk(g.body) if x[0] in ('call', 'mcall')) for g in P.funcs if g.repo):
            rep.finding('version', '%s:%d executeImpl' % (f.f, f.l), 'a program compiled by a different version is executed')
        rep.good('executeImpl')
