"""D01 kernel dispatch contract"""
import collections
import itertools
import flow
import kernels as K
from program import callee, strip, walk
from driver import Broken

RULE = ('call-graph reachability from the tensor layers and the protocol API with capability guards resolved per protocol; '
        'signature match between every dynamic dispatch and the evaluate() of every kernel registered under that name; '
        'exactly-one-output path rule; in-order argument forwarding')
EXPLAIN = ('For each of the seven registered protocols the registration entry is walked to get (name, kernel class, guards); every dynDispatch in the '
           'repository is resolved to constant names; names reachable for a protocol after resolving hasKernel() guards must be registered on every configuration path; '
           'argument/return types at each dispatch are compared with the getParam<T>(i)/pushOutput<T> calls of the kernel\'s nearest evaluate(); '
           'evaluate() must push exactly one output on each normal path and hand parameters to proc() in order; API functions must forward their own parameters in order.')
ASSUME = ['a dispatch name is a compile-time constant (any other form stops the analysis as undecided)',
          'the table of unsupported operations per protocol was read off the reviewed tree: those operations fail with an explicit "kernel not found" error, they do not compute a wrong result']

HK = {'spu::SPUContext::hasKernel', 'spu::KernelEvalContext::hasKernel', 'spu::Object::hasKernel'}

# operations a protocol documents no support for (they are refused at run time by getKernel); reviewed by hand
_noprf = {'multi_key_lowmc_b', 'lowmc_b'}
_noread = {'oram_read_aa', 'oram_read_ap'}  # reachable only after oram_onehot_*, itself capability-guarded
_common = {'conv2d_aa'}
_noexp = {'exp_a'}
UNSUPPORTED = {
    # ref2k keeps one undifferentiated secret type: the a/b conversions are behind type tests that never hold
    'ref2k': _noprf | _noread | _common | _noexp | {'xor_bp', 'a2b', 'b2a'},
    # exp_a is dispatched and registered under the same configuration switch
    'semi2k': _noread | _common | _noexp,
    'aby3': _noprf | _common | _noexp,
    'cheetah': _noprf | _noread | _common | _noexp,
    'securenn': _noprf | _noread | _common | _noexp | {'rand_b'},
    'swift': _noprf | _noread | _common | _noexp | {'rand_b', 'common_type_v'},
    'spdz2k': _noprf | _noread | _common | _noexp | {'rand_b', 'common_type_v', 'cast_type_b'},
}
# kernels registered by conditional registrations with a counterpart that provides the fallback (see DESIGN.md)
EXTRA_ARGS_OK = {('trunc_p', 'spu::SignType'), ('trunc_v', 'spu::SignType')}  # the sign hint is only used by secret truncation


def nt(t):
    t = K.norm_type(t)
    return t.replace('long long', 'long') if t else t


def run(P, rep):
    roots = K.protocol_roots(P)
    rep.need('protocols', len(roots), 7)
    R = {p: K.registrations(P, f) for p, f in roots.items()}
    S = K.dispatch_sites(P)
    rep.need('registrations', sum(map(len, R.values())), 600)
    rep.need('dispatch_sites', len(S), 140)
    by_site = collections.defaultdict(list)
    for s in S:
        by_site[s[3]].append(s)
    cls_of = collections.defaultdict(set)
    for p, rs in R.items():
        for nm, cl, g, f, ln in rs:
            cls_of[nm].add(cl)
    # --- availability
    entry = [f for f in P.funcs if not f.dep and (f.q.startswith('spu::kernel::') or (f.f in ('libspu/mpc/api.cc',) and f.q.startswith('spu::mpc::')))]
    rep.need('entry functions', len(entry), 500)
    for p, rs in R.items():
        by = collections.defaultdict(list)
        for nm, cl, g, f, ln in rs:
            by[nm].append((g, cl, f, ln))
        for nm, v in by.items():
            for i, a in enumerate(v):
                for b in v[i + 1:]:
                    if not K.exclusive(a[0], b[0]):
                        rep.finding(f'dup:{p}:{nm}', f'{b[2].f}:{b[3]}', f'protocol {p} registers operation "{nm}" twice on one path ({a[1]} and {b[1]}): set-up throws')
                    else:
                        rep.good()
            if len(v) == 1:
                rep.good()

        conds = sorted({(x[2] and x[0]) for v in by.values() for g, *_ in v for x in g})
        vals = {c: sorted({str(x[1]) for v in by.values() for g, *_ in v for x in g if x[0] == c} | {'0', '1'}) for c in conds}
        if len(conds) > 8:
            raise Broken(f'{p}: too many registration switches')
        reached, miss, sets = set(), {}, []
        for combo in itertools.product(*[vals[c] for c in conds]):
            cfg = dict(zip(conds, combo))
            have = frozenset(n for n, v in by.items() if any(all(cfg[x[0]] == str(x[1]) for x in g) for g, *_ in v))
            if have not in sets:
                sets.append(have)
        rep.counts[f'configurations_{p}'] = len(sets)
        for have in sets:
            def ev(n, f=None, depth=0):
                c = callee(n)
                if n[0] == 'mcall' and c is not None and c.q in HK:
                    s = K.str_of(P, n[4][0])
                    if s:
                        v = {x in have for x in s}
                        return v.pop() if len(v) == 1 else None
                elif n[0] == 'call' and c is not None and c.repo and c.r == 'bool' and c.body is not None and depth < 4:
                    rs = [x[2] for x in walk(c.body) if x[0] == 'ret']
                    if len(rs) == 1:
                        return flow.truth(rs[0], lambda m: ev(m, c, depth + 1))
                elif n[0] == 'var' and f is not None and n[2] in f.vars and (f.vars[n[2]][1] or '').endswith('bool') and depth < 4 and n[2] not in f.params:
                    ds = flow.defs_of(f, n[2])
                    if len(ds) == 1:
                        return flow.truth(ds[0], lambda m: ev(m, f, depth + 1))
                return None
            seen, wl = set(), list(entry)
            while wl:
                f = wl.pop()
                if f in seen or f.body is None:
                    continue
                seen.add(f)
                rep.fn(f)
                for n in flow.reach_nodes(f.body, lambda m: ev(m, f)):
                    c = callee(n)
                    if n[0] == 'call' and c is not None and c.q == 'spu::dynDispatch':
                        for x in K.str_of(P, n[4][1], f) or ():
                            if x in have:
                                rep.good(f'{p}: {f.q} -> {x}', 'available')
                            elif x not in UNSUPPORTED.get(p, ()):
                                miss.setdefault(x, (f, n[1], x in by))
                    if c is not None and c.repo and n[0] != 'new':
                        wl.append(c)
                        for s in by_site.get(f, ()):
                            if s[5] is c and s[4] == n[1] and s[0] not in have and s[0] not in UNSUPPORTED.get(p, ()):
                                miss.setdefault(s[0], (f, n[1], s[0] in by))
                    if n[0] == 'fref':
                        wl.append(n[2])
            reached |= seen
        seen = reached
        for x, (f, ln, cond) in miss.items():
            rep.finding(f'missing:{p}:{x}', f'{f.f}:{ln}', f'{f.q} dispatches "{x}", which protocol {p} ' + ('registers only in some configurations' if cond else 'does not register'))
        rep.counts[f'reachable_functions_{p}'] = len(seen)
    # --- capability guards name the operation they guard
    for f in by_site:
        for n in walk(f.body):
            if n[0] != 'if':
                continue
            g = strip(n[3])
            if g is None or g[0] != 'mcall' or callee(g) is None or callee(g).q not in HK:
                continue
            s = K.str_of(P, g[4][0], f)
            d = [K.str_of(P, x[4][1], f) for x in walk(n[4]) if x[0] == 'call' and callee(x) is not None and callee(x).q == 'spu::dynDispatch']
            for y in d:
                if s and y and not (y & s) and not any(all(y & set(by) for by in [{r[0] for r in R[p]}]) for p in R if s & {r[0] for r in R[p]}):
                    rep.finding(f'guard:{f.q}:{sorted(s)[0]}', f'{f.f}:{n[1]}', f'{f.q} tests for operation {sorted(s)} but then dispatches {sorted(y)}')
                else:
                    rep.good()
    # --- calling convention
    sigs = {}
    for nm, cl in sorted((a, b) for a in cls_of for b in cls_of[a]):
        ev = K.method(P, cl, 'evaluate', lambda f: f.body is not None)
        if ev is None:
            raise Broken(f'no evaluate() for kernel {cl}')
        if ev not in sigs:
            rep.fn(ev)
            ps, outs, bad = {}, set(), False
            helper = [ev] + [callee(n) for n in walk(ev.body) if callee(n) is not None and callee(n).repo and callee(n).body is not None and any('KernelEvalContext' in p for p in callee(n).p) and callee(n).name != 'proc']
            for h in helper:
                for n in walk(h.body):
                    c = callee(n)
                    if n[0] == 'mcall' and c is not None and c.q == 'spu::KernelEvalContext::getParam':
                        i = strip(n[4][0])
                        if i is None or i[0] != 'int':
                            bad = True
                            continue
                        i = int(i[2])
                        t = nt(c.t[0])
                        if ps.setdefault(i, t) != t:
                            rep.finding(f'param:{ev.q}:{i}', f'{ev.f}:{n[1]}', f'{ev.q} reads parameter {i} as both {ps[i]} and {t}')
                    if n[0] == 'mcall' and c is not None and c.q == 'spu::KernelEvalContext::pushOutput':
                        outs.add(nt(c.t[0] if c.t else 'spu::Value'))
            if bad:
                raise Broken(f'{ev.q} reads a parameter at a computed position')
            sigs[ev] = (ps, outs)
            # exactly one output on each normal path (following helpers is not needed: all push directly)
            cnt = flow.events_on_paths(ev.body, lambda n: n[0] == 'mcall' and callee(n) is not None and callee(n).q == 'spu::KernelEvalContext::pushOutput')
            if len(helper) == 1 or any(True for n in walk(ev.body) if callee(n) is not None and callee(n).q == 'spu::KernelEvalContext::pushOutput'):
                if cnt - {1}:
                    rep.finding(f'output:{ev.q}', f'{ev.f}:{ev.l}', f'{ev.q} can finish having pushed {sorted(cnt)} outputs: the caller reads output 0 (an empty result if none was pushed)')
                else:
                    rep.good(ev.q, 'one output')
            # in-order forwarding to proc
            org = {}
            for n in walk(ev.body):
                if n[0] == 'decl':
                    for y in n[2]:
                        o = origin(y[1], org)
                        if o is not None:
                            org[y[0]] = o
                elif n[0] in ('mcall', 'op', 'asg', 'rfor'):
                    track(n, org)
            for n in walk(ev.body):
                c = callee(n)
                if n[0] == 'mcall' and c is not None and c.name == 'proc':
                    for j, a in enumerate(n[4][1:]):
                        o = origin(a, org)
                        if o is None:
                            continue
                        if o != {j}:
                            rep.finding(f'order:{ev.q}:{j}', f'{ev.f}:{n[1]}', f'{ev.q} passes parameter {sorted(o)} of the request as argument {j} of the protocol implementation')
                        else:
                            rep.good(f'{ev.q} arg {j}', 'in order')
        ps, outs = sigs[ev]
        for s in S:
            if s[0] != nm:
                continue
            _, ret, args, f, ln, via = s
            args = [nt(a) for a in args]
            ok = True
            for i, t in ps.items():
                if i >= len(args):
                    rep.finding(f'arity:{nm}:{cl}:{f.q}', f'{f.f}:{ln}', f'{f.q} passes {len(args)} arguments to "{nm}" but {cl} ({ev.q}) reads parameter {i}')
                    ok = False
                elif args[i] != t:
                    rep.finding(f'type:{nm}:{cl}:{f.q}:{i}', f'{f.f}:{ln}', f'{f.q} passes {args[i]} as argument {i} of "{nm}" but {cl} ({ev.q}) reads it as {t} (std::bad_variant_access)')
                    ok = False
            for i in range(len(args)):
                if i not in ps and (nm, args[i]) not in EXTRA_ARGS_OK:
                    rep.finding(f'ignored:{nm}:{cl}:{i}', f'{f.f}:{ln}', f'argument {i} ({args[i]}) of "{nm}" is never read by {cl} ({ev.q})')
                    ok = False
            if outs and outs != {nt(ret)}:
                rep.finding(f'ret:{nm}:{cl}:{f.q}', f'{f.f}:{ln}', f'{f.q} expects {ret} from "{nm}" but {cl} pushes {sorted(outs)}')
                ok = False
            if ok:
                rep.good(f'{nm} {cl}', 'signature')
    # --- API functions forward their own parameters, in order
    for s in S:
        nm, ret, args, f, ln, via = s
        if not (f.f.startswith('libspu/mpc/') and f.f.endswith('api.cc')):
            continue
        for n in walk(f.body):
            c = callee(n)
            if n[0] == 'call' and n[1] == ln and c is not None and (c.q == 'spu::dynDispatch' or c is via):
                got = [strip(a) for a in n[4][2:]]
                idx = [f.params.index(a[2]) - 1 if a is not None and a[0] == 'var' and a[2] in f.params else None for a in got]
                if None in idx:
                    rep.count('dispatches with computed arguments')
                    continue
                # an operation on (x, y) may only be requested with the operands swapped if the request itself is the mirrored one
                if idx != sorted(idx):
                    rep.finding(f'apiorder:{f.q}:{nm}', f'{f.f}:{ln}', f'{f.q} requests "{nm}" with its operands in the order {idx}')
                elif f.name == nm and len(idx) < len([p for p in f.p[1:] if 'DataType' not in p]):
                    rep.finding(f'apidrop:{f.q}', f'{f.f}:{ln}', f'{f.q} does not pass on all of its parameters to "{nm}"')
                else:
                    rep.good(f'{f.q} -> {nm}', 'forwarding')


def origin(n, org):
    """set of request-parameter positions an expression is made from"""
    out = set()
    for x in walk(n) if n is not None else ():
        if x[0] == 'mcall' and callee(x) is not None and callee(x).q == 'spu::KernelEvalContext::getParam':
            i = strip(x[4][0])
            out.add(int(i[2]) if i[0] == 'int' else -1)
        elif x[0] == 'var' and x[2] in org:
            out |= org[x[2]]
    return out or None


def track(n, org):
    if n[0] == 'rfor' and n[2] is not None:
        o = origin(n[3], org)
        if o:
            org[n[2]] = o
    elif n[0] == 'mcall' and callee(n) is not None and callee(n).name in ('push_back', 'emplace_back'):
        b = strip(n[3])
        o = set()
        for a in n[4]:
            o |= origin(a, org) or set()
        if b is not None and b[0] == 'var' and o:
            org[b[2]] = org.get(b[2], set()) | o
    elif n[0] == 'op' and n[2] == '=' and len(n[4]) == 2:
        b = strip(n[4][0])
        while b is not None and b[0] in ('op', 'idx', 'mem'):
            b = strip(b[4][0] if b[0] == 'op' else b[2])
        # only the value assigned counts, the element index does not
        o = origin(n[4][1], org)
        if b is not None and b[0] == 'var' and o:
            org[b[2]] = org.get(b[2], set()) | o
