"""D16 random streams are used once and stay in step"""
import re
from program import walk, callee
import draws
import prss
from party import Giveup
from checks.D04 import sizes

RULE = ('typestate: a pair (seed, position) of a pseudo-random stream is drawn from at most once: every path through a function (with the helpers it calls on the same object) is followed with '
        'abstract seed and position values; a draw consumes the pair and yields a new position, which has to be stored where the position is kept before the function ends. '
        'Session projection: the draws every party makes from its pairwise and public streams are extracted per rank and compared with those of the party at the other end')
EXPLAIN = ('Draw sites are the calls of the generator primitives (FillPRand and its variants, ReplayShuffle, PrgAesCtr, Prg objects). Per root function: no pair drawn twice, no stored position left behind, '
           'no restart at a fixed position of a stream that was not seeded in this call, recorded positions are those drawn at, each stored seed has one position and the reverse. '
           'PrgState: what each generator method draws from, what the constructor exchanges, what fork hands to the child. Kernels: draws in step between linked parties for every joint choice of the rank-independent conditions.')
ASSUME = ['the generator primitives return or store a position past everything they produced', 'rank-independent conditions evaluate alike at all parties; loops are followed once unless their bounds are constants below 9',
          'replaying the stream of another party from a recorded position (the trusted dealer of the beaver protocols) is a use of that record, not of an own stream']

PS = 'spu::mpc::PrgState'


def finish(rep, D, f, R, outs, seen):
    """what is wrong at the end of a root function"""
    n = 0
    for kind, line, g, msg in R.finds:
        k = f'{g.q}|{kind}|{re.sub(r"op->|[(]v[0-9]+[)][.]|v[0-9]+", "", msg)}'
        n += 1
        if (g.q, line, kind) not in seen:
            seen.add((g.q, line, kind))
            rep.finding(k, f'{g.f}:{line}', f'{g.q} {msg}')
    for st, _ in outs:
        for s, l in draws.stale(st):
            nm = l[2] if l[0] == 'm' else l[1]
            n += 1
            if (f.q, nm) not in seen:
                seen.add((f.q, nm))
                rep.finding(f'{f.q}|left|{nm}', f'{f.f}:{f.l}', f'{f.q} draws from the stream of {R.short(s)} at position {nm} and returns with {nm} unchanged: the next draw repeats the same values')
        for w, line, g in st.rec:
            n += 1
            if (g.q, line, 'rec') not in seen:
                seen.add((g.q, line, 'rec'))
                rep.finding(f'{g.q}|rec|{line - g.l}', f'{g.f}:{line}', f'{g.q} records a stream position at which nothing was drawn: whoever replays it gets other values')
    return n


def streams(P, rep, D):
    seen, pairs, many = set(), {}, 0
    for f in sorted(D.reach, key=lambda f: (f.f, f.l)):
        if f.dep or not f.f.startswith('libspu/') or '_test' in f.f or '~' in f.name:
            continue
        R = draws.Run(D, f)
        try:
            outs = R.go()
        except (draws.Many, RecursionError):
            many += 1
            rep.sample('functions with too many paths', f.q)
            finish(rep, D, f, R, [], seen)
            continue
        if not R.draws:
            continue
        rep.fn(f)
        rep.count('functions that draw')
        rep.count('draws followed', R.draws)
        if not finish(rep, D, f, R, outs, seen):
            rep.good(f'{f.q}: {R.draws} draws')
        for (s, c), w in R.pairs.items():
            if s[0] == 'm' and c[0] == 'm' and s[1] == c[1] == 'this':
                cls = w[1].cls or f.cls
                pairs.setdefault(cls, {})[(s[2], c[2])] = w
    rep.count('functions not decided', many)
    for cls, m in sorted(pairs.items(), key=str):
        for i, what in ((0, 'seed'), (1, 'position')):
            by = {}
            for p, w in m.items():
                by.setdefault(p[i], {})[p[1 - i]] = w
            for x, ys in by.items():
                if len(ys) > 1:
                    w = sorted(ys.items())[-1][1]
                    rep.finding(f'{cls}|pair|{x}', f'{w[1].f}:{w[0]}', f'{cls}: {what} {x} goes with {" and ".join(sorted(ys))}: '
                                + ('two draws can be made at the same position' if i == 0 else 'the parties sharing one of the seeds get out of step'))
                else:
                    rep.good(f'{cls}: {what} {x} goes with {list(ys)[0]}')
        rep.count('stream fields', len(m))
    return pairs


def fields_of(v):
    if v is None:
        return set()
    if v[0] == 'drawn':
        return {v[1]}
    return set()


def roles(P, rep, D):
    """what the constructor does with each seed: {field: role}"""
    out = {}
    for f in P.by_cls.get(PS, ()):
        if f.name != 'PrgState' or not f.p or f.body is None or f.dep or 'Context' not in str(f.p[0]):
            continue
        R = draws.Run(D, f)
        outs = R.go()
        rep.fn(f)
        for st, _ in outs:
            for l, v in st.env.items():
                if l[0] != 'm' or l[1] != 'this' or v[0] not in ('fresh', 'recv', 'drawn', 'int', 'tok', 'ex'):
                    continue
                if not l[2].endswith('seed_'):
                    continue
                r = None
                if v[0] == 'recv':
                    r = ('all', '') if v[2] == 'AllGather' else ('from', v[3])
                elif v[0] == 'fresh':
                    s = [x for x in st.sent if x[0] == v]
                    r = ('to', s[0][2]) if s and s[0][1].startswith('Send') else ('told', '') if s else ('own', '')
                else:
                    r = ('fixed', '')
                out.setdefault(l[2], set()).add(r)
        return f, out
    return None, out


def prg_state(P, rep, D, pairs):
    ctor, rl = roles(P, rep, D)
    if ctor is None:
        rep.count('PrgState constructor not found')
        return
    mine = [p for p in pairs.get(PS, {})]
    seeds = {s for s, _ in mine}
    kinds = {}
    for s in sorted(seeds):
        r = rl.get(s, set())
        if len(r) != 1:
            rep.count('PrgState seeds with no single role')
            continue
        kinds[s] = next(iter(r))
    want = {'genPubl': ('all', ''), 'fillPubl': ('all', ''), 'genPriv': ('own', ''), 'fillPriv': ('own', ''), 'genPrivPerm': ('own', '')}
    SELF, NEXT = ('to', 'PrevRank'), ('from', 'NextRank')
    say = {('all', ''): 'the seed every party contributed to', ('own', ''): 'a seed that never left this party', SELF: 'the seed shared with the previous party', NEXT: 'the seed shared with the next party'}
    for s, k in kinds.items():
        if k not in say:
            rep.finding(f'{PS}|role|{s}', f'{ctor.f}:{ctor.l}', f'{PS}: the constructor sets {s} to a value that is {"sent to " + k[1] if k[0] == "to" else "received from " + (k[1] or "?") if k[0] == "from" else "told to everybody" if k[0] == "told" else "fixed"}: '
                        'the streams of neighbouring parties no longer agree')
        else:
            rep.good(f'{PS}: {s} is {say[k]}')
    n = 0
    for f in P.by_cls.get(PS, ()):
        if f.dep or f.body is None:
            continue
        if f.name in want:
            R = draws.Run(D, f)
            R.go()
            got = {s[2] for s, c in R.pairs if s[0] == 'm'}
            n += 1
            for s in got:
                if s in kinds and kinds[s] in say and kinds[s] != want[f.name]:
                    rep.finding(f'{f.q}|stream', f'{f.f}:{f.l}', f'{f.q} draws from {say[kinds[s]]} ({s}), not from {say[want[f.name]]}')
                elif s in kinds:
                    rep.good(f'{f.q} draws from {s}')
        elif f.name in ('genPrssPair', 'genPrssPermPair', 'fillPrssPair'):
            R = draws.Run(D, f)
            outs = R.go()
            for st, v in outs:
                if f.name == 'fillPrssPair':
                    got = [st.env.get(('par', f.vars[x][0])) for x in f.params[:2]]
                else:
                    got = [v[1], v[2]] if v is not None and v[0] == 'pair' else [None, None]
                for g, w, pos in zip(got, (SELF, NEXT), ('first', 'second')):
                    for s in fields_of(g):
                        if s not in kinds or kinds[s] not in say:
                            continue
                        n += 1
                        if kinds[s] != w:
                            rep.finding(f'{f.q}|{pos}', f'{f.f}:{f.l}', f'{f.q} fills its {pos} result from {say[kinds[s]]} ({s}), not from {say[w]}')
                        else:
                            rep.good(f'{f.q}: {pos} from {s}')
    rep.count('generator methods', n)
    rep.need('generator methods decided', n, 8)
    # fork
    for f in P.by_cls.get(PS, ()):
        if f.name != 'fork' or f.body is None or f.dep:
            continue
        R = draws.Run(D, f)
        for st, v in R.go():
            objs = {l[1] for l in st.env if l[0] == 'm' and l[1] != 'this'} | {x[1] for x in st.env.values() if x[0] == 'obj'}
            for o in sorted(objs):
                cp = st.env.get(('obj', o)) == 'copy'
                for s, k in kinds.items():
                    w = st.env.get(('m', o, s))
                    ok = None
                    if w is None:
                        why = f'copies {s} to the child: parent and child draw the same values' if cp else f'never sets {s} of the child'
                        ok = False
                    elif w[0] == 'drawn':
                        ok = w[1] == s
                        why = f'draws the child\'s {s} from {w[1]}: the parties at the two ends of the child\'s stream get different seeds'
                        if k[0] == 'own' and w[1] in kinds:
                            ok = kinds[w[1]][0] == 'own'
                            why = f'draws the child\'s private {s} from {w[1]}, which other parties know'
                    elif w[0] == 'fresh':
                        ok = k[0] == 'own'
                        why = f'gives the child a {s} of its own, which the other parties do not share'
                    elif w[0] in ('tok', 'copied', 'int'):
                        ok, why = False, f'sets the child\'s {s} to {R.short(w)}, not to newly drawn randomness'
                    if ok is None:
                        rep.count('fork seeds not decided')
                    elif ok:
                        rep.good(f'{f.q}: child {s}')
                    else:
                        rep.finding(f'{f.q}|child|{s}', f'{f.f}:{f.l}', f'{f.q} {why}')
        rep.fn(f)


def kernels(P, rep):
    S = prss.Draws(P)
    deep = rep.tier == 'thorough'

    def top(f):
        return not any(g in S.reach and g is not f and not g.dep for g in S.rev.get(f, ()))
    roots = [f for f in P.funcs if f in S.reach and f.f.startswith('libspu/mpc/') and not f.dep and f.q not in prss.PRSS and '_test' not in f.f and '~' not in f.name
             and not f.f.endswith('simulate.h') and top(f)]
    # a function that is not itself reached from a root by static calls still counts
    done, ndec = set(), 0
    for f in sorted(roots, key=lambda f: (f.f, f.l)):
        for n in sizes(f, deep):
            k = thrown = und = mx = bad = 0
            try:
                for out, val, amb in S.runs(f, n, 4000 if deep else 300):
                    k += 1
                    if out is None:
                        thrown += 1
                        continue
                    d = [[e for e in o if e[0] in ('self', 'next', 'publ')] for o in out]
                    mx = max(mx, sum(map(len, d)))
                    for o in d:
                        done |= {e[5].q for e in o if e[5] is not None}
                    m = prss.clash(d)
                    if not m:
                        continue
                    if amb:
                        und += 1
                        continue
                    bad += 1
                    g = m[1][5] or f
                    rep.finding(f'{f.q}|{g.q}|{m[0]}', f'{g.f}:{m[1][4]}', f'{f.q} with {n} parties: {m[0]}')
            except (Giveup, RecursionError):
                rep.count('kernels explored only in part')
            if not mx:
                continue
            rep.count('joint runs', k)
            rep.count('joint runs not decided', und)
            rep.count('draws of one run, at most', mx)
            if k > thrown + und:
                ndec += 1
                rep.fn(f)
                if not bad:
                    rep.good(f'{f.q} n={n}: {k} joint runs, up to {mx} draws')
    own = {f for f in P.funcs if f.f.startswith('libspu/mpc/') and '_test' not in f.f and not f.dep and any(callee(x) is not None and callee(x).q in prss.PRSS for x in walk(f.body))}
    miss = sorted({f.q for f in own} - done - set(prss.PRSS))
    rep.count('functions with linked draws seen', len(done))
    rep.count('functions with linked draws not reached', len(miss))
    for q in miss:
        rep.sample('linked draws not reached', q, 20)
    rep.need('kernels decided', ndec, 40)


def run(P, rep):
    D = draws.Draws(P)
    pairs = streams(P, rep, D)
    prg_state(P, rep, D, pairs)
    kernels(P, rep)
