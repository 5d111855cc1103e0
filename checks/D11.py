"""D11 public values enter a sharing exactly once"""
import re
import share as H
import kernels as K

RULE = ('Whenever a protocol kernel adds (xors) a value that every party holds in the clear, or one party\'s own plaintext, into a secret sharing, exactly one party (for xor: an odd number) does so, for every world size the protocol supports; in the replicated three-party '
        'protocol exactly one of the three additive shares (for xor: an odd number) receives it, and both holders of that share agree. A sharing made from public or private plaintext alone holds it in exactly one share.')
EXPLAIN = ('Abstract interpretation of every kernel once per party rank and world size over the domain zero / public / additively shared / xor shared / local randomness / one party\'s own value, inlining helpers; '
           'each place where a plaintext meets a share is an obligation on the set of ranks (and share components) that execute it.')
ASSUME = ['operand domains are those named by the kernel\'s registered name (add_ap: additive share, public)', 'results of dispatched operations are in the domain their name states; correlated randomness providers return shares', 'values of unknown domain carry no obligation',
          'world sizes: semi2k 2-4, spdz2k 2-3, cheetah 2, securenn, aby3 3']

WORLD = {'semi2k': [2, 3, 4], 'spdz2k': [2, 3], 'cheetah': [2], 'securenn': [3], 'aby3': [3]}
SKIP = set()


def odd(k):
    return k % 2 == 1


def check_site(s, n, dom):
    """None when the site is executed by the right parties"""
    if s.target:
        slots = {}
        for r, c in s.hits:
            slots.setdefault((r + c) % 3, set()).add((r, c))
        bad = [k for k, v in slots.items() if len(v) != 2]
        if bad:
            return f'share {bad[0]} receives it at one holder only'
        if not (len(slots) == 1 if dom == H.A else odd(len(slots))):
            return f'it goes into {len(slots)} of the 3 shares'
        return None
    rs = sorted({r for r, _ in s.hits})
    if not (len(rs) == 1 if dom == H.A else odd(len(rs))):
        return f'{len(rs)} of {n} parties (ranks {", ".join(map(str, rs))}) do so'
    return None


def out_class(v, comps):
    if isinstance(v, H.Comp):
        return {k: H.flat(x) for k, x in v.items()}
    return H.flat(v)


def check_out(outs, n, dom, comps):
    """the result of a kernel that returns a sharing made of plaintext alone"""
    cl = {r: out_class(v, comps) for r, v in outs.items()}
    if comps:
        if not all(isinstance(c, dict) and set(c) == {0, 1} for c in cl.values()):
            return False, None
        if not all(x in (H.Z, H.PUB) for c in cl.values() for x in c.values()):
            return False, None
        slots = {}
        for r, c in cl.items():
            for k, x in c.items():
                slots.setdefault((r + k) % 3, set()).add(x)
        if any(len(v) > 1 for v in slots.values()):
            return True, 'the two holders of a share disagree on it'
        k = sum(v == {H.PUB} for v in slots.values())
    else:
        if not all(c in (H.Z, H.PUB) for c in cl.values()):
            return False, None
        k = sum(c == H.PUB for c in cl.values())
    if k == 0:
        return False, None
    if not (k == 1 if dom == H.A else odd(k)):
        return True, f'the value is in {k} of the {3 if comps else n} shares'
    return True, None


def run(P, rep):
    names = K.bind_names(P)
    nk = ns = nout = gave = 0
    kinds = {}
    for proto, worlds in WORLD.items():
        comps = proto == 'aby3'
        # bits are shared additively there
        modb = proto == 'spdz2k'
        for c in sorted(P.by_cls):
            if not c or not c.startswith(f'spu::mpc::{proto}::') or c not in names:
                continue
            fs = [f for f in P.by_cls[c] if f.name in ('proc', 'evaluate') and f.body is not None]
            if not fs:
                continue
            nm = names[c]
            ds, ret = H.suffix(nm)
            for f in fs:
                tens = [i for i, t in enumerate(f.p) if 'NdArrayRef' in t]
                nk += 1
                done = False
                for n in worlds:
                    seen, none = set(), {}
                    for pick in range(n) if any(x in (ds or []) for x in 'v') or ret == 'v' else (0,):
                        sites, outs, ok = {}, {}, True
                        for r in range(n):
                            w = H.Walk(P, r, n, pick, sites, comps, modb)
                            env = {}
                            for i, p in enumerate(f.params):
                                v = H.PUB
                                if i in tens:
                                    d = ds[tens.index(i)] if ds and tens.index(i) < len(ds) and f.name == 'proc' else None
                                    v = H.DOM.get(d, H.O)
                                    if d == 'b' and modb:
                                        v = H.A
                                    if d == 'v':
                                        v = H.S if r == pick else H.U
                                    if comps and d in ('a', 'b'):
                                        v = H.Comp({0: v, 1: v})
                                    if 'vector' in f.p[i] or 'Span' in f.p[i]:
                                        v = H.O
                                env[p] = w.cell(v)
                            w.fn = f
                            w.fns.add(f)
                            try:
                                outs[r] = w.body(f.body, env)
                            except H.Dead:
                                pass
                            except (H.Giveup, RecursionError):
                                ok = False
                                break
                            for g in w.fns:
                                rep.fn(g)
                        if not ok:
                            gave += 1
                            continue
                        done = True
                        for key, s in sites.items():
                            ns += 1
                            kinds[s.dom + s.raw] = kinds.get(s.dom + s.raw, 0) + 1
                            what = {H.PUB: 'a public value', H.S: "one party's plaintext", H.A: 'an additive share'}[s.raw]
                            if not s.hits:
                                none.setdefault(key[-1] if key[2] != 'slot' else key[2:], (s, what))
                                continue
                            seen.add(key[-1] if key[2] != 'slot' else key[2:])
                            b = check_site(s, n, s.dom)
                            if b:
                                rep.finding(f'{f.cls} mixes at {s.fn.q}', s.where, f'{f.cls} ({nm}), {n} parties: {what} is put into {"an additive" if s.dom == H.A else "a xor"} sharing at {s.where}, but {b}')
                            else:
                                rep.good(f'{f.cls} n={n} site {s.where}')
                        if ret in ('a', 'b') and len(outs) == n and 'NdArrayRef' in (f.r or ''):
                            hit, b = check_out(outs, n, H.A if modb else H.DOM[ret], comps)
                            nout += hit
                            if hit and b:
                                rep.finding(f'{f.cls} result', f'{f.f}:{f.l}', f'{f.cls} ({nm}), {n} parties: the sharing it makes from plaintext is wrong: {b}')
                            elif hit:
                                rep.good(f'{f.cls} n={n} result')
                    for k in none:
                        if k not in seen:
                            s, what = none[k]
                            rep.finding(f'{f.cls} mixes at {s.fn.q}', s.where, f'{f.cls} ({nm}), {n} parties: {what} is to be put into a sharing at {s.where}, but no party does so')
    rep.counts['plaintext_into_share_sites'] = ns
    rep.counts['sharings_made_of_plaintext_alone'] = nout
    rep.counts['kernel_interpretations_given_up'] = gave
    rep.counts['site_kinds'] = ' '.join(f'{k}:{v}' for k, v in sorted(kinds.items()))
    rep.need('kernels_interpreted', nk, 120)
