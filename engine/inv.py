"""Inversion by the binary extended Euclidean algorithm: inductive invariants at every loop header.

Candidate invariants come from concrete executions of the encoding; the solver keeps those that are inductive (every
segment between loop headers, all values symbolic). The post-condition then follows from invariants and exit condition.
"""
from frame import *
from spec import *
from pk import Pk, Packed
from lin import Lin, LBool, CmpInt
from core import headers
import itertools
KM = {6: 1 << 384, 4: 1 << 256}
MOD = {6: Q, 4: R}
def leaves(v, n, path=()):
    "paths of n-word integers inside a value"
    if isinstance(v, Packed): yield path, v; return
    if type(v) is tuple:
        if len(v) == n and all(type(x) is int or isinstance(x, Lin) for x in v): yield path, v; return
        for k, x in enumerate(v): yield from leaves(x, n, path + (k,))
class Loops:
    def __init__(self, n):
        self.n = n; self.m = MOD[n]
        self.havoc = {}        # header -> ordinals of objects the loop writes
        self.cand = {}         # header -> {key: candidate}
        self.meas = {}         # header -> {measure}
        self.snaps = {}        # header -> list of (run, {leaf: int})
        self.bad = []
def concrete_run(ctx, arch, L, fn, A, rid):
    ex = ctx.exec(arch)
    pk = Pk(); ex.contracts.update(pk.contracts()); n = L.n
    act = {}
    def hook(ex, f, e, b, prev):
        k = (f.name, b)
        if prev in headers(f)[b]: pass
        else: act[k] = len(ex.allocs)
        cnt = act.get(k, len(ex.allocs))
        sn = {}
        for i, o in enumerate(ex.allocs[:cnt]):
            for p, v in leaves(o.v, n): sn[(i, p)] = pk.pv(v)
        L.snaps.setdefault(k, []).append((rid, sn))
    ex.loophook = hook
    out = []
    def body(ex):
        v = (words(A, n),) if n == 6 else (ex.new(words(A, n)),)
        return ex.call(fn, (v,))
    r = ex.explore(body, 2)
    return r
def mkcands(L, k, As):
    "candidate invariants for header k from the snapshots"
    m = L.m; ss = L.snaps[k]
    keys = sorted(set.intersection(*[set(s) for _, s in ss]))
    C = {}
    for x in keys:
        vs = [s[x] for _, s in ss]
        mx = max(vs); mn = min(vs)
        if mx <= m - 1: C[('le', x, m - 1)] = 1
        elif mx <= m: C[('le', x, m)] = 1
        if mn >= 1: C[('ge1', x)] = 1
        if all(v % 2 == 1 for v in vs): C[('odd', x)] = 1
        if len(set(vs)) > 1: C[('mono', x)] = 1
        for y in keys:
            if x == y: continue
            if len(set(s[x] for _, s in ss)) > 1 and len(set(s[y] for _, s in ss)) > 1 and all(s[x] >= 1 or s[y] == 1 for _, s in ss): C[('ge1or', x, y)] = 1
            ks = set()
            for r, s in ss:
                if s[y] % m == 0:
                    if s[x] % m: ks = None; break
                    continue
                ks.add(s[x] * pow(s[y], -1, m) * As[r] % m)
                if len(ks) > 1: break
            if ks and len(ks) == 1 and len(set(s[y] for _, s in ss)) > 1: C[('cong', x, y, ks.pop())] = 1
    M = [('one', x) for x in keys] + [('sum', x, y) for x, y in itertools.combinations(keys, 2)]
    return C, M
def run(ctx, arch, fn, n):
    m = MOD[n]; K = KM[n]
    L = Loops(n)
    rng = random.Random(7)
    As = [rng.randrange(1, m) for _ in range(4)] + [1, 2, m - 1]
    for i, A in enumerate(As): concrete_run(ctx, arch, L, fn, A, i)
    if not L.snaps: raise Unsupported('no loop in ' + fn)
    for k in L.snaps: L.cand[k], L.meas[k] = mkcands(L, k, As); L.meas[k] = list(L.meas[k])
    first = True
    for rnd in range(12):
        fails, posts, restart = once(ctx, arch, fn, L, check_post=False)
        if restart: continue
        if not fails: break
        for k, c in fails:
            if isinstance(c, tuple) and c in L.cand[k]: del L.cand[k][c]
            elif c[0] == 'meas' and c[1] in L.meas[k]: L.meas[k].remove(c[1])
    else: raise Unsupported('invariants did not stabilise')
    fails, posts, restart = once(ctx, arch, fn, L, check_post=True)
    if fails or restart: raise Unsupported('invariants not inductive')
    return L, posts
def once(ctx, arch, fn, L, check_post):
    n = L.n; m = L.m; K = KM[n]
    pk = Pk(); lt = pk.lt; lt.tmo = 12
    ex = ctx.exec(arch); ex.contracts.update(pk.contracts()); ex.feasible = lt.feasible
    A = lt.var('A', 0, m - 1); al = lt.var('alpha', 0, m - 1)
    fails = set(); st = {'restart': False}
    def env(ex, cnt):
        d = {}
        for i, o in enumerate(ex.allocs[:cnt]):
            for p, v in leaves(o.v, n): d[(i, p)] = pk.pv(v)
        return d
    def lb(c, d, outer=()):
        if c[0] == 'mono':          # not larger than when the enclosing loops' headers were last passed
            g = True
            for o in outer:
                if c[1] in o: g = lt.band(g, lt.ge(lt.sub(o[c[1]], d[c[1]])))
            return g
        if c[0] == 'le': return lt.ge(lt.sub(c[2], d[c[1]]))
        if c[0] == 'ge1': return lt.ge(lt.sub(d[c[1]], 1))
        if c[0] == 'ge1or': return lt.bor(lt.ge(lt.sub(d[c[1]], 1)), lt.eq0(lt.lift(lt.sub(d[c[2]], 1))))
        if c[0] == 'odd':
            V = d[c[1]]
            return V % 2 == 1 if type(V) is int else lt.eq0(lt.sub(lt.sub(V, lt.scale(lt.floor(V, 1), 2)), 1))
    def meas(c, d): return d[c[1]] if c[0] == 'one' else lt.add(d[c[1]], d[c[2]])
    def outer(k):
        r = []
        for k2, v in ex.loopstate.items():
            if k2 == k: break
            r.append(v[2])
        return r
    def check(ex, k, d):
        for c in list(L.cand[k]):
            if (k, c) in fails: continue
            if any(x not in d for x in c[1:] if isinstance(x, tuple)): fails.add((k, c)); continue
            if c[0] == 'cong':
                e = lt.sub(d[c[1]], lt.scale(lt.mul(d[c[2]], al), c[3]))
                r = pk.cong(ex.pc, e, m)
            else: r = lt.prove(ex.pc, lb(c, d, outer(k)))
            if r[0] != 'unsat': fails.add((k, c))
    def hook(ex, f, e, b, prev):
        k = (f.name, b); S = ex.loopstate
        if k not in ex.loopstate and not st.get('inv') :
            if lt.prove(ex.pc, lt.ge(lt.sub(A, 1)))[0] != 'unsat': raise Unsupported('loop reached with operand zero')
            (mm, _), = lt.mul(A, al).t.items(); lt.rules.setdefault(m, {})[mm.id] = lt.lift(1); st['inv'] = True
        if k not in L.cand: raise Unsupported('loop not seen in concrete runs')
        back = prev in headers(f)[b] and k in S
        if back:
            cnt, mark, d0 = S[k][:3]
            wr = set(id(o) for o, old in ex.journal[mark:])
            for i, o in enumerate(ex.allocs[:cnt]):
                if id(o) in wr and i not in L.havoc.setdefault(k, set()):
                    L.havoc[k].add(i); st['restart'] = True
            if any(id(o) in wr and o.born != ex.epoch for o, _ in ex.journal[mark:]): raise Unsupported('loop writes outside locals')
            if not st['restart']:
                d = env(ex, cnt)
                check(ex, k, d)
                for c in list(L.meas[k]):
                    if (k, ('meas', c)) in fails: continue
                    g = lt.ge(lt.sub(lt.sub(meas(c, d0), meas(c, d)), 1)) if all(x in d and x in d0 for x in c[1:]) else False
                    if lt.prove(ex.pc, g)[0] != 'unsat': fails.add((k, ('meas', c)))
            raise Infeasible()
        cnt = len(ex.allocs)
        d = env(ex, cnt); check(ex, k, d)
        ph = f.blocks[b].phis
        if ph is not None:
            for s, t in zip(ph[0], ph[2]):
                if type(e[s]) is int or isinstance(e[s], Lin): e[s] = lt.var('phi', 0, (1 << 64) - 1)
                elif not isinstance(e[s], Ptr): raise Unsupported('loop-carried value')
        for i in sorted(L.havoc.setdefault(k, set())):
            if i >= cnt: continue
            o = ex.allocs[i]; v = o.v
            for p, x in list(leaves(v, n)):
                hi = (1 << 64 * n) - 1
                for c in L.cand[k]:
                    if c[0] == 'le' and c[1] == (i, p): hi = min(hi, c[2])
                v = ex.upd(v, p, 0, pk.var('x', n, hi)) if p else pk.var('x', n, hi)
            ex.setobj(o, v)
        d = env(ex, cnt)
        done = set()
        for c in L.cand[k]:
            if any(x not in d for x in c[1:] if isinstance(x, tuple)): continue
            if c[0] == 'cong':
                X = d[c[1]]
                if c[1][0] in L.havoc[k] and c[1] not in done and isinstance(X, Lin):
                    (a, _), = X.t.items(); done.add(c[1])
                    lt.rules.setdefault(m, {})[a.id] = lt.lift(lt.scale(lt.mul(d[c[2]], al), c[3]))
            else:
                g = lb(c, d, outer(k))
                if g is not True: ex.assume(g)
        S[k] = (cnt, len(ex.journal), d)
    def oncmp(ex, x, y):
        # gcd of the two cofactor-free remainders is 1 (they start as A and the prime modulus): equal only when 1
        if ex.stack and ex.stack[-1] == fn and isinstance(x, Lin) and isinstance(y, Lin):
            ex.assume(lt.bor(lt.bnot(lt.eq0(lt.lift(lt.sub(x, y)))), lt.eq0(lt.lift(lt.sub(x, 1)))))
    pk.oncmp = oncmp; ex.loophook = hook
    def body(ex):
        ex.loopstate = {}
        v = (Packed(pk, A, 6),) if n == 6 else (ex.new(Packed(pk, A, 4)),)
        if check_post is not None: pass
        r = ex.call(fn, (v,))
        if n == 6: res, ok = r; nil = False; V = pk.pv(ex.proj(res, 0))
        else:
            nil = r is None; ok = not nil
            V = None if nil else pk.pv(ex.load(ex.proj(ex.load(r), 0)))
        kp = True if n == 6 else lt.lift(lt.sub(pk.pv(ex.load(v[0])), A))
        return V, ok, kp, dict(ex.loopstate)
    posts = []
    for pr in ex.explore(body, 400):
        if pr.panic:
            posts.append(('no panic', 'open', pr.panic.msg)); continue
        V, ok, kp, ls = pr.val
        if not check_post or fails: continue
        z = lt.eq0(A)
        if ok is True:
            posts.append(('success only for non-zero', lt.prove(pr.pc, lt.bnot(z))[0], ''))
            posts.append(('result below the modulus', lt.prove(pr.pc, lt.ge(lt.sub(m - 1, V)))[0], ''))
            posts.append(('result * operand = 1 (Montgomery form)', pk.cong(pr.pc, lt.sub(V, lt.scale(al, K * K % m)), m)[0], ''))
        elif ok is False: posts.append(('failure only for zero', lt.prove(pr.pc, z)[0], ''))
        else: posts.append(('flag', 'unknown', ''))
        if kp is not True: posts.append(('operand unchanged', lt.prove(pr.pc, lt.eq0(kp))[0], ''))
    return fails, posts, st['restart']
def inverse(fn, arch, n):
    def go(ctx):
        L, posts = run(ctx, arch, fn, n)
        t = '%s [%s]' % (fn.replace(P, ''), arch)
        recs = []
        for lab in sorted(set(p[0] for p in posts)):
            ps = [p for p in posts if p[0] == lab]
            ok = all(p[1] == 'unsat' for p in ps)
            recs.append(Rec('%s: %s' % (t, lab), 'proved' if ok else 'open', '%d paths' % len(ps) if ok else str(ps)[:300]))
        for k in sorted(L.cand):
            recs.append(Rec('%s: loop at block %d terminates (decreasing measure)' % (t, k[1]), 'proved' if L.meas[k] else 'open',
                            '%d invariants, measures %s' % (len(L.cand[k]), L.meas[k][:2])))
        if not any('Montgomery form' in r.name for r in recs): recs.append(Rec(t + ': result', 'open', 'no successful path'))
        return recs
    return go
