"""C11: the pairing.
1. preparation: each step's point and line coefficients, as identities over F_q (cut at every step's point)
2. loop: exponent of every line value in the result
3. final exponentiation: exponent as an integer
4. comparison and Pairing: pairing values by logarithms
"""
from ringops import *
from gexp import G, GE, check, padd, pscale
from proto import Proto, PT
import spec, ref, random, solve
from pspec import gmul, DL, reps
LEVEL = 'model_checking'
OUTSIDE = ['preparation: every affine point of the twist (formal coordinates); that no step meets an exceptional case on the prime-order subgroup is used', 'loop: the listed numbers of pairs (1 to 4 with infinity in every single position, larger numbers at samples of positions)', 'comparison: every pair of points by logarithm']
ASSUME = ['field arithmetic at the FQ2/FQ12 level is exact (C02, C05)', 'conversion to affine coordinates is exact (C07)', 'bilinearity and non-degeneracy of the optimal ate pairing as defined by its line functions and exponent']
XB = bin(ref.XPARAM >> 1)[3:]           # bits after the leading one
STEPS = []                               # ('d'|'a', iteration)
for _t, _b in enumerate(XB):
    STEPS.append(('d', _t))
    if _b == '1': STEPS.append(('a', _t))
STEPS.append(('d', len(XB)))
NIT = len(XB)
FN = {k: P + k for k in ('G2AffineToPrepared', 'MillerLoop', 'FinalExponentiation', 'Pairing', 'CompareTwoPairings')}
def dblf(X, Y, Z):
    "next point, tangent line times 2 Y Z^3: (y_P, x_P, 1)"
    M = 3 * X * X; S = 4 * X * Y * Y
    X3 = M * M - 2 * S; Y3 = M * (S - X3) - 8 * Y ** 4
    return (X3, Y3, 2 * Y * Z), (2 * Y * Z ** 3, -(M * Z * Z), M * X - 2 * Y * Y)
def addf(X, Y, Z, x, y):
    "next point, chord times Z3"
    ZZ = Z * Z; H = x * ZZ - X; r = 2 * (y * Z * ZZ - Y); I = 4 * H * H; J = H * I; V = X * I
    X3 = r * r - J - 2 * V; Y3 = r * (V - X3) - 2 * Y * J; Z3 = 2 * Z * H
    return (X3, Y3, Z3), (Z3, -r, r * x - y * Z3)
def evaluate(ring, env, mod=Q):
    val_ = [0] * len(ring.nodes)
    for n in ring.nodes:
        if n.op == 'c': val_[n.id] = n.a % mod
        elif n.op == 'v': val_[n.id] = env(n.a)
        elif n.op == '+': val_[n.id] = (val_[n.a[0].id] + val_[n.a[1].id]) % mod
        elif n.op == '*': val_[n.id] = val_[n.a[0].id] * val_[n.a[1].id] % mod
        else: val_[n.id] = -val_[n.a[0].id] % mod
    return val_
def cut(ring, n, sub):
    "the same term with the given nodes replaced"
    memo = dict(sub); st = [n]
    while st:
        m = st[-1]
        if m.id in memo: st.pop(); continue
        if m.op in 'cv': memo[m.id] = m; st.pop(); continue
        todo = [a for a in m.a if a.id not in memo]
        if todo: st += todo; continue
        a = [memo[x.id] for x in m.a]
        memo[m.id] = ring.neg(a[0]) if m.op == '-' else ring.mk(m.op, a[0], a[1]); st.pop()
    return memo[n.id]
def prepared(arch):
    def go(ctx):
        h = RH(ctx, arch, 'fq2'); ring = h.ring; fn = FN['G2AffineToPrepared']; recs = []
        X, Y = ring.var('X'), ring.var('Y')
        def body(ex):
            q = ex.new((ring.mkel(X, 'fq2'), ring.mkel(Y, 'fq2'), False), 'arg q')
            r = ex.call(fn, (q,)); v = ex.load(r); now = ex.load(q)
            same = ring.lift(now[0], 'fq2') is X and ring.lift(now[1], 'fq2') is Y and now[2] is False
            return [tuple(ring.lift(c, 'fq2') for c in t) for t in ex.slice_vals(v[0])], v[1], same
        prs = list(h.ex.explore(body, 8))
        def rec(lab, ok, note=''): recs.append(Rec('G2AffineToPrepared [%s] %s' % (arch, lab), 'proved' if ok else 'open', note)); return ok
        if len(prs) != 1 or prs[0].panic: rec('runs', False, 'paths: %s' % [p.panic and p.panic.msg for p in prs]); return recs
        cs, inf, same = prs[0].val
        rec('input unchanged, not marked infinite', same and inf is False)
        if not rec('number of coefficients', len(cs) == len(STEPS), '%d' % len(cs)): return recs
        rng = random.Random(11); rv = {}
        vals = evaluate(ring, lambda a: rv.setdefault(a, rng.randrange(Q)))
        where = {}
        for n in ring.nodes: where.setdefault(vals[n.id], n)
        x, y = vals[X.id], vals[Y.id]; cur = (x, y, 1); node = (X, Y, ring.c(1)); bad = None
        scale = None
        for i, (kind, t) in enumerate(STEPS):
            # fresh coordinates for the point before this step
            if i == 0: fresh = (X, Y, ring.c(1)); sub = {}
            else:
                fresh = tuple(ring.var('r%s%d' % (c, i)) for c in 'xyz'); sub = {n.id: f for n, f in zip(node, fresh)}
                sub[X.id] = X; sub[Y.id] = Y
            nxt, ln = dblf(*fresh) if kind == 'd' else addf(*fresh, X, Y)
            num = (lambda a: tuple(z % Q for z in a))
            cn, _ = dblf(*cur) if kind == 'd' else addf(*cur, x, y); cur = num(cn)
            got = [cut(ring, c, sub) for c in cs[i]]
            # constant factor of the line, the same for the whole triple
            ok = None
            for k in ([scale] if scale else []) + [2, 1, Q - 2, Q - 1]:
                k_ = k
                if i and k != scale and scale is None: continue
                g = True
                for a, b in zip(got, ln): g = ring.band(g, ring.eq(a, k_ * b))
                if ring.prove([], g, hyps=False)[0] == 'unsat': ok = k_; break
            if ok is None and scale:
                for k_ in (1, 2, Q - 1, Q - 2):
                    g = True
                    for a, b in zip(got, ln): g = ring.band(g, ring.eq(a, k_ * b))
                    if ring.prove([], g, hyps=False)[0] == 'unsat': ok = k_; break
            if ok is None: rec('line of step %d' % i, False); return recs
            scale = scale or ok
            if i + 1 < len(STEPS):
                node = [where.get(v) for v in cur]
                if None in node: rec('point of step %d' % i, False, 'no term of the code carries it'); return recs
                g = True
                for n, w in zip(node, nxt): g = ring.band(g, ring.eq(cut(ring, n, sub), w))
                r = ring.prove([], g, hyps=False)
                if r[0] != 'unsat': rec('point of step %d' % i, False, r[0]); return recs
        rec('points and lines of all %d steps (constant factor %d)' % (len(STEPS), scale), True)
        # infinity
        def body0(ex):
            q = ex.new(rebuild(h, g2a, (ring.c(0), ring.c(1), True))[0], 'arg q'); r = ex.load(ex.call(fn, (q,))); return r[1]
        prs = list(h.ex.explore(body0, 8))
        rec('infinity', len(prs) == 1 and not prs[0].panic and prs[0].val is True)
        return recs
    return go
def miller(arch, n, infs):
    "n pairs; infs: set of (pair, 'p'|'q') at infinity"
    tag = 'MillerLoop [%s] %d pairs%s' % (arch, n, ', infinite: ' + ' '.join('%s%d' % (b, a) for a, b in sorted(infs)) if infs else '')
    def go(ctx):
        h = RH(ctx, arch, 'fq'); ring = h.ring; fn = FN['MillerLoop']; ex = h.ex
        gr = G('mul', frob=Q)
        cc = gr.contracts(['FQ12']); ex.contracts.update(cc)
        V = [(ring.var('px%d' % i), ring.var('py%d' % i), [tuple((ring.var('a'), ring.var('b')) for _ in range(3)) for _ in STEPS]) for i in range(n)]
        key = {}
        for i, (px, py, co) in enumerate(V):
            for j, c in enumerate(co): key[(c[2][0].id, c[2][1].id)] = (i, j)
        goals = []
        def two(v):
            if isinstance(v, (Ptr, PtrIte)): v = ex.load(v)
            return ring.lift(v[0], 'fq'), ring.lift(v[1], 'fq')
        def m014(ex_, a):
            f, c0, c1, c4 = a[0], two(a[1]), two(a[2]), two(a[3])
            k = key.get((c0[0].id, c0[1].id))
            if k is None: raise Unsupported('coefficient not recognised')
            i, j = k; px, py, co = V[i]
            for u in (0, 1): goals.append((c1[u], co[j][1][u] * px)); goals.append((c4[u], co[j][0][u] * py))
            v = ex.load(f); e = gr.lift(ex, v, 'fq12')
            ex.store(f, gr.el(padd(e, {1 << (i * 128 + j): 1}), 'fq12'), 'contract')
        ex.contracts['(*%sFQ12).MulBy014Assign' % P] = m014
        def body(ex):
            goals.clear(); its = []; keep = []
            for i, (px, py, co) in enumerate(V):
                if (i, 'p') in infs: p = ex.new(rebuild(h, g1a, (ring.c(0), ring.c(1), True))[0], 'arg p')
                else: p = ex.new((ring.mkel(px, 'fq'), ring.mkel(py, 'fq'), False), 'arg p')
                if (i, 'q') in infs: q = ex.new((None, True), 'arg q')
                else:
                    cv = tuple(tuple((ring.mkel(c[0], 'fq'), ring.mkel(c[1], 'fq')) for c in t) for t in co)
                    q = ex.new((ex.mkslice_of(cv), False), 'arg q')
                its.append((p, q)); keep.append((ex.load(p), ex.load(q), None if (i, 'q') in infs else ex.slice_vals(ex.load(q)[0])))
            sl = ex.mkslice_of(tuple(its)) if n else None
            r = ex.call(fn, (sl,))
            e = gr.lift(ex, ex.load(r), 'fq12')
            same = all(ex.load(p) == a and ex.load(q) == b and (c is None or ex.slice_vals(ex.load(q)[0]) == c) for (p, q), (a, b, c) in zip(its, keep)) and (sl is None or list(ex.slice_vals(sl)) == its)
            return e, same, list(goals)
        prs = list(ex.explore(body, 8))
        if len(prs) != 1 or prs[0].panic: return Rec(tag, 'open', 'paths: %s' % [p.panic and p.panic.msg for p in prs])
        e, same, gs = prs[0].val
        if not same: return Rec(tag, 'refuted', 'an argument changed')
        want = {}
        for i in range(n):
            if (i, 'p') in infs or (i, 'q') in infs: continue
            for j, (k, t) in enumerate(STEPS): want = padd(want, {1 << (i * 128 + j): Q ** 6 * 2 ** (NIT - t)})
        d = padd(e, want, -1)
        # scaled: the common factor q^6 leaves the verdict as it is
        r = check({m: c for m, c in d.items()})
        if r[0] != 'unsat': return Rec(tag, 'open', 'exponents of the line values: ' + r[0])
        for k in range(0, len(gs), 64):
            g = True
            for a, b in gs[k:k + 64]: g = ring.band(g, ring.eq(a, b) if a is not b else True)
            if ring.prove([], g, hyps=False)[0] != 'unsat': return Rec(tag, 'open', 'a line coefficient is not scaled by its coordinate')
        return Rec(tag, 'proved', '%d line values' % (len(gs) // 4))
    return go
def finalexp(arch):
    def go(ctx):
        fn = FN['FinalExponentiation']; ex = ctx.exec(arch); gr = G('mul', frob=Q); cc = gr.contracts(['FQ12']); recs = []
        zero = [False]
        def inva(ex, a):
            v = ex.load(a[0])
            if zero[0]: return False
            ex.store(a[0], gr.el(pscale(gr.lift(ex, v, 'fq12'), -1), 'fq12'), 'contract'); return True
        ex.contracts.update(cc)
        for k in ('(%sFQ12).InverseAssign', '(*%sFQ12).InverseAssign'): ex.contracts[k % P] = inva
        for k in ('(%sFQ12).IsZero', '(*%sFQ12).IsZero'): ex.contracts[k % P] = lambda ex, a: zero[0]
        def body(ex):
            a = ex.new(gr.el({0: 1}, 'fq12'), 'arg'); r = ex.call(fn, (a,))
            return None if r is None else gr.lift(ex, ex.load(r), 'fq12'), ex.load(a).e == {0: 1}
        prs = list(ex.explore(body, 4))
        ok = len(prs) == 1 and not prs[0].panic and prs[0].val[0] is not None
        if not ok: return Rec('FinalExponentiation [%s]' % arch, 'open', str([p.panic and p.panic.msg for p in prs]))
        e, same = prs[0].val; E = e.get(0, 0)
        N_ = Q ** 12 - 1; 
        t = ['(set-logic QF_LIA)', '(declare-const c Int)', '(assert (not (and (= (mod (* %d %d) %d) 0) (not (= (mod %d %d) 0)))))' % (E % N_, R, N_, (E % N_) // (N_ // R), R)]
        r = solve.run('\n'.join(t), 20, ['c'])
        recs.append(Rec('FinalExponentiation [%s] exponent maps onto the r-th roots of unity' % arch, 'proved' if r[0] == 'unsat' and set(e) <= {0} else 'refuted', 'exponent = %s * (q^12-1)/r' % ((E * R // N_) if E * R % N_ == 0 and E < N_ * 10 else (E % N_) // (N_ // R))))
        r = solve.run('(set-logic QF_LIA)\n(declare-const c Int)\n(assert (not (= (mod (- %d (* 3 %d)) %d) 0)))' % (E % N_, N_ // R, N_), 20, ['c'])
        recs.append(Rec('FinalExponentiation [%s] exponent is 3(q^12-1)/r' % arch, 'proved' if r[0] == 'unsat' else 'open', ''))
        recs.append(Rec('FinalExponentiation [%s] argument unchanged' % arch, 'proved' if same else 'refuted', ''))
        zero[0] = True
        prs = list(ex.explore(body, 4))
        recs.append(Rec('FinalExponentiation [%s] zero is refused' % arch, 'proved' if len(prs) == 1 and not prs[0].panic and prs[0].val[0] is None else 'open', ''))
        return recs
    return go
class PairH(Proto):
    def contracts(self):
        c = Proto.contracts(self)
        for k in ('Pairing', 'CompareTwoPairings'): c.pop(P + k, None)
        c[P + 'G2AffineToPrepared'] = lambda ex, a: ex.new(self.pt(self.lift(a[0], 'g2'), 'prep'))
        def ml(ex, a):
            t = self.ring.c(0)
            for it in ex.slice_vals(a[0]):
                q = ex.load(it[1])
                t = self.lift(it[0], 'g1') * q.n + t
            return ex.new(self.pt(t, 'ml'))
        c[P + 'MillerLoop'] = ml
        def fe(ex, a):
            v = ex.load(a[0])
            if not isinstance(v, PT) or v.lv != 'ml': raise Unsupported('final exponentiation of something else')
            return ex.new(self.pt(v.n, 'gt'))
        c[P + 'FinalExponentiation'] = fe
        def mm(nm, f):
            for s in '', '*': c['(%s%sFQ12).%s' % (s, P, nm)] = f
        def mul(ex, a):
            x, y = ex.load(a[0]), ex.load(a[1]) if isinstance(a[1], (Ptr, PtrIte)) else a[1]
            if isinstance(x, PT) and isinstance(y, PT) and x.lv == y.lv == 'ml': ex.store(a[0], self.pt(x.n + y.n, 'ml'), 'contract'); return
            ex.store(a[0], self.pt(self.lift(x, 'gt') + self.lift(y, 'gt'), 'gt'), 'contract')
        mm('MulAssign', mul)
        return c
def compare(arch, nm, share):
    "share: which of the four arguments are one object"
    tag = '%s [%s]%s' % (nm, arch, ' ' + share if share else '')
    def go(ctx):
        h = PairH(ctx, arch); fn = FN[nm]
        def body(ex):
            h.reset()
            p1, p2, q1, q2 = (h.ring.var(x) for x in ('p1', 'p2', 'q1', 'q2'))
            if 'P1=P2' in share: p2 = p1
            if 'Q1=Q2' in share: q2 = q1
            a = ex.new(h.pt(p1, 'g1p')); c = a if 'P1=P2' in share else ex.new(h.pt(p2, 'g1p'))
            b = ex.new(h.pt(q1, 'g2p')); d = b if 'Q1=Q2' in share else ex.new(h.pt(q2, 'g2p'))
            if nm == 'Pairing':
                r = ex.call(fn, (a, b)); keep = h.lift(a, 'g1') is p1 and h.lift(b, 'g2') is q1
                return h.lift(r, 'gt'), p1 * q1, keep
            r = ex.call(fn, (a, b, c, d)); keep = h.lift(a, 'g1') is p1 and h.lift(b, 'g2') is q1 and h.lift(c, 'g1') is p2 and h.lift(d, 'g2') is q2
            return r, h.eqn(p1 * q1, p2 * q2), keep
        np_ = 0
        for pr in h.ex.explore(body, 64):
            np_ += 1
            if pr.panic: return Rec(tag, 'open', 'panic ' + pr.panic.msg)
            r, w, keep = pr.val
            if not keep: return Rec(tag, 'refuted', 'an argument changed')
            v = h.prove(pr.pc, h.eqn(r, w) if nm == 'Pairing' else h.iff(r, w))
            if v[0] != 'unsat': return Rec(tag, 'open', 'result differs from the equation: ' + v[0])
        return Rec(tag, 'proved' if np_ else 'open', '%d paths' % np_)
    return go
def obligations(ctx):
    obs = []; quick = ctx.tier == 'quick'
    for arch in ctx.w:
        obs.append(Ob('prepared ' + arch, prepared(arch), [FN['G2AffineToPrepared']], 'every affine point', weight=9))
        cases = [(0, set())]
        for n in (1, 2, 3):
            cases.append((n, set()))
            for i in range(n):
                for w in ('p', 'q'): cases.append((n, {(i, w)}))
                cases.append((n, {(i, 'p'), (i, 'q')}))
            if n > 1:
                cases.append((n, {(i, 'p') for i in range(n)})); cases.append((n, {(i, 'q') for i in range(n)}))
                cases.append((n, {(0, 'p'), (1, 'q')})); cases.append((n, {(1, 'p'), (0, 'q')}))
            if n == 3: cases += [(3, {(0, 'p'), (2, 'p')}), (3, {(0, 'q'), (2, 'p')}), (3, {(1, 'p'), (2, 'q')})]
        cases += [(4, set()), (4, {(2, 'p')}), (5, {(4, 'q')}), (8, set()), (17, {(3, 'p'), (16, 'q')})]
        if not quick: cases += [(n, set()) for n in range(5, 33)] + [(4, {(i, a), (j, b)}) for i in range(4) for j in range(4) for a in 'pq' for b in 'pq' if (i, a) < (j, b)]
        for n, infs in cases: obs.append(Ob('miller %s %d %s' % (arch, n, sorted(infs)), miller(arch, n, infs), [FN['MillerLoop']], 'up to %d pairs' % (17 if quick else 32), weight=n))
        obs.append(Ob('final ' + arch, finalexp(arch), [FN['FinalExponentiation']], 'every non-zero element, and zero', weight=5))
        for s in ('', 'P1=P2', 'Q1=Q2', 'P1=P2 Q1=Q2'): obs.append(Ob('compare %s %s' % (arch, s), compare(arch, 'CompareTwoPairings', s), [FN['CompareTwoPairings']], 'all points'))
        obs.append(Ob('pairing ' + arch, compare(arch, 'Pairing', ''), [FN['Pairing']], 'all points'))
    return obs
# ================================================================ concrete side
import functools
from spec import spec as defspec, pg1p, pg2p, pg1a, pg2a, pfq12, SOpt, boolean, res, SPECS, fq12, g1p, g2p
import scen
@functools.lru_cache(None)
def base(): return ref.exp12(ref.pairing(ref.G1, ref.G2), 3)
@functools.lru_cache(None)
def eab(k): return ref.exp12(base(), k % R)
def fe(a):
    if a == ref.O12: return 'nil'
    b = ref.mul12(ref.conj12(a), ref.inv12(a)); b = ref.mul12(ref.frob12(b, 2), b)
    return ref.exp12(b, 3 * ((Q ** 4 - Q ** 2 + 1) // R))
KS = [1, 2, R - 1, R - 2, (R - 1) // 2, 1 << 64, (1 << 128) - 1, 3]
def logs(rng, n): return KS + [rng.randrange(1, R) for _ in range(n)]
def dl(p, g): return 0 if p is None else DL[g][p]
gmul(1, 1); gmul(2, 1)
def pts(rng, k1, k2):
    return reps(gmul(1, k1), g1p, rng), reps(gmul(2, k2), g2p, rng)
def gen_pair(rng):
    out = [pts(rng, 1, 1)]
    for k in logs(rng, 4): out.append(pts(rng, k, rng.choice(logs(rng, 3))))
    for k in (0, 1, 5): out += [pts(rng, 0, k), pts(rng, k, 0)]
    return [(x, ()) for x in out]
def gen_cmp(rng):
    out = []; K = logs(rng, 6)
    def put(a, b, c, d, al=()): out.append(((*pts(rng, a, b), *pts(rng, c, d)), al))
    for i in range(6):
        a, b = rng.choice(K), rng.choice(K); x = rng.choice(K)
        put(a, b, a, b); put(a, b, a * x % R, b * pow(x, -1, R) % R); put(a, b, b, a); put(a * b % R, 1, 1, a * b % R)
        put(a, b, R - a, b); put(a, b, a, R - b); put(a, b, R - a, R - b); put(a, b, (a + 1) % R, b); put(a, b, a, (b + 1) % R); put(a, b, rng.choice(K), rng.choice(K))
    for a in (0, 1, 7):
        for b in (0, 1, 9):
            for c in (0, 1, 7):
                for d in (0, 1, 9):
                    if 0 in (a, b, c, d): put(a, b, c, d)
    k = rng.choice(K); P1, Q1 = pts(rng, k, 5)
    out.append(((P1, Q1, P1, Q1), ((0, 2),))); out.append(((P1, Q1, P1, Q1), ((1, 3),))); out.append(((P1, Q1, P1, Q1), ((0, 2), (1, 3))))
    out.append(((P1, Q1, P1, pts(rng, 1, 6)[1]), ((0, 2),))); out.append(((P1, Q1, pts(rng, 2, 1)[0], Q1), ((1, 3),)))
    return out
def gen_fe(rng):
    r6 = lambda: tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3))
    s = [ref.O12, ref.I12, (ref.O6, ref.I6), (ref.neg6(ref.I6), ref.O6), (r6(), ref.O6), (ref.O6, r6()), (((0, 1), ref.O2, ref.O2), ref.O6), base()]
    s += [(r6(), r6()) for _ in range(4)]
    return [((x,), ()) for x in s]
defspec('C11', 'Pairing', [pg1p, pg2p], res(pfq12), lambda p, q: eab(dl(p, 1) * dl(q, 2)), gen=gen_pair)
defspec('C11', 'CompareTwoPairings', [pg1p, pg2p, pg1p, pg2p], res(boolean), lambda p, q, r, s: (dl(p, 1) * dl(q, 2) - dl(r, 1) * dl(s, 2)) % R == 0, gen=gen_cmp)
defspec('C11', 'FinalExponentiation', [pfq12], res(SOpt(fq12)), fe, gen=gen_fe)
FULL = True
def multi(S, arch, rng):
    "products over several pairs, prepared points used again"
    prog = S.ctx.w[arch].p; raw = prog.raw
    if any(f not in raw for f in FN.values()): return
    ptrs = scen.build(prog, P[:-1]); ss = []
    pa, qa = raw[FN['CompareTwoPairings']]['ptypes'][0], None
    prep = FN['G2AffineToPrepared']; mt = raw[FN['FinalExponentiation']]['results'][0]
    qt = raw[prep]['ptypes'][0]; g1t = next(t for f in raw if f.endswith('G1Projective).ToAffine') for t in raw[f]['results'])
    def scene(prs, twice=True, again=None):
        sc = scen.Scene(prog); sc.ptrs = ptrs; objs = {}; keep = []
        def pobj(k, fresh):
            if fresh or ('p', k) not in objs:
                a, rf = sc.new(g1t, pg1a, gmul(1, k)); objs['p', k] = a; keep.append((rf, g1t, pg1a, gmul(1, k), 'point of G1'))
            return objs['p', k]
        def qobj(k, fresh):
            if fresh or ('q', k) not in objs:
                a, rf = sc.new(qt, pg2a, gmul(2, k)); keep.append((rf, qt, pg2a, gmul(2, k), 'point of G2'))
                sc.calls.append({'fn': prep, 'args': [a]}); objs['q', k] = {'ref': [len(sc.calls) - 1, 0]}
            return objs['q', k]
        def ml(prs, fresh, what):
            items = [[pobj(a, fresh), qobj(b, fresh)] for a, b in prs]
            sc.calls.append({'fn': FN['MillerLoop'], 'args': [{'l': items}]}); m = len(sc.calls) - 1
            sc.calls.append({'fn': FN['FinalExponentiation'], 'args': [{'ref': [m, 0]}]}); k = len(sc.calls) - 1
            sc.calls.append({'fn': '@peek', 'args': [k, 0]}); sc.checks.append((len(sc.calls) - 1, mt, pfq12, eab(sum(a * b for a, b in prs)), what))
        ml(prs, False, 'product of the pairings of %s' % show(tuple(prs)))
        if twice: ml(prs, False, 'product of the same pairs and prepared points a second time')
        if again: ml(again, False, 'product of other pairs with prepared points used before')
        for rf, t, so, want, what in keep:
            sc.calls.append({'fn': '@peek', 'args': list(rf)}); sc.checks.append((len(sc.calls) - 1, t, so, want, what + ' given as an argument'))
        sc.title = 'M'; ss.append((sc, prs))
    K = lambda: rng.randrange(1, R)
    scene([], False); scene([(1, 1)], True, [(5, 1)]); scene([(0, 1)]); scene([(1, 0)]); scene([(0, 0)])
    scene([(K(), K()), (K(), K())]); scene([(3, 5), (7, 5)], True, [(2, 5)]); scene([(3, 5), (3, 7)]); scene([(3, 5), (R - 3, 5)])
    for i in range(3):
        for z in ('p', 'q'):
            l = [(K(), K()) for _ in range(3)]; l[i] = (0, l[i][1]) if z == 'p' else (l[i][0], 0); scene(l, i == 0, [l[(i + 1) % 3]])
    scene([(K(), K()) for _ in range(4)], True); scene([(K(), K()) for _ in range(7)], False); scene([(0, K()), (K(), 0), (0, 0), (4, 6)], True); scene([(2, 3)] * 5); scene([(K(), 9)] * 3 + [(0, 0)] + [(K(), 9)] * 2); scene([(K(), K()) for _ in range(17)], False); scene([(K(), K()) for _ in range(33)], False); scene([(K(), K()) for _ in range(20)] + [(0, 5), (6, 0)] + [(K(), K()) for _ in range(44)], False); scene([(k + 2, 130 - k) for k in range(129)], False)
    outs = S.driver(arch, P[:-1]).run([{'calls': sc.calls, 'globals': True} for sc, _ in ss], timeout=200)
    for (sc, prs), o in zip(ss, outs):
        if o.get('missing'): S.notes.append('scene not run'); break
        S.concrete += 1
        m = scen.judge(prog, sc, o)
        if m: S.violation('MillerLoop', arch, {'calls': sc.calls, 'globals': True}, m); break
def extra(S, rest, rng, full):
    for arch in S.ctx.w:
        S.driver(arch, P[:-1]).build_quiet(S); multi(S, arch, random.Random('multi'))
        if S.violations: return
    if full: scen.run(S, [FN['Pairing'], FN['CompareTwoPairings'], FN['FinalExponentiation']], full)
