"""C09: point compression."""
from codec import *
import ob_c06
LEVEL = 'model_checking'
OUTSIDE = ['every 48/96-byte string and every point with canonical coordinates; square root, comparison and subgroup test by contract (C06, C08)']
ASSUME = ['no point has y = 0 and (0,1) is on neither curve (evaluated at start)']
N_ = {1: 48, 2: 96}
def decomp_ob(g, arch, checked):
    fn = P + 'DecompressG%d' % g + ('' if checked else 'Unchecked')
    def go(ctx):
        h = Codec(ctx, arch); n = N_[g]
        if not noroot(): raise Unsupported('curve constants')
        bs = [z3.BitVec('b%d' % i, 8) for i in range(n)]
        mk = h.mark()
        flag = lambda k: z3.Extract(k, k, bs[0]) == 1
        xb = h.xbits(g, [BV(b) for b in bs]); xs = xb if g == 2 else (xb,)
        inf = z3.And(flag(6), bs[0] == 0xc0, *[b == 0 for b in bs[1:]])
        infield = z3.And(z3.Not(flag(6)), *[z3.ULT(x, z3.BitVecVal(Q, 384)) for x in xs])
        models = []; np = 0
        def body(ex):
            h.reset(mk)
            p, err = ex.call(fn, (tuple(BV(b) for b in bs),))
            pt = None if err is not None else h.read(g, p)
            sub = [(h.read(g, x), r) for x, r in h.sub]
            return (pt, err), h.snap(), list(h.sq), sub
        name = '%s [%s]' % (fn.replace(P, ''), arch)
        def fail(why, v=None):
            if v and v[0] == 'sat' and v[1] is not None: models.append((fn, (model_bytes(v[1], bs),), (), arch))
            return Rec(name, 'refuted' if models else 'open', why, models=models)
        for pr in h.ex.explore(body, 600):
            np += 1
            if pr.panic: return fail('panic: ' + pr.panic.msg, TH.check(TH.pcs(pr.pc)))
            (pt, err), sn, sq, sub = pr.val; h.reset(sn)
            # square test of the right-hand side at the right x
            S = None
            for s in sq:
                X = None
                for t in itertools.product(h.vars, repeat=g):
                    if all(h.cn[v.id] is not None and h.prove(pr.pc, h.cn[v.id] == x)[0] == 'unsat' for v, x in zip(t, xs)): X = t if g == 2 else t[0]; break
                if X is not None and h.isrhs(s[0], X): S = s[1]; break
            if err is None:
                v = h.prove(pr.pc, z3.And(flag(7), z3.Or(inf, infield)))
                if v[0] != 'unsat': return fail('accepts a malformed string', v)
                if checked and pt is not None and not (len(sub) >= 1 and all(x[1] is True for x in sub)): return fail('accepted without subgroup test', TH.check(TH.pcs(pr.pc)))
                if pt is None:
                    v = h.prove(pr.pc, flag(6))
                    if v[0] != 'unsat': return fail('infinity for a finite encoding', v)
                    continue
                if checked and not any(x[1] is True and h.samept(pr.pc, x[0], pt) for x in sub): return fail('subgroup test on another point')
                v = h.prove(pr.pc, z3.Not(flag(6)))
                if v[0] != 'unsat': return fail('finite point for an infinity encoding', v)
                if S is not True: return fail('accepted without square test', TH.check(TH.pcs(pr.pc)))
                X, Y = pt; f = lambda t: t if isinstance(t, tuple) else (t,)
                for a, x in zip(f(X), xs):
                    v = h.prove(pr.pc, h.canon(a) == x)
                    if v[0] != 'unsat': return fail('x-coordinate', v)
                # y^2 = rhs(x): y is plus or minus a root of the tested value
                ok = any(h.isrhs(s[0], X) and any(all(h.ring.prove([], h.ring.eq(p_, q_))[0] == 'unsat' for p_, q_ in zip(f(Y), z)) for z in (f(s[2]), tuple(h.ring.neg(t) for t in f(s[2])))) for s in sq if len(s) == 3)
                if not ok: return fail('the point is not on the curve', TH.check(TH.pcs(pr.pc)))
                nz = z3.Not(z3.And(*[h.canon(t) == 0 for t in f(Y)]))
                v = TH.check(TH.pcs(pr.pc) + h.cons + [nz, z3.Not(h.greatest(Y) == flag(5))])
                if v[0] != 'unsat': return fail('sign of y', v)
            else:
                if any(x[1] is False for x in sub):
                    q = [x for x in sub if x[1] is False][0][0]
                    if checked and S is True and q is not None: continue
                    return fail('refused for the subgroup')
                v = h.prove(pr.pc, z3.Not(z3.And(flag(7), inf)))
                if v[0] != 'unsat': return fail('refuses the encoding of infinity', v)
                if S is False: continue
                v = h.prove(pr.pc, z3.Not(z3.And(flag(7), infield)))
                if v[0] != 'unsat': return fail('refuses a well-formed string', v)
        return Rec(name, 'proved', '%d paths' % np)
    return go
def comp_ob(g, arch):
    fn = P + 'CompressG%d' % g
    def go(ctx):
        h = Codec(ctx, arch); n = N_[g]; name = 'CompressG%d [%s]' % (g, arch)
        if not noroot(): raise Unsupported('curve constants')
        pv, (X, Y) = h.point(g); mk = h.mark(); np = 0
        zero = ctx.w[arch].g('G%dAffineZero' % g)
        def body(ex):
            h.reset(mk)
            q = ex.new(pv); r = ex.call(fn, (q,))
            return r, h.snap(), ex.load(q)
        f = lambda t: t if isinstance(t, tuple) else (t,)
        xs = f(X)
        full = h.canon(xs[0]) if g == 1 else z3.Concat(h.canon(xs[1]), h.canon(xs[0]))
        flags = z3.Concat(z3.BitVecVal(1, 1), z3.BitVecVal(0, 1), z3.If(h.greatest(Y), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        want = z3.Concat(flags, z3.Extract(8 * n - 4, 0, full))
        for pr in h.ex.explore(body, 100):
            np += 1
            if pr.panic: return Rec(name, 'open', 'panic ' + pr.panic.msg)
            r, sn, q = pr.val; h.reset(sn)
            v = h.prove(pr.pc, z3.Concat(*h.bytesof(r)) == want)
            if v[0] != 'unsat': return Rec(name, 'open', 'bytes differ: %s' % v[0])
            if q is not pv and h.read(g, q) != (X, Y): return Rec(name, 'open', 'operand changed')
        ex = ctx.exec(arch); r = ex.call(fn, (ex.new(ex.load(zero)),))
        if bytes(r) != (ref.comp1 if g == 1 else ref.comp2)(None): return Rec(name, 'open', 'infinity')
        return Rec(name, 'proved', '%d paths' % np)
    return go
def round_ob(g, arch):
    def go(ctx):
        h = Codec(ctx, arch); name = 'DecompressG%d after CompressG%d [%s]' % (g, g, arch); np = 0
        pv, pt = h.point(g); mk = h.mark()
        def body(ex):
            h.reset(mk)
            b = ex.call(P + 'CompressG%d' % g, (ex.new(pv),))
            p, err = ex.call(P + 'DecompressG%d' % g, (b,))
            q = None if err is not None else h.read(g, p)
            return (q, err), h.snap(), list(h.sub)
        for pr in h.ex.explore(body, 100):
            np += 1
            if pr.panic: return Rec(name, 'open', 'panic ' + pr.panic.msg)
            (q, err), sn, sub = pr.val; h.reset(sn)
            if any(r is False for _, r in sub): continue
            if err is not None: return Rec(name, 'open', 'refused')
            if not h.samept(pr.pc, q, pt): return Rec(name, 'open', 'another point')
        return Rec(name, 'proved', '%d paths' % np)
    return go
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        e = ctx.w[arch].p.exists
        for g in (1, 2):
            for ck in (False, True):
                fn = P + 'DecompressG%d' % g + ('' if ck else 'Unchecked')
                obs.append(Ob(fn.replace(P, '') + arch, decomp_ob(g, arch, ck), [fn], 'every %d-byte string' % N_[g], weight=10, timeout=300))
            obs.append(Ob('CompressG%d %s' % (g, arch), comp_ob(g, arch), [P + 'CompressG%d' % g], 'every point', weight=5))
            obs.append(Ob('round trip G%d %s' % (g, arch), round_ob(g, arch), [P + 'CompressG%d' % g, P + 'DecompressG%d' % g], 'every point', weight=5))
    import deps
    return obs + deps.obs(ctx, 'sqrt', 'sub')
