"""C12: hash-to-curve maps: simplified SWU, isogenies, endomorphism, cofactor clearing, and their composition."""
from codec import *
from groupops import fixed
import gexp, isodata, pspec, functools, ob_c13
LEVEL = 'proof'; FULL = True
OUTSIDE = ['field and point operations by contract (C02, C05, C06, C07, C08); messages to field elements: C13']
TRUST = ['-1 and 1+u are not squares, the isogenous curves have no point of order two, the kernel of the 3-isogeny has no rational point (each recomputed from the constants at every run)',
         'a rational map between elliptic curves that maps infinity to infinity is a homomorphism']
KER = [2587985704301133261545815977524675671924220063312605072910713583625634757676172775242453121791886321053425654409644, 2816538815918983374394188771910205821220376411770190604257351701055011726922405937573596716713327303302168751853482,
 3094587283371741622993346319141083780175262361629727695367780100084429985497597815471371972347684525038098478504808, 907822271849925770424443506594820376381620458309280189964278036039601664993242046971315656781331138999795794054979,
 1414423850920534131871973848211228484632662756626402812421344552498396892814665089200234507337129342984468618150143, 1185870739302684019023601053825698335336506408168817281074706435069019923568431926869090912415688360735725520706305,
 2554430496739632338208717542857623672271218781766718775804227839614186938862335177234427369583823735846888415708920, 3781424156473383152282185981110547986030478173413584787592593105153769963542485105309196987762085554258850464657946,
 3111367963233093753266096114311199520629677563705545183832584120694702714677555531559526386118537238502702665454972, 1940370790857918541777346337755766122854475788470738032146075858909967894608426967420140774934416165445419313817087]
KER += [Q - k for k in KER]
def fld(g): return ref.F1 if g == 1 else ref.F2
@functools.lru_cache(None)
def lemmas():
    "the facts listed as trusted, recomputed"
    import ref
    ok = pow(Q - 1, (Q - 1) // 2, Q) == Q - 1 and ref.e2((1, 1), (Q * Q - 1) // 2) == (Q - 1, 0)
    # x^3 + A x + B has no root: x^q - x is coprime to it (a cubic with a root keeps it in the gcd)
    for F, q in ((ref.F1, Q), (ref.F2, Q * Q)):
        A, B = F.A, F.B; m, ad, ng = F.mul, F.add, F.neg
        def mm(a, b):
            r = [F.zero] * 5
            for i in range(3):
                for j in range(3): r[i + j] = ad(r[i + j], m(a[i], b[j]))
            for d in (4, 3):       # x^3 = -A x - B
                r[d - 2] = ad(r[d - 2], ng(m(A, r[d]))); r[d - 3] = ad(r[d - 3], ng(m(B, r[d]))); r[d] = F.zero
            return r[:3]
        x = [F.zero, F.one, F.zero]; y = x
        for b in bin(q)[3:]:
            y = mm(y, y)
            if b == '1': y = mm(y, x)
        h = [y[0], F.sub(y[1], F.one), y[2]]
        # resultant of h with the cubic is non-zero: h is invertible modulo the cubic, i.e. multiplication by h is bijective
        cols = [h, mm(h, x), mm(mm(h, x), x)]
        a, b, c = cols
        det = ad(ad(m(a[0], F.sub(m(b[1], c[2]), m(b[2], c[1]))), ng(m(a[1], F.sub(m(b[0], c[2]), m(b[2], c[0]))))), m(a[2], F.sub(m(b[0], c[1]), m(b[1], c[0]))))
        ok = ok and det != F.zero
    # both denominators of the 3-isogeny are powers of (x - r), and the curve equation has no solution above r
    F = ref.F2; r = F.neg(F.mul(isodata.XDEN3[1], ref.i2((2, 0))))
    def powr(n):
        p = [F.one]
        for _ in range(n): p = [F.add(a, b) for a, b in zip([F.zero] + p, [F.mul(F.neg(r), t) for t in p] + [F.zero])]
        return p
    ok = ok and [tuple(x) for x in isodata.XDEN3] == powr(2) and [tuple(x) for x in isodata.YDEN3] == powr(3)
    gr = F.add(F.add(F.mul(F.mul(r, r), r), F.mul(F.A, r)), F.B)
    return ok and ref.sqrt2(gr) is None
class Pair:
    "arithmetic of F_q2 on pairs of terms, or of F_q on terms"
    def __init__(self, h, g): self.h = h; self.g = g; self.r = h.ring
    def c(self, v): return self.r.c(v) if self.g == 1 else (self.r.c(v[0]), self.r.c(v[1]))
    def add(self, a, b): return a + b if self.g == 1 else (a[0] + b[0], a[1] + b[1])
    def neg(self, a): return self.r.neg(a) if self.g == 1 else (self.r.neg(a[0]), self.r.neg(a[1]))
    def sub(self, a, b): return self.add(a, self.neg(b))
    def mul(self, a, b): return a * b if self.g == 1 else (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    def sq(self, a): return self.mul(a, a)
    def cube(self, a): return self.mul(self.sq(a), a)
    def fl(self, a): return (a,) if self.g == 1 else a
    def norm(self, a): return a if self.g == 1 else a[0] * a[0] + a[1] * a[1]
    def ev(self, cs, x):
        v = None
        for c in reversed(cs): v = self.c(c) if v is None else self.add(self.mul(v, x), self.c(c))
        return v
class Map(Codec):
    def __init__(self, ctx, arch, g):
        Codec.__init__(self, ctx, arch); self.g = g; self.K = Pair(self, g); self.t = None
    def contracts(self):
        c = Codec.contracts(self); L, L2, r = self.L, self.L2, self.ring
        def reg(T, nm, f): c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        reg('FQ', 'IsZero', lambda ex, a: r.eq(L(a[0]), 0)); reg('FQ', 'Equals', lambda ex, a: self.known(r.eq(L(a[0]), L(a[1]))))
        # an element of F_q2 is zero when both coordinates are: decided one after the other
        def eq2(x, y): return r.band(r.eq(x[0], y[0]), r.eq(x[1], y[1]))
        reg('FQ2', 'IsZero', lambda ex, a: eq2(L2(a[0]), (0, 0))); reg('FQ2', 'Equals', lambda ex, a: self.known(eq2(L2(a[0]), L2(a[1]))))
        def isz(n): return eq2(n, (0, 0)) if isinstance(n, tuple) else r.eq(n, 0)
        def quot(ex, num, den):
            "fresh q with q * den = num, or None when den is zero"
            K = Pair(self, 2 if isinstance(den, tuple) else 1)
            if ex.decide(isz(den)): return None
            if all(t.op == 'c' for t in K.fl(den)): return K.mul(num, K.c(ref.i2((den[0].a, den[1].a)) if K.g == 2 else pow(den.a, -1, Q)))
            q = (self.elem('q0'), self.elem('q1')) if K.g == 2 else self.elem('q')
            self.quots.append((q, num, den)); return q
        def inva(ex, a):
            q = quot(ex, (r.c(1), r.c(0)), L2(a[0]))
            if q is None: return False
            ex.store(a[0], (self.fq(q[0]), self.fq(q[1])), 'contract'); return True
        reg('FQ2', 'InverseAssign', inva)
        def div2(ex, a):
            q = quot(ex, L2(a[0]), L2(a[1]))
            if q is None: q = (self.elem('unspec'), self.elem('unspec'))
            ex.store(a[0], (self.fq(q[0]), self.fq(q[1])), 'contract')
        reg('FQ2', 'DivAssign', div2)
        def div1(ex, a):
            q = quot(ex, L(a[0]), L(a[1]))
            ex.store(a[0], self.fq(self.elem('unspec') if q is None else q), 'contract')
        reg('FQ', 'DivAssign', div1)
        def inv1(ex, a):
            q = quot(ex, r.c(1), L(a[0]))
            return (self.fq(self.elem('unspec')), False) if q is None else (self.fq(q), True)
        reg('FQ', 'Inverse', inv1)
        def mul2(ex, a):
            x, y = L2(a[0]), L2(a[1]); v = (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
            ex.store(a[0], (self.fq(v[0]), self.fq(v[1])), 'contract')
        reg('FQ2', 'MulAssign', mul2)
        def sqr2(ex, a): mul2(ex, (a[0], a[0]))
        reg('FQ2', 'SquareAssign', sqr2)
        def mksqrt(g):
            def f(ex, a):
                n = (L2 if g == 2 else L)(a[0]); K = Pair(self, g); mk = (lambda y: (self.fq(y[0]), self.fq(y[1]))) if g == 2 else self.fq
                cst = all(t.op == 'c' for t in K.fl(n))
                if cst:
                    v = tuple(t.a for t in n) if g == 2 else n.a; found = (ref.sqrt2 if g == 2 else ref.sqrt_q)(v) is not None
                elif any(not s[1] and self.t is not None and self.ffeq(ex.pc, n, K.mul(s[0], K.cube(self.s(self.t)))) for s in self.sq): found = True
                else: found = ex.decide(Choice('square', len(self.sq)))
                if not found:
                    self.sq.append((n, False)); u = ((self.elem('unspec'), self.elem('unspec')) if g == 2 else self.elem('unspec')); return (mk(u), False)
                y = (self.elem('root0'), self.elem('root1')) if g == 2 else self.elem('root')
                self.cons.append(z3.Not(z3.And(*[self.canon(t) == 0 for t in K.fl(y)])))
                self.roots.append((n, y)); self.sq.append((n, True, y)); return (mk(y), True)
            return f
        reg('FQ', 'Sqrt', mksqrt(1)); reg('FQ2', 'Sqrt', mksqrt(2))
        return c
    def known(self, e):
        "true when it follows from the square roots taken"
        if self.roots and e not in (True, False) and self.ring.prove([], e, extra=self.rhyps(), hyps=False, tmo=3)[0] == 'unsat': return True
        return e
    def start(self, mk): self.reset(mk); self.ring.invs = []; self.quots = []
    def save(self): return self.snap(), list(self.sq), list(self.quots)
    def load(self, s): self.reset(s[0]); self.sq = list(s[1]); self.quots = list(s[2])
    def rb(self, pc): return [(c, p) for c, p in pc if isinstance(c, RBool) or c is False or c is True]
    def rhyps(self):
        out = []
        for n, y in self.roots:
            K = Pair(self, 2 if isinstance(n, tuple) else 1)
            out += [self.ring.eq(a, b) for a, b in zip(K.fl(K.sq(y)), K.fl(n))]
        return out
    def hyps(self):
        out = self.rhyps()
        for q, n, d in self.quots:
            K = Pair(self, 2 if isinstance(d, tuple) else 1)
            out += [self.ring.eq(a, b) for a, b in zip(K.fl(K.mul(q, d)), K.fl(n))]
        return out
    def ff(self, pc, goal, tmo=60, quick=False):
        if goal is True: return True
        r = self.ring
        if r.prove([], goal, hyps=False, tmo=5)[0] == 'unsat': return True
        if r.prove(self.rb(pc), goal, hyps=False, tmo=3)[0] == 'unsat': return True
        if r.prove([], goal, extra=self.hyps(), hyps=False, tmo=5)[0] == 'unsat': return True
        return not quick and r.prove(self.rb(pc), goal, extra=self.hyps(), hyps=False, tmo=tmo)[0] == 'unsat'
    def ffeq(self, pc, a, b):
        f = lambda t: t if isinstance(t, tuple) else (t,)
        return all(self.ff(pc, self.ring.eq(x, y)) for x, y in zip(f(a), f(b)))
    def same0(self, a, b):
        "polynomial identity"
        return all(self.ring.prove([], self.ring.eq(x, y), hyps=False, tmo=10)[0] == 'unsat' for x, y in zip(self.K.fl(a), self.K.fl(b)))
    def case(self, pc, N):
        "which way the path decided whether N is zero"
        r = self.ring; z = functools.reduce(r.band, [r.eq(n, 0) for n in self.K.fl(N)])
        for c, p in self.rb(pc):
            if r.prove([(c, p)], z if p else r.bnot(z), hyps=False, tmo=5)[0] == 'unsat': return p
    def isq(self, X, k, num, den):
        "X = k * num / den"
        K = self.K
        return any(isinstance(d, tuple) == (self.g == 2) and self.same0(X, K.mul(k, q)) and self.same0(K.mul(n, den), K.mul(num, d)) for q, n, d in self.quots)
    def cofactor(self, n, X, s, num, den):
        "n = g(X), as a multiple of the equation defining the quotient"
        K = self.K
        return any(isinstance(d, tuple) == (self.g == 2) and self.same0(K.mul(n, K.c(fld(self.g).one)), K.add(self.rhs_(X), K.mul(K.sub(s, K.c(fld(self.g).one)), K.sub(K.mul(q, den), num)))) and self.same0(K.mul(m, den), K.mul(num, d)) for q, m, d in self.quots)
    def feasible(self, ex):
        if not Codec.feasible(self, ex): return False
        pc = self.rb(ex.pc)
        return not pc or solve.run(self.ring.text(pc), 3)[0] != 'unsat'
    def s(self, t): K = self.K; return K.mul(K.c(fld(self.g).XI), K.sq(t))
    def var(self, n): return (self.elem(n + '0'), self.elem(n + '1')) if self.g == 2 else self.elem(n)
    def val(self, a): return (self.fq(a[0]), self.fq(a[1])) if self.g == 2 else self.fq(a)
    def rhs_(self, x):
        K = self.K; F = fld(self.g)
        return K.add(K.add(K.cube(x), K.mul(K.c(F.A), x)), K.c(F.B))
    def negative(self, y):
        t = z3.BitVecVal((Q - 1) // 2, 384)
        if self.g == 1: return z3.UGT(self.canon(y), t)
        a, b = self.canon(y[0]), self.canon(y[1]); return z3.Or(z3.UGT(b, t), z3.And(b == 0, z3.UGT(a, t)))
import solve
def run(ctx, arch, g, name, body, judge, maxp=64):
    if not lemmas(): return Rec(name, 'open', 'a number-theoretic fact about the constants fails')
    h = Map(ctx, arch, g); h.quots = []; args = {}
    def th(ex):
        h.start(args['mk']); v = body(h, ex, args); return v, h.save()
    args['v'] = {n: h.var(n) for n in ('t', 'x', 'y')}; h.t = args['v']['t']; args['mk'] = h.mark(); np = 0
    for pr in h.ex.explore(th, maxp):
        np += 1
        if pr.panic: return Rec(name, 'open', 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
        v, s = pr.val; h.load(s)
        why = judge(h, pr.pc, v, args['v'])
        if why: return Rec(name, 'refuted', why)
    return Rec(name, 'proved' if np else 'open', '%d paths' % np)
def swu_ob(fn, g):
    def b(h, ex, a): return h.read(g, ex.call(fn, (h.val(a['v']['t']),)))
    def j(h, pc, v, a):
        if v is None: return 'infinity'
        X, Y = v; K = h.K; F = fld(g); t = a['t']; s = h.s(t); N = K.add(K.sq(s), s)
        A, B = K.c(F.A), K.c(F.B)
        if not h.sq or len(h.sq) > 2 or not h.sq[-1][1]: return 'no root taken'
        first = len(h.sq) == 1
        zero = h.case(pc, N)
        if zero is None: return 'neither case'
        cof = None
        if zero:
            if not first or not h.ffeq(pc, K.mul(K.mul(K.c(F.XI), A), X), B): return 'wrong x in the exceptional case'
        else:
            num = K.neg(K.mul(B, K.add(N, K.c(F.one)))); den = K.mul(A, N); k = K.c(F.one) if first else s
            if not h.isq(X, k, num, den) and not h.ffeq(pc, K.mul(den, X), K.mul(k, num)): return 'wrong x (%s)' % ('first' if first else 'second')
            if not first:
                s3 = K.cube(s)
                if not h.ffeq(pc, K.mul(s3, h.sq[0][0]), K.add(K.add(K.cube(X), K.mul(A, K.mul(X, K.sq(s)))), K.mul(B, s3))): return 'the first candidate was not tested'
                cof = (s, num, den)
        if cof and h.cofactor(h.sq[1][0], X, *cof) and h.same0(K.sq(Y), K.sq(h.sq[1][2])): pass
        elif not h.ffeq(pc, K.sq(Y), h.rhs_(X)): return 'not on the isogenous curve'
        if h.prove(pc, h.negative(Y) == h.negative(t))[0] != 'unsat': return 'y has the other sign'
    return b, j
def iso_ob(fn, g):
    k = '11' if g == 1 else '3'
    def b(h, ex, a): return h.read(g, ex.call(fn, (ex.new(h.pval(g, a['v']['x'], a['v']['y'])),)))
    def j(h, pc, v, a):
        K = h.K; r = h.ring; xn, xd, yn, yd = [K.ev(getattr(isodata, n + k), a['x']) for n in ('XNUM', 'XDEN', 'YNUM', 'YDEN')]
        z = lambda n: functools.reduce(r.band, [r.eq(t, 0) for t in K.fl(n)])
        if v is None: return None if h.ff(pc, r.bor(z(xd), z(yd))) else 'infinity outside the kernel'
        # the kernel of the 3-isogeny has no rational point
        if g == 2 and any(p and h.ff(pc, z(n)) for n in (xd, yd) for c, p in h.rb(pc)): return None
        if not h.ff(pc, r.bnot(z(xd))) or not h.ff(pc, r.bnot(z(yd))): return 'kernel point mapped to a finite point'
        if not h.isq(v[0], K.c(fld(g).one), xn, xd) and not h.ffeq(pc, K.mul(v[0], xd), xn): return 'x'
        if not h.isq(v[1], K.c(fld(g).one), K.mul(a['y'], yn), yd) and not h.ffeq(pc, K.mul(v[1], yd), K.mul(a['y'], yn)): return 'y'
    return b, j
def isocurve(g):
    "the tables map the isogenous curve into the target curve: one identity of polynomials in x"
    def go(ctx):
        h = Map(ctx, next(iter(ctx.w)), g); h.quots = []; h.start(h.mark()); K = h.K; k = '11' if g == 1 else '3'
        x = (h.ring.var('x0'), h.ring.var('x1')) if g == 2 else h.ring.var('x')
        xn, xd, yn, yd = [K.ev(getattr(isodata, n + k), x) for n in ('XNUM', 'XDEN', 'YNUM', 'YDEN')]
        b = K.c((4, 4) if g == 2 else 4)
        lhs = K.mul(K.mul(h.rhs_(x), K.sq(yn)), K.cube(xd)); rhs = K.mul(K.sq(yd), K.add(K.cube(xn), K.mul(b, K.cube(xd))))
        ok = all(h.ring.prove([], h.ring.eq(p, q), hyps=False, tmo=200)[0] == 'unsat' for p, q in zip(K.fl(lhs), K.fl(rhs)))
        return Rec('isogeny tables into the target curve, G%d' % g, 'proved' if ok else 'open', '')
    return go
def psi_ob(inf):
    def b(h, ex, a):
        v = h.pval(2, a['v']['x'], a['v']['y'])
        return h.read(2, ex.call(P + 'psi', (ex.new(v[:2] + (inf,)),)))
    def j(h, pc, v, a):
        if inf or v is None: return None if (v is None) is inf else 'infinity'
        K = h.K; cj = lambda z: (z[0], h.ring.neg(z[1]))
        if not h.ffeq(pc, v[0], K.mul(cj(a['x']), K.c(ref.PSX))): return 'x'
        if not h.ffeq(pc, v[1], K.mul(cj(a['y']), K.c(ref.PSY))): return 'y'
    return b, j
KX = 1 << 3000
def clear_ob(fn, arch, g, want):
    "fixed combination of P, psi(P), psi(psi(P)); psi is written as multiplication by a large constant"
    def go(ctx):
        name = '%s [%s]' % (fn.replace(P, ''), arch)
        G_ = gexp.G('add'); ex = ctx.exec(arch); ex.contracts.update(G_.contracts(['G%dAffine' % g, 'G%dProjective' % g])); ex.contracts.update(gexp.bitcontracts())
        lv = 'g%da' % g
        def psi(ex, a):
            v = ex.load(a[0]); return ex.new(G_.el(gexp.pscale(G_.lift(ex, v, lv), KX), lv))
        if g == 2: ex.contracts[P + 'psi'] = psi
        def body(ex):
            p = ex.new(G_.el(gexp.ONE, lv), 'arg'); r = ex.call(fn, (p,))
            return G_.lift(ex, ex.load(r), lv), G_.lift(ex, ex.load(p), lv)
        n = 0
        for pr in ex.explore(body, 16):
            if pr.panic: return Rec(name, 'open', 'panic: ' + pr.panic.msg)
            n += 1
            if any(isinstance(c, Choice) and p for c, p in pr.pc): continue
            e, p = pr.val
            if gexp.check(gexp.padd(e, {0: want}, -1))[0] != 'unsat': return Rec(name, 'refuted', 'multiple %s' % {k: hex(v) for k, v in e.items()})
            if p != gexp.ONE: return Rec(name, 'refuted', 'the argument changed')
        return Rec(name, 'proved', '%d paths' % n)
    return go
class SWUTok(Abs):
    __slots__ = ('th', 'k')
    def __init__(self, k): self.th = None; self.k = k
def comp_ob(fn, helper, iso, arch, g, two):
    "the composition: isogeny of each SWU point, group sum, cofactor"
    def go(ctx):
        name = '%s [%s] %s' % (fn.replace(P, ''), arch, 'two elements' if two else 'one element')
        G_ = gexp.G('add'); ex = ctx.exec(arch); c = ex.contracts
        c.update(G_.contracts(['G%dAffine' % g, 'G%dProjective' % g])); c.update(gexp.bitcontracts()); lv = 'g%da' % g
        ring = Ring(); T = [RE(ring.el, ring.var('t%d' % i), 'fq' if g == 1 else 'fq2') for i in (0, 1)]
        c[P + helper] = lambda ex, a: ex.new(SWUTok([i for i in (0, 1) if a[0].n is T[i].n][0]))
        def isoc(ex, a):
            v = ex.load(a[0])
            if not isinstance(v, SWUTok): raise Unsupported('isogeny of something else')
            return ex.new(G_.el({1 << v.k: 1}, lv))
        c[P + iso] = isoc
        c[P + 'psi'] = lambda ex, a: ex.new(G_.el(gexp.pscale(G_.lift(ex, ex.load(a[0]), lv), KX), lv))
        def body(ex):
            p = [ex.new(t) for t in T]; r = ex.call(fn, (p[0], p[1] if two else None))
            return G_.lift(ex, ex.load(r), lv), all(ex.load(q) is t for q, t in zip(p, T))
        w = 1 + XP if g == 1 else H2X
        want = {1: w, 2: w} if two else {1: w}; n = 0
        for pr in ex.explore(body, 16):
            if pr.panic: return Rec(name, 'open', 'panic: ' + pr.panic.msg)
            n += 1
            if any(isinstance(c, Choice) and p for c, p in pr.pc): return Rec(name, 'open', 'special case')
            e, un = pr.val
            if gexp.check(gexp.padd(e, want, -1))[0] != 'unsat': return Rec(name, 'refuted', 'not the sum')
            if not un: return Rec(name, 'refuted', 'an argument changed')
        return Rec(name, 'proved', '%d paths' % n)
    return go
XP = ref.XPARAM; X_ = -XP
H2X = X_ * X_ - X_ - 1 + (X_ - 1) * KX + 2 * KX * KX
def obligations(ctx):
    obs = [Ob('isogeny tables G%d' % g, isocurve(g), [P + f], 'every x', weight=20, timeout=600) for g, f in ((1, 'iso11'), (2, 'iso3'))]
    for arch in ctx.w:
        ex = ctx.w[arch].p
        def add(nm, g, bj, fn, bound, w=5):
            name = '%s [%s]' % (nm, arch)
            obs.append(Ob(name, lambda ctx, n=name, b=bj[0], j=bj[1], g=g, a=arch: run(ctx, a, g, n, b, j), [fn], bound, weight=w, timeout=600))
        add('optimizedSWUMapHelper', 1, swu_ob(P + 'optimizedSWUMapHelper', 1), P + 'optimizedSWUMapHelper', 'every field element', 20)
        add('OptimizedSWU2MapHelper', 2, swu_ob(P + 'OptimizedSWU2MapHelper', 2), P + 'OptimizedSWU2MapHelper', 'every element of F_q2', 20)
        add('iso11', 1, iso_ob(P + 'iso11', 1), P + 'iso11', 'every point'); add('iso3', 2, iso_ob(P + 'iso3', 2), P + 'iso3', 'every point')
        for inf in (False, True): add('psi %s' % ('infinity' if inf else 'finite'), 2, psi_ob(inf), P + 'psi', 'every point')
        obs.append(Ob('ClearH [%s]' % arch, clear_ob(P + 'ClearH', arch, 1, 1 + XP), [P + 'ClearH'], 'every point'))
        obs.append(Ob('clearH2 [%s]' % arch, clear_ob(P + 'clearH2', arch, 2, H2X), [P + 'clearH2'], 'every point'))
        for two in (False, True):
            obs.append(Ob('optimizedSWUMap [%s] %s' % (arch, two), comp_ob(P + 'optimizedSWUMap', 'optimizedSWUMapHelper', 'iso11', arch, 1, two), [P + 'optimizedSWUMap'], 'all field elements'))
            obs.append(Ob('optimizedSWUMap2 [%s] %s' % (arch, two), comp_ob(P + 'optimizedSWUMap2', 'OptimizedSWU2MapHelper', 'iso3', arch, 2, two), [P + 'optimizedSWUMap2'], 'all field elements'))
    return obs
# ------------------------------------------------ concrete side
class SOptIn(SPtr):
    "pointer argument that may be nil"
    def enc(self, raw): return None if raw is None else SPtr.enc(self, raw)
    def mean(self, raw): return None if raw is None else self.s.mean(raw)
    def dec(self, x): return None if x is None else SPtr.dec(self, x)
def ts1(rng, n=12):
    h = (Q - 1) // 2; s = [0, 1, Q - 1, 2, Q - 2, h, h + 1, h - 1, h + 2, 3] + KER
    return s + [rng.randrange(Q) for _ in range(n)]
def ts2(rng, n=12):
    h = (Q - 1) // 2; b = [0, 1, Q - 1, h, h + 1, rng.randrange(Q)]
    s = [(x, y) for x in b for y in b] + [(rng.randrange(Q), 0), (0, rng.randrange(Q))]
    # s = xi t^2 = -1: the exceptional denominator
    r = ref.sqrt2(ref.n2(ref.i2((1, 1))))
    if r is not None: s += [r, ref.n2(r)]
    return s + [(rng.randrange(Q), rng.randrange(Q)) for _ in range(n)]
def pairs(ts, rng, neg):
    a = ts(rng, 4); out = [(t, None) for t in a]
    for t in a[:26]: out += [(t, t), (t, neg(t))]
    for _ in range(24): out.append((rng.choice(a), rng.choice(a)))
    return [(x, ()) for x in out]
def pts1(rng):
    s = [ref.swu(ref.F1, t) for t in ts1(rng, 10)]
    return s
def pts2(rng): return [ref.swu(ref.F2, t) for t in ts2(rng, 10)]
class SEll(Sort):
    "affine point of the isogenous curve"
    def __init__(self, g): self.g = g; self.name = 'ell%d' % g; self.f = fq if g == 1 else fq2
    def enc(self, p): return (self.f.enc(p[0]), self.f.enc(p[1]), False)
    def dec(self, x): return None if x[2] else (self.f.dec(x[0]), self.f.dec(x[1]))
e1s, e2s = SEll(1), SEll(2)
one = lambda l: [((x,), ()) for x in l]
spec('C12', 'optimizedSWUMapHelper', [fq], res(ptr(e1s)), lambda t: ref.swu(ref.F1, t), gen=lambda rng: one(ts1(rng, 60)))
spec('C12', 'OptimizedSWU2MapHelper', [fq2], res(ptr(e2s)), lambda t: ref.swu(ref.F2, t), gen=lambda rng: one(ts2(rng, 60)))
spec('C12', 'iso11', [ptr(e1s)], res(pg1a), lambda p: ref.iso(ref.F1, p), gen=lambda rng: one(pts1(rng)))
spec('C12', 'iso3', [ptr(e2s)], res(pg2a), lambda p: ref.iso(ref.F2, p), gen=lambda rng: one(pts2(rng)))
spec('C12', 'psi', [pg2a], res(pg2a), ref.psi, n=20)
spec('C12', 'ClearH', [pg1a], res(pg1a), ref.clear1, n=20)
spec('C12', 'clearH2', [pg2a], res(pg2a), ref.clear2, n=20)
spec('C12', 'optimizedSWUMap', [pfq, SOptIn(fq)], res(pg1a), ref.map1, gen=lambda rng: pairs(ts1, rng, lambda t: -t % Q))
spec('C12', 'optimizedSWUMap2', [pfq2, SOptIn(fq2)], res(pg2a), ref.map2, gen=lambda rng: pairs(ts2, rng, ref.n2))
def swenc(t):
    "Shallue-van de Woestijne encoding"
    if t == ref.O2: return None
    a, m = ref.a2, ref.m2; par = ref.gt2(t); w = a(a(m(t, t), (4, 4)), ref.I2)
    if w == ref.O2: p = ref.G2
    else:
        s3 = (1586958781458431025242759403266842894121773480562120986020912974854563298150952611241517463240701, 0); h = (793479390729215512621379701633421447060886740281060493010456487427281649075476305620758731620350, 0)
        w = m(m(ref.i2(w), s3), t); x1 = ref.s2(h, m(w, t))
        for x in (x1, ref.s2(ref.n2(x1), ref.I2), a(ref.i2(m(w, w)), ref.I2)):
            y = ref.sqrt2(ref.E2.rhs(x))
            if y is not None: p = (x, y if ref.gt2(y) == par else ref.n2(y)); return p
        return None
    return (p[0], ref.n2(p[1])) if par else p
def sw0(rng):
    r = ref.sqrt2(ref.n2((5, 4))); return [r, ref.n2(r)] if r else []
spec('C12', 'SWEncodeG2', [fq2], res(pg2a), swenc, gen=lambda rng: one(ts2(rng, 40) + sw0(rng)))
def specs(ctx): return [f for f, s in SPECS.items() if s.prop == 'C12'] + [P + 'HashG1', P + 'HashG2', P + 'HashG2WithDomain', P + 'signFQ', P + 'signFQ2']
spec('C12', 'signFQ', [fq], res(fq), lambda t: 1 if ref.sgn1(t) == 1 else Q - 1, gen=lambda rng: one(ts1(rng)))
spec('C12', 'signFQ2', [fq2], res(SInt('int', [])), ref.sgn2, gen=lambda rng: one(ts2(rng)))
def extra(S, rest, rng, full):
    import scen
    scen.run(S, [f for f, s in SPECS.items() if s.prop == 'C12'], full, per=3, nmut=2)
