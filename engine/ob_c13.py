"""C13: hashing of messages to field elements."""
from codec import *
import pspec, hashlib
LEVEL = 'model_checking'; FULL = True
OUTSIDE = ['messages of the listed lengths with every content; SHA-256 is an arbitrary function of its input bytes; conversions between integers and representations by contract (C02, C03, C04)']
ASSUME = ['hashing with the domain variants: the first three failed square-root attempts of the search (longer searches repeat the same step)']
LENS = (1024, 4097, 70001, None, 0, 1, 2, 31, 32, 33, 54, 55, 56, 63, 64, 65, 119, 128)
MAXFAIL = 3
class FRV(Abs):
    __slots__ = ('th', 'e')
    def __init__(self, e): self.th = None; self.e = e
class HPT(Abs):
    "point returned by a map that was recorded"
    __slots__ = ('th', 'rec')
    def __init__(self, rec): self.th = None; self.rec = rec
class Hash(Codec):
    def __init__(self, ctx, arch):
        Codec.__init__(self, ctx, arch)
        ex = self.ex; ex.sha = self.sha; ex.bigmod = self.bigmod
        c = ex.contracts
        for T, n in (('FQ', 6), ('FR', 4)):
            def frombig(ex, a, n=n, T=T):
                v = ex.load(a[0])
                if type(v) is tuple: v = 0
                e = bv.tobig(v)
                if ex.decide(bv.mkb(z3.Or(e < 0, e >= z3.BitVecVal(1 << (64 * n), bv.BIGW)))): raise Unsupported('integer out of range')
                t = tuple(bv.mkw(z3.Extract(64 * i + 63, 64 * i, e)) for i in range(n))
                return (t if T == 'FQ' else ex.new(t), None)
            c[P + T + 'ReprFromBigInt'] = frombig
        def frombytes(ex, a): 
            b = z3.Concat(*[tow(x, 8) for x in a[0]]); n = b.size() // 64
            return tuple(bv.mkw(z3.Extract(64 * i + 63, 64 * i, b)) for i in range(n))
        def tofr(ex, a):
            e = bv.simp(z3.Concat(*[tow(w, 64) for w in reversed(ex.load(a[0]))]))
            if ex.decide(bv.mkb(z3.ULT(e, z3.BitVecVal(R, 256)))): return ex.new((ex.new(FRV(e)),))
            return None
        c[P + 'FRReprToFR'] = tofr
        def rec(kind):
            def f(ex, a):
                r = HPT((kind,) + tuple(None if x is None else (self.L2(x) if kind == 2 else self.L(x)) for x in a))
                return ex.new(r)
            return f
        c[P + 'optimizedSWUMap'] = rec(1); c[P + 'optimizedSWUMap2'] = rec(2)
        def cof(ex, a):
            v = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
            return ex.new(HPT(('cof', self.read(2, v))))
        c['(%sG2Affine).ScaleByCofactor' % P] = cof; c['(*%sG2Affine).ScaleByCofactor' % P] = cof
        s2 = c['(%sFQ2).Sqrt' % P]
        def sqrt2(ex, a):
            n = self.L2(a[0])
            if len(self.sq) >= MAXFAIL:
                y = (self.elem('root0'), self.elem('root1')); self.roots.append((n, y)); self.sq.append((n, True, y)); return ((self.fq(y[0]), self.fq(y[1])), True)
            return s2(ex, a)
        c['(%sFQ2).Sqrt' % P] = sqrt2; c['(*%sFQ2).Sqrt' % P] = sqrt2
        self.hash0()
    def hash0(self): self.shas = []; self.mods = []
    def sha(self, ex, vals):
        if all(type(x) is int for x in vals): return tuple(hashlib.sha256(bytes(vals)).digest())
        vs = [tow(x, 8) for x in vals]
        for w, d in self.shas:
            if len(w) == len(vs) and (all(x.eq(y) for x, y in zip(w, vs)) or self.prove(ex.pc, z3.And(*[x == y for x, y in zip(w, vs)]))[0] == 'unsat'): return d
        d = tuple(BV(self.fresh('sha', 8)) for _ in range(32))
        self.shas.append((vs, d)); return d
    def bigmod(self, ex, x, m):
        if type(m) is not int: raise Unsupported('symbolic modulus')
        return bv.mkbig(self.modE(ex.pc, bv.tobig(x), m))
    def modE(self, pc, e, m):
        e = z3.simplify(e)
        if z3.is_bv_value(e): return z3.BitVecVal(e.as_signed_long() % m, bv.BIGW)
        for f, k, r in self.mods:
            if k == m and (f.eq(e) or self.prove(pc, f == e)[0] == 'unsat'): return r
        if self.prove(pc, z3.And(e >= 0, e < z3.BitVecVal(m, bv.BIGW)), 5)[0] == 'unsat': r = e
        else:
            n = m.bit_length(); r = z3.ZeroExt(bv.BIGW - n, self.fresh('mod', n)); self.cons.append(z3.And(r >= 0, r < z3.BitVecVal(m, bv.BIGW)))
        self.mods.append((e, m, r)); return r
    # the specified values
    def H(self, pc, bs):
        class E: pass
        e = E(); e.pc = pc
        return self.sha(e, tuple(bs))
    def spec(self, pc, msg, ctr, i, m):
        mp = tuple(self.H(pc, msg)) + (ctr,)
        b = self.H(pc, mp + (i, 1)) + self.H(pc, mp + (i, 2))
        e = z3.Concat(*[tow(x, 8) for x in b])
        return self.modE(pc, z3.ZeroExt(bv.BIGW - 512, e), m)
def hsave(h): return h.snap(), list(h.shas), list(h.mods), list(h.sq)
def hload(h, s): h.reset(s[0]); h.shas = list(s[1]); h.mods = list(s[2]); h.sq = list(s[3])
def run(ctx, arch, name, body, judge):
    h = Hash(ctx, arch); mk = h.mark(); np = 0
    def th(ex):
        h.reset(mk); h.hash0(); v = body(h, ex); return v, hsave(h)
    for pr in h.ex.explore(th, 200):
        np += 1
        if pr.panic: return Rec(name, 'open', 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
        v, s = pr.val; hload(h, s)
        why = judge(h, pr.pc, v)
        if why: return Rec(name, 'refuted', why)
    return Rec(name, 'proved', '%d paths' % np)
def eqE(h, pc, n, e):
    "canonical integer of a term equals a wide vector"
    return h.prove(pc, z3.ZeroExt(bv.BIGW - 384, h.canon(n)) == e)[0] == 'unsat'
def syms(n, k): return tuple(BV(z3.BitVec('%s_%d' % (n, i), 8)) for i in range(k))
def obs_for(ctx, arch):
    obs = []; raw = ctx.w[arch].p.raw
    lens = LENS if ctx.tier == 'quick' else (None,) + tuple(range(0, 200)) + (1023, 1024, 1025, 4096, 4097, 65535, 65536, 70001, 140003)
    lens += tuple(x for x in around(70000, -2, -1, 0, 1) if x not in lens)
    def add(nm, body, judge, fns, bound='every content of messages of lengths ' + ', '.join(map(str, lens if len(lens) < 30 else ['0 to 199, 1023 to 1025, 4096, 4097, 65535, 65536, 70001, 140003']))):
        name = '%s [%s]' % (nm, arch)
        obs.append(Ob(name, lambda ctx, n=name, b=body, j=judge: run(ctx, arch, n, b, j), fns, bound, weight=2))
    for g, fn in ((1, 'HashG1'), (2, 'HashG2')):
        for L in lens:
            def b(h, ex, fn=fn, L=L):
                m = syms('m', L or 0); sl = None if L is None else ex.mkslice_of(m)
                r = ex.call(P + fn, (sl,)); v = ex.load(r)
                if not isinstance(v, HPT): raise Unsupported('the map was not reached')
                return v.rec, m, (() if sl is None else ex.slice_vals(sl))
            def j(h, pc, v, g=g):
                rec, m, after = v
                if after != m: return 'the message changed'
                if rec[0] != g or len(rec) != 3 or rec[1] is None or rec[2] is None: return 'the map is not given two field elements'
                msg = (1,) + tuple(m)
                for k, t in ((0, rec[1]), (1, rec[2])):
                    ts = t if g == 2 else (t,)
                    for i, x in enumerate(ts):
                        if not eqE(h, pc, x, h.spec(pc, msg, k, i + 1, Q)): return 'field element %d.%d is not the specified one' % (k, i)
            add('%s %s bytes' % (fn, L), b, j, [P + fn])
    if P + 'HashSecretKey' in raw:
        def mk(fn):
            def b(h, ex):
                m = syms('m', 32); r = ex.call(fn, (m,)); v = ex.load(r)
                if fn != P + 'HashSecretKey': v = ex.load(v[0])
                return ex.load(v[0]).e, m
            def j(h, pc, v):
                e, m = v; w = h.spec(pc, m, 0, 1, R)
                if h.prove(pc, z3.ZeroExt(bv.BIGW - 256, e) == w)[0] != 'unsat': return 'not the specified scalar'
            add(fn.split('/')[-1], b, j, [fn], 'all 32-byte strings')
        for fn in (P + 'HashSecretKey', pspec.G1P + 'DeriveSecretKey', pspec.G2P + 'DeriveSecretKey'):
            if fn in raw: mk(fn)
    if P + 'HashG2WithDomain' in raw:
        def b(h, ex):
            m, d = syms('m', 32), syms('d', 8); r = ex.call(P + 'HashG2WithDomain', (m, d)); v = ex.load(r)
            if not isinstance(v, HPT) or v.rec[0] != 'cof': raise Unsupported('cofactor multiplication not reached')
            return v.rec[1], m, d
        def j(h, pc, v):
            pt, m, d = v
            if pt is None: return 'infinity'
            X, Y = pt; start = None
            x0 = []
            for i in (1, 2):
                e = z3.Concat(*[tow(x, 8) for x in h.H(pc, m + d + (i,))])
                n = [t for t in h.vars if h.prove(pc, h.cn[t.id] == z3.ZeroExt(128, e))[0] == 'unsat']
                if not n: return 'coordinate %d of the start is not the hash' % i
                x0.append(n[0])
            k = len(h.sq) - 1
            r = h.ring; eq = lambda a, b: r.prove([], RBool(r, 'eq', r.c(a), r.c(b)))[0] == 'unsat'
            for t, s in enumerate(h.sq):
                if s[1] is not (t == k): return 'stops elsewhere'
                if not h.isrhs(s[0], (x0[0] + r.c(t), x0[1])): return 'attempt %d is not at the start plus %d' % (t, t)
            if not (eq(X[0], x0[0] + r.c(k)) and eq(X[1], x0[1])): return 'the x-coordinate is not the first with a square right-hand side'
            y = h.sq[k][2]
            if not any(all(eq(p, q) for p, q in zip(Y, z)) for z in (y, tuple(r.neg(t) for t in y))): return 'not on the curve'
            # a root is never zero here (no point has y = 0)
            if h.prove(pc + [], z3.Implies(z3.Not(z3.And(*[h.canon(t) == 0 for t in Y])), h.greatest(Y)))[0] != 'unsat': return 'the other root'
        add('HashG2WithDomain', b, j, [P + 'HashG2WithDomain'], 'all messages and domains, up to %d failed attempts' % MAXFAIL)
    return obs
def obligations(ctx): return [o for a in ctx.w for o in obs_for(ctx, a)]
# ------------------------------------------------ concrete side
def gen_h(rng):
    ms = pspec.messages(rng) + [rng.randbytes(l) for l in (3, 7, 8, 15, 16, 40, 48, 62, 66, 90, 100, 111, 112, 180, 200, 300, 511, 512, 600)] + pspec.longs(rng)
    return [((m,), ()) for m in ms]
spec('C13', 'HashG1', [SSl([0])], res(ptr(g1a)), lambda m: ref.hash1(m or b''), gen=gen_h)
spec('C13', 'HashG2', [SSl([0])], res(ptr(g2a)), lambda m: ref.hash2(m or b''), gen=gen_h)
def gen_d(rng):
    return [((rng.randbytes(32), rng.randbytes(8)), ()) for _ in range(30)] + [((a, b), ()) for a in (bytes(32), b'\xff' * 32, bytes(range(32)), bytes(31) + b'\x01', b'\x01' + bytes(31)) for b in (bytes(8), b'\xff' * 8, bytes(7) + b'\x01', b'\x01' + bytes(7), b'\x02' + bytes(7), bytes(range(8)))]
spec('C13', 'HashG2WithDomain', [b32, pspec.b8], res(ptr(g2p)), ref.hash2d, gen=gen_d)
gsk = lambda rng: [((b,), ()) for b in b32.pool(rng, 60)] + [((bytes(32 - len(x)) + x,), ()) for x in (b'\x80', b'\xff\x00')]
spec('C13', 'HashSecretKey', [b32], res(pfr), ref.hsk, gen=gsk)
spec('C13', 'hp', [SSl([0]), SInt('ctr', [0, 1])], res(fq), lambda m, c: ref.hp(m or b'', c), gen=lambda rng: [((m, c), ()) for m in pspec.messages(rng) + pspec.longs(rng)[::3] for c in (0, 1, 2, 255)])
spec('C13', 'hp2', [SSl([0]), SInt('ctr', [0, 1])], res(fq2), lambda m, c: ref.hp2(m or b'', c), gen=lambda rng: [((m, c), ()) for m in pspec.messages(rng) + pspec.longs(rng)[::3] for c in (0, 1, 2, 255)])
def specs(ctx): return [f for f, s in SPECS.items() if s.prop == 'C13'] + [x + 'DeriveSecretKey' for x in (pspec.G1P, pspec.G2P)]
def extra(S, rest, rng, full):
    import scen
    scen.run(S, specs(S.ctx), full, per=3, nmut=2)
