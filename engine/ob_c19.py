"""C19: random elements, scalars, keys and points for every stream of the random source."""
from codec import *
import pspec, deps, ob_c13
LEVEL = 'model_checking'; FULL = True; SCENES = False
MAXATT = 2
OUTSIDE = ['crypto/rand.Int by its documented contract: a uniform value below the given bound read from the given source, or the error of the source',
           'points: the first %d attempts of the rejection loop (one more in the thorough tier; no value is carried from one attempt to the next)' % MAXATT,
           'conversions between integers and representations, square roots and cofactor multiplication by contract (C02 to C06, C08; the last two re-run here)']
ERR = Iface('verif.sourceError', None)
class Rand(ob_c13.Hash):
    def __init__(self, ctx, arch):
        ob_c13.Hash.__init__(self, ctx, arch)
        ex = self.ex; c = ex.contracts; self.natt = MAXATT + (ctx.tier != 'quick')
        self.rd = Iface(self.read_, 'the source')
        def rint(ex, a):
            if a[0] is not self.rd: raise Unsupported('draw from another source')
            m = ex.load(a[1])
            if type(m) is not int or m <= 0: raise Unsupported('bound of a draw')
            k = len(self.tr)
            if ex.decide(Choice('error', k)): self.tr.append(('err',)); return (None, ERR)
            n = m.bit_length(); s = self.fresh('draw', n); self.cons.append(z3.ULT(s, z3.BitVecVal(m, n)))
            self.tr.append(('int', m, s)); return (ex.new(bv.mkbig(z3.ZeroExt(bv.BIGW - n, s))), None)
        c['crypto/rand.Int'] = rint
        def cof(g):
            def f(ex, a):
                v = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
                p = self.read(g, v)
                t = tuple((self.elem('c0'), self.elem('c1')) if g == 2 else self.elem('c') for _ in range(3))
                zs = t[2] if g == 2 else (t[2],)
                if sum(x[0] == 'cof' for x in self.tr) + sum(1 for x in self.sq if not x[1]) >= self.natt - 1: self.cons.append(z3.Not(z3.And(*[self.canon(z) == 0 for z in zs])))
                self.tr.append(('cof', p, t))
                return ex.new(tuple((self.fq(x[0]), self.fq(x[1])) if g == 2 else self.fq(x) for x in t))
            return f
        for g in (1, 2):
            c['(%sG%dAffine).ScaleByCofactor' % (P, g)] = c['(*%sG%dAffine).ScaleByCofactor' % (P, g)] = cof(g)
            T = 'FQ' if g == 1 else 'FQ2'
            old = c['(%s%s).Sqrt' % (P, T)]
            def sq(ex, a, g=g, old=old):
                # the last attempt within the bound has a root
                if sum(x[0] == 'cof' for x in self.tr) + sum(1 for x in self.sq if not x[1]) >= self.natt - 1:
                    n = self.L(a[0]) if g == 1 else self.L2(a[0])
                    y = self.elem('root') if g == 1 else (self.elem('root0'), self.elem('root1'))
                    self.roots.append((n, y)); self.sq.append((n, True, y))
                    return ((self.fq(y) if g == 1 else (self.fq(y[0]), self.fq(y[1]))), True)
                return old(ex, a)
            c['(%s%s).Sqrt' % (P, T)] = c['(*%s%s).Sqrt' % (P, T)] = sq
    def read_(self, ex, v, meth, args):
        if meth != 'Read': raise Unsupported('method %s of the source' % meth)
        sl = args[0]; n = 0 if sl is None else sl.len
        if type(n) is not int or n > 64: raise Unsupported('read length')
        if ex.decide(Choice('error', len(self.tr))): self.tr.append(('err',)); return (0, ERR)
        bs = []
        for k in range(n):
            b = self.fresh('byte', 8); bs.append(b)
            ex.store(Ptr(sl.obj, sl.path + (sl.off + k,)), BV(b), 'source')
        self.tr.append(('bytes', bs)); return (n, None)
def run(ctx, arch, name, fn, judge):
    h = Rand(ctx, arch); mk = h.mark(); np = 0; ex = h.ex
    def th(ex):
        h.reset(mk); h.hash0(); h.tr = []; r = ex.call(fn, (h.rd,))
        return judge(h, ex, r[0], r[1], list(h.tr))
    for pr in ex.explore(th, 400):
        np += 1
        if pr.panic: return Rec(name, 'open', 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
        if pr.val: return Rec(name, 'refuted', pr.val)
    return Rec(name, 'proved', '%d paths' % np)
def eqd(h, ex, n, s): return h.prove(ex.pc, h.canon(n) == z3.ZeroExt(384 - s.size(), s))[0] == 'unsat'
def fq_terms(h, kind, v):
    l = h.L
    if kind == 'fq': return [l(v)]
    if kind == 'fq2': return [l(v[0]), l(v[1])]
    if kind == 'fq6': return [t for c in v for t in fq_terms(h, 'fq2', c)]
    return [t for c in v for t in fq_terms(h, 'fq6', h.ex.load(c))]
ERRS = lambda tr: [k for k, t in enumerate(tr) if t[0] == 'err']
def jerr(h, ex, v, err, tr, nil):
    "None: no error; else a verdict"
    e = ERRS(tr)
    if not e: return 'an error without a failure of the source' if err is not None else None
    if len(e) > 1 or e[0] != len(tr) - 1: return 'goes on after a failure of the source'
    if err is None: return 'the failure of the source is not reported'
    if not nil(v): return 'a value beside the error'
    return ''
def isnil(v): return v is None
def iszero(v): return v == 0 if not isinstance(v, tuple) else all(iszero(x) for x in v)
def jfield(kind, n, mod, ptr):
    def j(h, ex, v, err, tr):
        try: w = jerr(h, ex, v, err, tr, isnil if ptr else lambda v: not ex_sym(v) and iszero(v))
        except Unsupported: w = 'a value beside the error'
        if w is not None: return w
        d = [t for t in tr if t[0] == 'int']
        if len(d) != n or len(tr) != n or any(t[1] != mod for t in d): return 'draws: %s' % [t[:2] for t in tr]
        if v is None: return 'no value'
        ts = fq_terms(h, kind, ex.load(v) if ptr else v)
        for k, (t, x) in enumerate(zip(ts, d)):
            if not eqd(h, ex, t, x[2]): return 'coefficient %d is not draw %d' % (k, k)
        return None
    return j
def ex_sym(v): return any(ex_sym(x) for x in v) if isinstance(v, tuple) else not isinstance(v, (int, bool))
def jscalar(wrap):
    def j(h, ex, v, err, tr):
        w = jerr(h, ex, v, err, tr, isnil)
        if w is not None: return w
        if len(tr) != 1 or tr[0][:2] != ('int', R): return 'draws: %s' % [t[:2] for t in tr]
        if v is None: return 'no value'
        v = ex.load(v)
        if wrap:
            if v[0] is None: return 'no scalar'
            v = ex.load(v[0])
        if v[0] is None: return 'no value'
        e = ex.load(v[0])
        if not isinstance(e, ob_c13.FRV): raise Unsupported('scalar')
        return None if h.prove(ex.pc, e.e == z3.ZeroExt(e.e.size() - tr[0][2].size(), tr[0][2]))[0] == 'unsat' else 'not the integer drawn'
    return j
def jpoint(g):
    def j(h, ex, v, err, tr):
        w = jerr(h, ex, v, err, tr, isnil)
        if w is not None: return w
        if v is None: return 'no value'
        if not tr or tr[-1][0] != 'cof': return 'no cofactor multiplication'
        p, t = tr[-1][1:]; v = ex.load(v)
        fl = lambda x: list(x) if isinstance(x, tuple) else [x]
        got = [y for c in v for y in fl((h.L2 if g == 2 else h.L)(c))]; want = [y for c in t for y in fl(c)]
        for a, b in zip(got, want):
            if a is not b and h.prove(ex.pc, h.canon(a) == h.canon(b))[0] != 'unsat': return 'not the point multiplied by the cofactor'
        if h.prove(ex.pc, z3.Not(z3.And(*[h.canon(z) == 0 for z in fl(t[2])])))[0] != 'unsat': return 'infinity'
        if p is None: return 'the point before the cofactor is infinity'
        d = [x[2] for x in tr if x[0] == 'int'][-g:]
        if len(d) != g: return 'too few draws'
        for a, s in zip(fl(p[0]), d):
            if not eqd(h, ex, a, s): return 'the x-coordinate is not the draw'
        ok = any(s[1] and h.isrhs(s[0], p[0]) and all(h.prove(ex.pc, h.canon(a) == h.canon(b))[0] == 'unsat' for a, b in zip(fl(p[1]), fl(z)))
                 for s in h.sq if len(s) > 2 for z in (s[2], tuple(h.ring.neg(q) for q in s[2]) if g == 2 else h.ring.neg(s[2])))
        if not ok and not all(h.ring.prove([], h.ring.eq(a, b))[0] == 'unsat' for a, b in zip(fl(h.sqr(p[1])), fl(h.rhs(p[0])))): return 'not on the curve'
        return None
    return j
GOALS = [(P + 'RandFQ', jfield('fq', 1, Q, False)), (P + 'RandFQ2', jfield('fq2', 2, Q, False)), (P + 'RandFQ6', jfield('fq6', 6, Q, True)), (P + 'RandFQ12', jfield('fq12', 12, Q, True)),
         (P + 'RandFR', jscalar(False)), (pspec.G1P + 'RandKey', jscalar(True)), (pspec.G2P + 'RandKey', jscalar(True)), (P + 'RandG1', jpoint(1)), (P + 'RandG2', jpoint(2))]
def obligations(ctx):
    obs = []
    for a in ctx.w:
        for fn, j in GOALS:
            if fn not in ctx.w[a].p.raw: continue
            n = '%s [%s]' % (fn.split('/')[-1], a)
            obs.append(Ob(n, lambda ctx, a=a, n=n, fn=fn, j=j: run(ctx, a, n, fn, j), [fn], 'every value of every draw, a failure at any draw' + (', up to %d attempts' % MAXATT if 'RandG' in fn else ''), weight=5, timeout=240 if ctx.tier == 'quick' else 700))
    return obs + deps.obs(ctx, 'sqrt', 'cof')
# ------------------------------------------------ concrete side
class Fail(Exception): pass
class Stream:
    "the driver's source"
    def __init__(self, data, err): self.d = data; self.p = 0; self.f = 0; self.err = err
    def read(self, n):
        if self.p >= len(self.d):
            if self.err: raise Fail
            o = b''
            for _ in range(n): self.f = (self.f * 1103515245 + 12345) & 0xffffffff; o += bytes([self.f >> 16 & 255])
            return o
        b = self.d[self.p:self.p + n]; self.p += len(b); return b
    def full(self, n):
        b = b''
        while len(b) < n:
            b += self.read(n - len(b))
        return b
def rint(s, mx):
    n = (mx - 1).bit_length(); k = (n + 7) // 8; b = n % 8 or 8
    while 1:
        x = bytearray(s.full(k)); x[0] &= (1 << b) - 1
        v = int.from_bytes(x, 'big')
        if v < mx: return v
class SRd(Sort):
    name = 'nat'
    def enc(self, v): return Raw({'reader': v[0].hex(), 'err': bool(v[1]), 'chunk': v[2]})
    def dec(self, x): return None
class Raw:
    def __init__(self, j): self.j = j
rd = SRd()
def st(v): return Stream(v[0], v[1])
Z2 = (0, 0)
def sem(f, bad):
    def g(v):
        try: return (f(st(v)), False)
        except Fail: return (bad, True)
    return g
def r2(s): return (rint(s, Q), rint(s, Q))
def r6(s): return (r2(s), r2(s), r2(s))
def rpt(g):
    c = ref.E1 if g == 1 else ref.E2
    def f(s):
        while 1:
            b = s.read(1); gr = b[0] % 2 == 0
            x = rint(s, Q) if g == 1 else r2(s)
            y = c.fsqrt(c.rhs(x))
            if y is None: continue
            big = ref.gt1(y) if g == 1 else ref.gt2(y)
            if big != gr: y = c.fneg(y)
            p = c.mul((x, y), ref.H1 if g == 1 else ref.H2)
            if p is not None: return p
    return f
def gen(n, lead):
    "n draws of 48 bytes, each preceded by a byte for points"
    def f(rng, w=48, mod=Q):
        e = lambda x: x.to_bytes(w, 'big'); out = []
        sp = [0, 1, mod - 1, mod, mod + 1, (1 << mod.bit_length()) - 1, 2, (mod - 1) // 2, 1 << 64, (1 << 8 * w) - 1, 1 << (8 * w - 1), mod >> 1 << 64 & mod, 0xff << 8, 256]
        def stream(vals, bs=None): return b''.join((bytes([rng.randrange(256) if bs is None else bs]) if lead and k % n == 0 else b'') + e(v) for k, v in enumerate(vals))
        rnd = lambda: rng.randrange(mod)
        if not lead:
            for k in range(n):
                for x in sp: out.append((stream([rnd() if j < k else x if j == k else rnd() for j in range(n + 3)]), False, 0))
            for x in sp[:3]: out.append((stream([x] * n + [rnd()] * 3), False, 0))
        else:
            c = ref.E1 if n == 1 else ref.E2
            xs = [x if n == 1 else y for x in (0, 1, 2, 3, 4, 5, Q - 1, Q - 2, Q - 3) for y in ([x, 0], [0, x], [x, x], [1, x])][:: 4 if n == 1 else 1]
            for x in xs:
                for b in (0, 1, 2, 255) if n == 1 else (0, 3): out.append((stream([x] * 1 + [rnd()] * 12 if n == 1 else list(x) + [rnd() for _ in range(24)], b), False, 0))
            # points of small order: the multiple is infinity and the search goes on
            for q in small(n):
                x, y = q; l = [x] if n == 1 else list(x)
                for b in (0, 1): out.append((stream(l + [rnd() for _ in range(24)], b), False, 0))
            for _ in range(4): out.append((stream([rnd() for _ in range(24)]), False, 0))
        full = stream([rnd() for _ in range(n + (8 if lead else 2))])
        for L in range(0, n * w + (lead and 1) + 1):
            # the source fails after L bytes
            if L % w in (0, 1, 2, w - 1) or L < 3: out.append((full[:L], True, 0))
        out += [(full, False, 1), (full, False, 7), (full, True, 5), (b'', False, 0), (b'', True, 0)]
        # rejected draws, then a failure
        rej = stream([(1 << mod.bit_length()) - 1, mod])
        out += [(rej, True, 0), (rej + full, False, 0), (rej + full, True, 3)]
        return [((x,), ()) for x in out]
    return f
def small(n):
    "points of order 3 or another small factor of the cofactor"
    c = ref.E1 if n == 1 else ref.E2; h = ref.H1 if n == 1 else ref.H2; o = h * R; out = []
    rng = random.Random(11)
    for p in (3, 11, 13, 23):
        if h % p: continue
        m = o
        while m % p == 0: m //= p
        for _ in range(6):
            x = rng.randrange(Q) if n == 1 else (rng.randrange(Q), rng.randrange(Q)); y = c.fsqrt(c.rhs(x))
            if y is None: continue
            q = c.mul((x, y), m)
            while q is not None and c.mul(q, p) is not None: q = c.mul(q, p)
            if q is not None: out.append(q); break
    return out
def once(f):
    c = []
    def g(rng):
        if not c: c.append(f(random.Random(SEED)))
        return c[0]
    return g
V = SErr()
noval = SOpt      # a pointer result that is nil beside an error
class SValid(SPtr):
    "a point of the prime-order subgroup other than infinity; which one is not specified"
    def __init__(self, s): SPtr.__init__(self, s); self.ok = {}
    def dec(self, x):
        if x is None: return 'nil'
        p = SPtr.dec(self, x)
        if p is None: raise Bad('returned infinity')
        if not self.s.c.on(p): raise Bad('returned a point outside the curve: %s' % show(p))
        if self.s.c.mul(p, R) is not None: raise Bad('returned a point outside the subgroup: %s' % show(p))
        return 'valid'
spec('C19', 'RandFQ', [rd], res(fq, V), sem(lambda s: rint(s, Q), 0), gen=once(gen(1, False)))
spec('C19', 'RandFQ2', [rd], res(fq2, V), sem(r2, (0, 0)), gen=once(gen(2, False)))
spec('C19', 'RandFQ6', [rd], res(noval(fq6), V), sem(r6, 'nil'), gen=once(gen(6, False)))
spec('C19', 'RandFQ12', [rd], res(noval(fq12), V), sem(lambda s: (r6(s), r6(s)), 'nil'), gen=once(gen(12, False)))
gr = lambda rng: gen(1, False)(rng, 32, R)
spec('C19', 'RandFR', [rd], res(noval(fr), V), sem(lambda s: rint(s, R), 'nil'), gen=once(gr))
for pk in (pspec.G1P, pspec.G2P):
    spec('C19', pk + 'RandKey', [rd], res(noval(pspec.skv), V), sem(lambda s: rint(s, R), 'nil'), gen=once(gr))
spec('C19', 'RandG1', [rd], res(SValid(g1p), V), sem(lambda s: rpt(1)(s) and 'valid', 'nil'), gen=once(gen(1, True)))
spec('C19', 'RandG2', [rd], res(SValid(g2p), V), sem(lambda s: rpt(2)(s) and 'valid', 'nil'), gen=once(gen(2, True)))
HIST = False      # readers: the scenes of the stream cover them
def specs(ctx): return [f for f, s in SPECS.items() if s.prop == 'C19']
