"""What the exported operations must return, on mathematical values. Used to judge runs of the real code (replays of
solver models, directed candidates, translator validation) and to state the obligations."""
import random, itertools, functools
from core import *
from intr import P, Q, R, words, val
import ref
RQ = (1 << 384) % Q; RQI = pow(RQ, -1, Q)
RR = (1 << 256) % R; RRI = pow(RR, -1, R)
class Bad(Exception): pass

# ================================================================ sorts
class Sort:
    name = ''
    def mean(self, raw): return raw
    def pool(self, rng, n): return []
def reprpool(bits, mod):
    w = bits // 64; m = 1 << bits
    s = [0, 1, 2, 3, m - 1, m - 2, mod, mod - 1, mod + 1, 2 * mod % m, (m - 1) // 3, 1 << (bits - 1), (1 << (bits - 1)) - 1]
    for k in range(w):
        s += [1 << (64 * k), (1 << (64 * k)) - 1 if k else 5, (M64_ << (64 * k)), 1 << (64 * k + 63), (1 << (64 * k)) + 1, m - 1 - (M64_ << (64 * k)), 1 << (64 * k + 32), (0xffffffff << (64 * k)), (0xffffffff << (64 * k + 32)), mod ^ (1 << (64 * k))]
    return list(dict.fromkeys(x % m for x in s))
M64_ = (1 << 64) - 1
class SRepr(Sort):
    def __init__(self, name, w, mod): self.name = name; self.w = w; self.mod = mod
    def enc(self, v): return words(v, self.w)
    def dec(self, x): return val(x)
    def pool(self, rng, n):
        b = 64 * self.w
        return reprpool(b, self.mod) + [rng.getrandbits(b) for _ in range(n)] + [rng.getrandbits(rng.randrange(1, b)) for _ in range(n)]
def fieldpool(mod, rr, rri, bits, rng, n):
    s = [0, 1, 2, 3, 4, mod - 1, mod - 2, (mod - 1) // 2, (mod + 1) // 2, (mod + 3) // 2, 7]
    mont = [x for x in reprpool(bits, mod) if x < mod]
    s += [x % mod for x in mont]                                   # boundary canonical values
    s += [x * rri % mod for x in mont + [mod - 1, mod - 2, (mod - 1) // 2, (mod + 1) // 2, mod - (1 << 64), mod - (1 << (bits - 64)), mod >> 1]]   # boundary internal words
    for k in range(bits // 64):
        s.append(((mod >> (64 * k)) << (64 * k)) * rri % mod)
        s.append((((mod >> (64 * k)) << (64 * k)) - 1) % mod * rri % mod)
        s.append(((mod >> (64 * k)) << (64 * k)) % mod)
        # one internal word zero or all ones
        v = rng.randrange(mod); z = v & ~(M64_ << (64 * k)); s.append(z % mod * rri % mod); s.append(z % mod)
        z = v | (M64_ << (64 * k))
        if z < mod: s.append(z * rri % mod); s.append(z)
        v = rng.randrange(mod) & (M64_ << (64 * k))
        if v < mod: s.append(v * rri % mod); s.append(v)
    s += [rng.randrange(mod) for _ in range(n)]
    return list(dict.fromkeys(x % mod for x in s))
class SFq(Sort):
    name = 'fq'
    def enc(self, v): return (words(v * RQ % Q, 6),)
    def dec(self, x):
        v = val(x[0])
        if v >= Q: raise Bad('non-canonical base field element (internal value %#x >= q)' % v)
        return v * RQI % Q
    def pool(self, rng, n): return fieldpool(Q, RQ, RQI, 384, rng, n)
class SFr(Sort):
    name = 'fr'
    def enc(self, v): return (Ptr(Obj(words(v * RR % R, 4))),)
    def dec(self, x):
        if x[0] is None: raise Bad('scalar without value')
        v = val(x[0].obj.v)
        if v >= R: raise Bad('non-canonical scalar (internal value %#x >= r)' % v)
        return v * RRI % R
    def pool(self, rng, n): return fieldpool(R, RR, RRI, 256, rng, n)
fq = SFq(); fr = SFr()
class SFq2(Sort):
    name = 'fq2'
    def enc(self, v): return (fq.enc(v[0]), fq.enc(v[1]))
    def dec(self, x): return (fq.dec(x[0]), fq.dec(x[1]))
    def pool(self, rng, n):
        b = [0, 1, Q - 1, 2, (Q - 1) // 2, (Q + 1) // 2, rng.randrange(Q), RQI, Q - 3]
        s = [(x, y) for x in b for y in b]
        f = fq.pool(rng, 2)
        s += [(x, 0) for x in f] + [(0, x) for x in f] + [(x, x) for x in f] + [(x, Q - x if x else 0) for x in f]
        s += [(rng.randrange(Q), rng.randrange(Q)) for _ in range(n)]
        return s
fq2 = SFq2()
class SFq6(Sort):
    name = 'fq6'
    def enc(self, v): return tuple(fq2.enc(x) for x in v)
    def dec(self, x): return tuple(fq2.dec(c) for c in x)
    def pool(self, rng, n):
        r2 = lambda: (rng.randrange(Q), rng.randrange(Q))
        b = [(0, 0), (1, 0), (0, 1), (Q - 1, 0), r2()]
        s = list(itertools.product(b, repeat=3))
        a = r2()
        s += [(a, a, a), (a, ref.n2(a), a), (r2(), a, a)]
        return s + [(r2(), r2(), r2()) for _ in range(n)]
fq6 = SFq6()
@functools.lru_cache(None)
def groots():
    "elements of small and special order: an r-th root of unity, roots of unity of the quadratic field"
    rng = random.Random('roots')
    r6 = lambda: tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3))
    g = (r6(), r6()); u = ref.mul12(ref.conj12(g), ref.inv12(g)); c = ref.mul12(ref.frob12(u, 2), u)
    gt = ref.exp12(c, (Q**4 - Q**2 + 1) // R)
    n2 = ref.e2((rng.randrange(Q), rng.randrange(Q)), Q - 1)            # norm one over F_q
    return u, c, gt, n2
def special12(rng):
    u, c, gt, n2 = groots(); z = ref.O6; e2 = lambda a: (a, ref.O2, ref.O2)
    a = (rng.randrange(Q), rng.randrange(Q)); q = (rng.randrange(Q), 0)
    r6 = tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3))
    return [u, c, gt, ref.conj12(gt), (e2(n2), z), (e2(a), z), (z, e2(a)), (e2(q), z), (r6, z), (z, r6), ((a, ref.O2, ref.O2), (ref.O2, a, ref.O2)), (e2((0, 1)), z), (e2((0, Q - 1)), z)]
EXPS = [0, 1, 2, 3, R, R - 1, R + 1, 1 << 255, 1 << 256, (1 << 256) - 1, (1 << 256) + 1, Q - 1, Q, Q + 1, Q - 2, (Q - 1) // 2, (Q + 1) // 4, (Q - 3) // 4, (1 << 384) - 1, 1 << 383, 1 << 300, R << 100, 0xd201000000010000, 2 * R, Q + 1 << 1]
def gen_exp(bases, nb, cube):
    def g(rng):
        bs = bases(rng); out = []
        rnd = lambda: [rng.getrandbits(384), rng.getrandbits(256), rng.choice(EXPS[4:])]
        for b in bs:
            for e in rnd()[:cube] + [rng.choice(EXPS[6:])]: out.append(((b, e), ()))
        for e in EXPS + [rng.getrandbits(k) for k in (7, 64, 65, 129, 381, 382, 383)]:
            for b in rng.sample(bs, min(len(bs), nb)): out.append(((b, e), ()))
        # elements of special order with every wide exponent
        return out
    return g
def gen_exp12(rng):
    u, c, gt, n2 = groots(); x = gen_exp(bases12, 1, 1)(rng)
    for b in (u, c, gt):
        for e in (R, R + 1, 1 << 300, (1 << 384) - 1, rng.getrandbits(384)): x.append(((b, e), ()))
    return x
def bases12(rng):
    r6 = lambda: tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3))
    return [ref.O12, ref.I12, ref.neg12(ref.I12)] + special12(rng) + [(r6(), r6())] if hasattr(ref, 'neg12') else [ref.O12, ref.I12, ref.sub12(ref.O12, ref.I12)] + special12(rng) + [(r6(), r6())]
def bases6(rng): return [x[0] for x in bases12(rng) if x[1] == ref.O6] + [tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3)), (ref.O2, ref.I2, ref.O2), (ref.O2, ref.O2, (5, 7))]
def bases2(rng): return [ref.O2, ref.I2, ref.n2(ref.I2), (0, 1), (0, Q - 1), groots()[3], (rng.randrange(Q), 0), (0, rng.randrange(Q)), (rng.randrange(Q), rng.randrange(Q)), (1, 1)]
class SFq12(Sort):
    name = 'fq12'
    def enc(self, v): return (Ptr(Obj(fq6.enc(v[0]))), Ptr(Obj(fq6.enc(v[1]))))
    def dec(self, x):
        if x[0] is None or x[1] is None: raise Bad('FQ12 with a nil coefficient')
        if x[0].obj is x[1].obj: pass
        return (fq6.dec(x[0].obj.v), fq6.dec(x[1].obj.v))
    def pool(self, rng, n):
        s6 = [ref.O6, ref.I6, ref.neg6(ref.I6), (ref.O2, ref.I2, ref.O2)]
        r6 = lambda: tuple((rng.randrange(Q), rng.randrange(Q)) for _ in range(3))
        a = r6(); s6.append(a)
        s = [(x, y) for x in s6 for y in s6]
        g = (r6(), r6()); cyc = ref.mul12(ref.conj12(g), ref.inv12(g)); s.append(cyc)
        s.append(ref.mul12(ref.frob12(cyc, 2), cyc))
        return s + special12(rng) + [(r6(), r6()) for _ in range(n)]
fq12 = SFq12()
class SPt(Sort):
    "point: raw = (P, z) for projective forms, P for affine"
    def __init__(self, name, curve, fs, proj, gen):
        self.name = name; self.c = curve; self.f = fs; self.proj = proj; self.gen = gen
    def enc(self, raw):
        c = self.c
        if not self.proj:
            if raw is None: return (self.f.enc(c.zero), self.f.enc(c.one), True)
            return (self.f.enc(raw[0]), self.f.enc(raw[1]), False)
        Pt, z = raw
        if Pt is None:
            if z is None: return (self.f.enc(c.zero), self.f.enc(c.one), self.f.enc(c.zero))
            return (self.f.enc(z), self.f.enc(c.fmul(z, z)), self.f.enc(c.zero))
        z2 = c.fmul(z, z)
        return (self.f.enc(c.fmul(Pt[0], z2)), self.f.enc(c.fmul(Pt[1], c.fmul(z2, z))), self.f.enc(z))
    def mean(self, raw): return raw[0] if self.proj else raw
    def dec(self, x):
        c = self.c
        a, b = self.f.dec(x[0]), self.f.dec(x[1])
        if not self.proj:
            if x[2]: return None
            return (a, b)
        z = self.f.dec(x[2])
        if z == c.zero: return None
        zi = c.finv(z); z2 = c.fmul(zi, zi)
        return (c.fmul(a, z2), c.fmul(b, c.fmul(z2, zi)))
    def rawpool(self, rng, n):
        "affine points: generator multiples, negatives, points outside the subgroup, points with special coordinates"
        c = self.c; g = self.gen
        s = [None, g, c.neg(g), c.add(g, g), c.mul(g, 3), c.mul(g, R - 2)]
        s += [c.mul(g, rng.randrange(R)) for _ in range(n)]
        x = 0 if c is ref.E1 else (0, 0)
        k = 0; out = 0
        while out < 6:
            xx = k if c is ref.E1 else (k, 0) if k % 3 == 0 else (0, k) if k % 3 == 1 else (k, k)
            y = c.fsqrt(c.rhs(xx))
            if y is not None: s.append((xx, y)); s.append((xx, c.fneg(y))); out += 1
            k += 1
        while out < 8:
            xx = rng.randrange(Q) if c is ref.E1 else (rng.randrange(Q), rng.randrange(Q))
            y = c.fsqrt(c.rhs(xx))
            if y is not None: s.append((xx, y)); out += 1
        return list(dict.fromkeys(s))
    def zs(self, rng):
        if self.c is ref.E1: return [1, Q - 1, rng.randrange(Q), 2]
        return [(1, 0), (Q - 1, 0), (rng.randrange(Q), rng.randrange(Q)), (0, 1), (0, rng.randrange(Q)), (1, rng.randrange(Q)), (rng.randrange(1, Q), 0), (1, 1), (rng.randrange(Q), 1)]
    def pool(self, rng, n):
        pts = self.rawpool(rng, n)
        sp = self.special()
        if not self.proj: return pts + sp
        out = []
        for p in pts:
            zz = self.zs(rng)
            if p is None: out += [(None, None)] + [(None, z) for z in zz[:3]]
            else: out += [(p, z) for z in (zz if p in pts[:5] else rng.sample(zz, 2))]
        return out + [(p, rng.choice(self.zs(rng))) for p in sp]
    def special(self):
        "points of the curve (mostly outside the subgroup) with special coordinates"
        import pointdata
        l = pointdata.S1 if self.c is ref.E1 else pointdata.S2
        if not l or not all(self.c.on(p) for p in l): raise Exception('pointdata.py is wrong')
        return l + [self.c.neg(p) for p in l]
g1a = SPt('g1a', ref.E1, fq, False, ref.G1); g1p = SPt('g1p', ref.E1, fq, True, ref.G1)
g2a = SPt('g2a', ref.E2, fq2, False, ref.G2); g2p = SPt('g2p', ref.E2, fq2, True, ref.G2)
fqr = SRepr('fqrepr', 6, Q); frr = SRepr('frrepr', 4, R)
class SInt(Sort):
    def __init__(self, name, vals, rnd=None): self.name = name; self.vals = vals; self.rnd = rnd
    def enc(self, v): return v
    def dec(self, x): return x
    def pool(self, rng, n): return list(self.vals) + ([self.rnd(rng) for _ in range(n)] if self.rnd else [])
u64 = SInt('u64', [0, 1, 2, M64_, M64_ - 1, 1 << 63, (1 << 63) - 1, 0xffffffff, 1 << 32, (1 << 32) - 1, 0xffffffff00000000], lambda r: r.getrandbits(64))
bit = SInt('bit', [0, 1])
boolean = SInt('bool', [False, True])
idx384 = SInt('idx', list(range(384))); idx256 = SInt('idx', list(range(256)))
shift = SInt('shift', [0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 321, 383, 384, 385, 400, 448, 512, 1 << 20, 1 << 31, 5, 100, 200, 300], lambda r: r.randrange(400))
pow8 = SInt('pow', list(range(26)) + [127, 128, 254, 255])
anyint = SInt('int', [])
class SBytes(Sort):
    "array of n bytes, raw is bytes"
    def __init__(self, n): self.n = n; self.name = 'b%d' % n
    def enc(self, v): return tuple(v)
    def dec(self, x): return bytes(x)
    def pool(self, rng, n):
        return [bytes(self.n), b'\xff' * self.n, bytes(range(1, self.n + 1))] + [rng.randbytes(self.n) for _ in range(n)] + [bytes(k) + b'\x01' + bytes(self.n - 1 - k) for k in range(self.n)]
class SSl(Sort):
    "byte slice"
    def __init__(self, lens): self.lens = lens; self.name = '[]byte'
    def enc(self, v): return None if v is None else Slice(Obj(tuple(v)), (), 0, len(v), len(v))
    def dec(self, x): return None if x is None else bytes(x.obj.v[x.off:x.off + x.len])
    def pool(self, rng, n): return [None] + [b'\xff' * l for l in self.lens] + [bytes(l) for l in self.lens] + [rng.randbytes(l) for l in self.lens for _ in range(n)]
class SBig(Sort):
    def __init__(self, vals, rnd): self.name = 'big'; self.vals = vals; self.rnd = rnd
    def enc(self, v): return v
    def dec(self, x): return x
    def pool(self, rng, n): return list(self.vals) + [self.rnd(rng) for _ in range(n)]
bigany = SBig([0, 1, 2, Q - 1, Q, Q + 1, R, R - 1, R + 1, (1 << 256) - 1, 1 << 256, (1 << 384) - 1, 1 << 64, (1 << 64) - 1, 1 << 128, 1 << 383, 1 << 255], lambda r: r.getrandbits(r.randrange(1, 384)))
BIGW_ = [1 << k for k in (257, 263, 264, 319, 320, 384, 385, 390, 391, 392, 447, 448, 512, 576, 1000)]
bigwide = SBig([x for k in (256, 384) for x in ((1 << k) + 1, (1 << k) + 5, 3 << k, (1 << (k + 8)) - 1, Q << 8)] + BIGW_ + [x - 1 for x in BIGW_] + [-1, -2, -Q, -(1 << 63), -(1 << 64), -(1 << 255), -(1 << 256), -(1 << 383), -(1 << 384)] + bigany.vals, bigany.rnd)
class SErr(Sort):
    name = 'err'
    def dec(self, x): return x is not None
err = SErr()
class SPtr(Sort):
    def __init__(self, s): self.s = s; self.name = '*' + s.name
    def mean(self, raw): return self.s.mean(raw)
    def enc(self, raw): return Ptr(Obj(self.s.enc(raw)))
    def dec(self, x):
        if x is None: raise Bad('nil result')
        v = x.obj.v
        for i in x.path: v = v[i]
        return self.s.dec(v)
    def pool(self, rng, n): return self.s.pool(rng, n)
class SOpt(SPtr):
    "pointer whose nil means 'none'"
    def dec(self, x): return 'nil' if x is None else SPtr.dec(self, x)
def ptr(s): return SPtr(s)
b32 = SBytes(32); b48 = SBytes(48); b96 = SBytes(96); b192 = SBytes(192)

# ================================================================ specifications
SIZES = []      # sizes that occur in the analysed code beyond those of the formats (filled by run.py)
def around(limit, *ds): return sorted({v + d for v in SIZES for d in ds or (-1, 0, 1) if 0 < v + d <= limit})
SPECS = {}
ANY = object()     # this output is not specified for these arguments
class Spec: pass
def spec(prop, fn, args, outs, sem, pre=None, ret=None, n=8, extra=None, cap=1500, slow=False, gen=None, mut=()):
    """args: list of sorts; outs: list of (where, sort) with where = ('post', i) or ('res', i)"""
    s = Spec(); s.prop = prop; s.fn = fullname(fn); s.args = args; s.sem = sem; s.pre = pre; s.n = n; s.extra = extra; s.cap = cap; s.slow = slow; s.gen = gen; s.mut = mut
    s.outs = outs
    SPECS[s.fn] = s
    return s
def fullname(fn):
    if '/' in fn: return fn
    if fn.startswith('(*'): return '(*' + P + fn[2:]
    if fn.startswith('('): return '(' + P + fn[1:]
    return P + fn
def recv(s): return [(('post', 0), s)]
def res(*ss): return [(('res', i), s) for i, s in enumerate(ss)]
pfq, pfr, pfq2, pfq6, pfq12 = ptr(fq), ptr(fr), ptr(fq2), ptr(fq6), ptr(fq12)
pfqr, pfrr = ptr(fqr), ptr(frr)
pg1a, pg1p, pg2a, pg2p = ptr(g1a), ptr(g1p), ptr(g2a), ptr(g2p)
W6 = fqr
def pair6(hi, lo): return (hi, lo)
sgn = lambda d: (d > 0) - (d < 0)
# ---- C01
spec('C01', 'MACWithCarry', [u64] * 4, res(u64, u64), lambda a, b, c, d: ((a + b * c + d) & M64_, (a + b * c + d) >> 64))
spec('C01', 'AddWithCarry', [u64, u64, u64], res(u64, u64), lambda a, b, c: ((a + b + c) & M64_, (a + b + c) >> 64))
spec('C01', 'SubWithBorrow', [u64, u64, bit], res(u64, u64), lambda a, b, c: ((a - b - c) & M64_, int(a - b - c < 0)))
spec('C01', 'AddNoCarry', [fqr, fqr], res(fqr), lambda a, b: (a + b) % (1 << 384))
spec('C01', 'SubNoBorrow', [fqr, fqr], res(fqr), lambda a, b: (a - b) % (1 << 384))
spec('C01', 'MultiplyFQRepr', [fqr, fqr], res(fqr, fqr), lambda a, b: (a * b >> 384, a * b % (1 << 384)))
QI = pow(-Q, -1, 1 << 384)
def redc(hi, lo):
    # the unsubtracted Montgomery quotient: the result is returned modulo its width
    k = lo * QI % (1 << 384)
    return ((hi << 384) + lo + k * Q >> 384) % (1 << 384)
spec('C01', 'MontReduce', [fqr, fqr], res(fqr), redc)
# ---- C02
B1 = [recv(fq)]
spec('C02', '(*FQ).AddAssign', [pfq, fq], recv(pfq), lambda a, b: (a + b) % Q)
spec('C02', '(*FQ).SubAssign', [pfq, fq], recv(pfq), lambda a, b: (a - b) % Q)
spec('C02', '(*FQ).MulAssign', [pfq, fq], recv(pfq), lambda a, b: a * b % Q)
spec('C02', '(*FQ).NegAssign', [pfq], recv(pfq), lambda a: -a % Q)
spec('C02', '(*FQ).DoubleAssign', [pfq], recv(pfq), lambda a: 2 * a % Q)
spec('C02', '(*FQ).SquareAssign', [pfq], recv(pfq), lambda a: a * a % Q)
spec('C02', '(*FQ).DivAssign', [pfq, fq], recv(pfq), lambda a, b: a * ref.inv(b) % Q, pre=lambda a, b: b != 0)
spec('C02', '(FQ).Inverse', [fq], res(fq, boolean), lambda a: (ref.inv(a), True) if a else (ANY, False))
spec('C02', '(FQ).Exp', [fq, fqr], res(fq), lambda a, e: pow(a, e, Q), cap=600)
spec('C02', '(FQ).MulBits', [fq, pfqr], res(fq), lambda a, k: a * k % Q, cap=600)
spec('C02', '(FQ).IsZero', [fq], res(boolean), lambda a: a == 0)
spec('C02', '(FQ).Equals', [fq, fq], res(boolean), lambda a, b: a == b)
spec('C02', '(FQ).Cmp', [fq, fq], res(anyint), lambda a, b: sgn(a - b))
spec('C02', '(FQ).Copy', [fq], res(fq), lambda a: a)
spec('C02', '(*FQ).ToRepr', [pfq], res(fqr), lambda a: a)
spec('C02', '(*FQ).IsValid', [pfq], res(boolean), lambda a: True)
spec('C02', 'FQReprToFQ', [fqr], res(fq), lambda a: a, pre=lambda a: a < Q)
# ---- C03
spec('C03', '(*FR).AddAssign', [pfr, pfr], recv(pfr), lambda a, b: (a + b) % R)
spec('C03', '(*FR).SubAssign', [pfr, pfr], recv(pfr), lambda a, b: (a - b) % R)
spec('C03', '(FR).MulAssign', [fr, pfr], [(('post', 0), fr)], lambda a, b: a * b % R)
spec('C03', '(*FR).MulAssign', [pfr, pfr], recv(pfr), lambda a, b: a * b % R)
spec('C03', '(*FR).NegAssign', [pfr], recv(pfr), lambda a: -a % R)
spec('C03', '(*FR).DoubleAssign', [pfr], recv(pfr), lambda a: 2 * a % R)
spec('C03', '(*FR).SquareAssign', [pfr], recv(pfr), lambda a: a * a % R)
spec('C03', '(FR).Inverse', [fr], res(SOpt(fr)), lambda a: ref.inv(a, R) if a else 'nil')
spec('C03', '(*FR).Exp', [pfr, pfrr], res(pfr), lambda a, e: pow(a, e, R), cap=600)
spec('C03', '(FR).MulBits', [fr, pfrr], res(pfr), lambda a, k: a * k % R, cap=600)
spec('C03', '(FR).IsZero', [fr], res(boolean), lambda a: a == 0)
spec('C03', '(FR).Equals', [fr, pfr], res(boolean), lambda a, b: a == b)
spec('C03', '(FR).Cmp', [fr, pfr], res(anyint), lambda a, b: sgn(a - b))
spec('C03', '(*FR).Copy', [pfr], res(pfr), lambda a: a)
spec('C03', '(*FR).ToRepr', [pfr], res(pfrr), lambda a: a)
spec('C03', '(*FR).Bytes', [pfr], res(b32), lambda a: a.to_bytes(32, 'big'))
spec('C03', '(*FR).IsValid', [pfr], res(boolean), lambda a: True)
spec('C03', 'FRReprToFR', [pfrr], res(pfr), lambda a: a, pre=lambda a: a < R)
spec('C03', '(*FR).Legendre', [pfr], res(anyint), lambda a: {0: 0, 1: 1, -1: 2}[ref.leg(a, R)], cap=40)
# ---- C04
for ty, s, ps, n, mod, byval in (('FQRepr', fqr, pfqr, 384, Q, True), ('FRRepr', frr, pfrr, 256, R, False)):
    m = 1 << n; arg = s if byval else ps; T = lambda name, p='*', ty=ty: '(%s%s).%s' % (p, ty, name)
    spec('C04', T('IsOdd', ''), [s], res(boolean), lambda a: a % 2 == 1)
    spec('C04', T('IsEven', ''), [s], res(boolean), lambda a: a % 2 == 0)
    spec('C04', T('IsZero', ''), [s], res(boolean), lambda a: a == 0)
    spec('C04', T('Equals'), [ps, arg], res(boolean), lambda a, b: a == b)
    spec('C04', T('Cmp'), [ps, arg], res(anyint), lambda a, b: sgn(a - b))
    spec('C04', T('Copy'), [ps], res(arg), lambda a: a)
    spec('C04', T('Div2'), [ps], recv(ps), lambda a: a >> 1)
    spec('C04', T('Mul2'), [ps], recv(ps), lambda a, m=m: a * 2 % m)
    spec('C04', T('Rsh'), [ps, shift], recv(ps), lambda a, k: a >> k if k < 1000 else 0)
    spec('C04', T('Lsh'), [ps, shift], recv(ps), lambda a, k, m=m: (a << k) % m if k < 1000 else 0)
    spec('C04', T('AddNoCarry'), [ps, arg], recv(ps), lambda a, b, m=m: (a + b) % m)
    spec('C04', T('SubNoBorrow'), [ps, arg], recv(ps), lambda a, b, m=m: (a - b) % m)
    spec('C04', T('BitLen', ''), [s], res(anyint), lambda a: a.bit_length())
    spec('C04', T('Bit', ''), [s, idx384 if n == 384 else idx256], res(boolean), lambda a, k: (a >> k) & 1 == 1)
    spec('C04', T('Bytes', ''), [s], res(SBytes(n // 8)), lambda a, n=n: a.to_bytes(n // 8, 'big'))
    spec('C04', T('ToBig', ''), [s], res(ptr(bigany)), lambda a: a)
    spec('C04', ty + 'FromBytes', [SBytes(n // 8)], res(arg), lambda b: int.from_bytes(b, 'big'))
    spec('C04', ty + 'FromBigInt', [ptr(bigwide)], [(('res', 1), err), (('res', 0), arg if byval else SOpt(s))],
         lambda v, m=m, byval=byval: (False, v) if 0 <= v < m else (True, ANY))
    spec('C04', 'New' + ty, [u64], res(arg), lambda a: a)
spec('C04', '(*FRRepr).ToFQ', [pfrr], res(fqr), lambda a: a)
spec('C04', 'isEven', [fqr], res(boolean), lambda a: a % 2 == 0)
# ---- C05
def ring(prop, ty, p, add, sub, neg, mul, inv, zero, one, ptrargs):
    arg = p if ptrargs else p.s; r = p if ptrargs else p.s
    T = lambda n, q='*': '(%s%s).%s' % (q, ty, n)
    spec(prop, T('AddAssign'), [p, arg], recv(p), add)
    spec(prop, T('SubAssign'), [p, arg], recv(p), sub)
    spec(prop, T('NegAssign'), [p], recv(p), neg)
    spec(prop, T('DoubleAssign'), [p], recv(p), lambda a: add(a, a))
    spec(prop, T('SquareAssign'), [p], recv(p), lambda a: mul(a, a))
    spec(prop, T('MulAssign'), [p, arg], recv(p), mul)
    spec(prop, T('InverseAssign'), [p], [(('post', 0), p), (('res', 0), boolean)], lambda a: (inv(a), True) if a != zero else (ANY, False))
    spec(prop, T('IsZero', '*'), [p], res(boolean), lambda a: a == zero)
    spec(prop, T('Equals', ''), [p.s, arg], res(boolean), lambda a, b: a == b)
    spec(prop, T('Copy', '*' if ty == 'FQ2' else ''), [p if ty == 'FQ2' else p.s], res(r), lambda a: a)
ring('C05', 'FQ2', pfq2, ref.a2, ref.s2, ref.n2, ref.m2, ref.i2, ref.O2, ref.I2, False)
ring('C05', 'FQ6', pfq6, ref.add6, ref.sub6, ref.neg6, ref.mul6, ref.inv6, ref.O6, ref.I6, True)
ring('C05', 'FQ12', pfq12, ref.add12, ref.sub12, lambda a: ref.sub12(ref.O12, a), ref.mul12, ref.inv12, ref.O12, ref.I12, True)
spec('C05', '(*FQ2).DivAssign', [pfq2, fq2], recv(pfq2), lambda a, b: ref.m2(a, ref.i2(b)), pre=lambda a, b: b != ref.O2)
spec('C05', '(*FQ2).Norm', [pfq2], res(fq), ref.norm2)
spec('C05', '(*FQ2).MultiplyByNonresidueAssign', [pfq2], recv(pfq2), lambda a: ref.m2(a, ref.XI))
spec('C05', '(FQ2).Exp', [fq2, fqr], res(fq2), ref.e2, gen=gen_exp(bases2, 6, 3))
spec('C05', '(FQ2).MulBits', [fq2, ptr(bigany)], res(fq2), lambda a, k: ref.k2(a, k), cap=400)
spec('C05', '(*FQ2).FrobeniusMapAssign', [pfq2, pow8], recv(pfq2), ref.frob2, cap=400)
spec('C05', 'NewFQ2', [fq, fq], res(fq2), lambda a, b: (a, b), cap=200)
spec('C05', '(*FQ6).MulByNonresidueAssign', [pfq6], recv(pfq6), ref.mulv6)
spec('C05', '(*FQ6).MulBy1Assign', [pfq6, fq2], recv(pfq6), lambda a, c: ref.mul6(a, (ref.O2, c, ref.O2)))
spec('C05', '(*FQ6).MulBy01Assign', [pfq6, fq2, fq2], recv(pfq6), lambda a, c, d: ref.mul6(a, (c, d, ref.O2)))
spec('C05', '(*FQ6).FrobeniusMapAssign', [pfq6, pow8], recv(pfq6), ref.frob6, cap=300)
spec('C05', '(FQ6).Exp', [fq6, pfqr], res(pfq6), ref.exp6, gen=gen_exp(bases6, 2, 2))
spec('C05', 'NewFQ6', [fq2, fq2, fq2], res(pfq6), lambda a, b, c: (a, b, c), cap=200)
spec('C05', '(*FQ12).ConjugateAssign', [pfq12], recv(pfq12), ref.conj12)
spec('C05', '(*FQ12).MulBy014Assign', [pfq12, fq2, fq2, fq2], recv(pfq12), lambda a, c, d, e: ref.mul12(a, ((c, d, ref.O2), (ref.O2, e, ref.O2))), cap=400)
spec('C05', '(*FQ12).FrobeniusMapAssign', [pfq12, pow8], recv(pfq12), ref.frob12, cap=300)
spec('C05', '(FQ12).Exp', [fq12, fqr], res(pfq12), ref.exp12, gen=gen_exp12)
spec('C05', 'NewFQ12', [pfq6, pfq6], res(pfq12), lambda a, b: (a, b), cap=200)
# ---- C06
def sq_ok(mul, zero): pass
spec('C06', '(FQ).Sqrt', [fq], res(fq, boolean), lambda a: (('sqrt', a), True) if ref.sqrt_q(a) is not None else (ANY, False), cap=300)
spec('C06', '(*FQ).Legendre', [pfq], res(anyint), lambda a: {0: 0, 1: 1, -1: 2}[ref.leg(a)], cap=300)
spec('C06', '(FQ).Parity', [fq], res(boolean), lambda a: a > -a % Q)
spec('C06', '(FQ2).Sqrt', [fq2], res(fq2, boolean), lambda a: (('sqrt2', a), True) if ref.sqrt2(a) is not None else (ANY, False), cap=400)
spec('C06', '(FQ2).Legendre', [fq2], res(anyint), lambda a: {0: 0, 1: 1, -1: 2}[ref.leg2(a)], cap=300)
spec('C06', '(FQ2).Parity', [fq2], res(boolean), lambda a: (a[1], a[0]) > (-a[1] % Q, -a[0] % Q))
spec('C06', '(FQ2).Cmp', [fq2, fq2], res(anyint), lambda a, b: sgn(a[1] - b[1]) or sgn(a[0] - b[0]))
spec('C06', '(FR).Sqrt', [fr], res(SOpt(fr)), lambda a: ('sqrtR', a) if a == 0 or pow(a, (R - 1) // 2, R) == 1 else ANY, cap=300)
spec('C06', '(FR).Parity', [fr], res(boolean), lambda a: a > -a % R)
def close(expect, got):
    if expect is ANY: return True
    if isinstance(expect, tuple) and expect and expect[0] == 'sqrt': return got * got % Q == expect[1]
    if isinstance(expect, tuple) and expect and expect[0] == 'sqrtR': return type(got) is int and got * got % R == expect[1]
    if isinstance(expect, tuple) and expect and expect[0] == 'sqrt2': return ref.m2(got, got) == expect[1]
    return expect == got
# ---- C07
for (nm, c, a, p, pa, pp, eq, f, pf) in (('G1', ref.E1, g1a, g1p, pg1a, pg1p, 'Equal', fq, pfq), ('G2', ref.E2, g2a, g2p, pg2a, pg2p, 'Equals', fq2, pfq2)):
    A = lambda n, q='', nm=nm: '(%s%sAffine).%s' % (q, nm, n); J = lambda n, q='', nm=nm: '(%s%sProjective).%s' % (q, nm, n)
    spec('C07', J('Add'), [p, pp], res(pp), c.add)
    spec('C07', J('AddAffine'), [p, pa], res(pp), c.add)
    spec('C07', J('Double'), [p], res(pp), lambda x, c=c: c.add(x, x))
    if nm == 'G1': spec('C07', J('NegAssign', '*'), [pp], recv(pp), c.neg)
    spec('C07', A('NegAssign', '*'), [pa], recv(pa), c.neg)
    spec('C07', J(eq), [p, pp], res(boolean), lambda x, y: x == y)
    spec('C07', A('Equals'), [a, pa], res(boolean), lambda x, y: x == y)
    spec('C07', J('ToAffine'), [p], res(pa), lambda x: x)
    spec('C07', A('ToProjective'), [a], res(pp), lambda x: x)
    spec('C07', J('IsZero'), [p], res(boolean), lambda x: x is None)
    spec('C07', A('IsZero'), [a], res(boolean), lambda x: x is None)
    spec('C07', A('Copy'), [a], res(pa), lambda x: x)
    spec('C07', J('Copy'), [p], res(pp), lambda x: x)
    spec('C07', A('IsOnCurve'), [a], res(boolean), c.on)
    # ---- C08
    m = c.mul
    spec('C08', A('Mul'), [a, fqr], res(pp), m, cap=60)
    spec('C08', A('MulFR'), [a, pfrr], res(pp), m, cap=60)
    spec('C08', J('Mul'), [p, fqr], res(pp), m, cap=60)
    spec('C08', J('MulFR'), [p, pfrr], res(pp), m, cap=60)
    if nm == 'G2': spec('C08', A('MulBig'), [a, bigany], res(pp), m, cap=60)
    spec('C08', A('ScaleByCofactor'), [a], res(pp), lambda x, m=m, nm=nm: m(x, ref.H1 if nm == 'G1' else ref.H2), cap=20)
    spec('C08', A('IsInCorrectSubgroupAssumingOnCurve'), [a], res(boolean), lambda x, m=m: m(x, R) is None, cap=20)

# ---- C09, C10
class SEnc(Sort):
    "compressed encodings: of points, and near misses"
    def __init__(self, g, sub=False):
        self.g = g; self.n = 48 * g; self.name = 'b%d' % self.n; self.memo = {}
    def enc(self, v): return tuple(v)
    def dec(self, x): return bytes(x)
    def pool(self, rng, n):
        if 'p' in self.memo: return self.memo['p']
        g = self.g; so = g1a if g == 1 else g2a; comp = ref.comp1 if g == 1 else ref.comp2
        s = []; N = self.n
        def put(b): s.append(bytes(b))
        pts = so.rawpool(rng, 4)
        encs = [comp(p) for p in pts]
        for b in encs + [comp(p) for p in so.special()]: put(b)
        inf = bytes([0xc0]) + bytes(N - 1)
        for f in (0, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0):
            put(bytes([f]) + bytes(N - 1))
            for b in encs[:6]: put(bytes([f | b[0] & 0x1f]) + b[1:])
            put(bytes([f]) + bytes(N - 2) + b'\x01')
        for k in range(1, N): put(inf[:k] + bytes([1 << rng.randrange(8)]) + inf[k + 1:])
        for k in range(6): put(bytes([0xc0 | 1 << k]) + bytes(N - 1))
        for f in (0x80, 0xa0):
            fl = lambda x: bytes([f | x >> 376]) + (x & (1 << 376) - 1).to_bytes(47, 'big')
            lo = lambda x: x.to_bytes(48, 'big')
            for x in [Q - 1, Q, Q + 1, Q + 2, Q + 4, Q - 2, Q - 3, (1 << 381) - 1] + [Q + j for j in range(5, 40, 5)] + [p[0] + Q if g == 1 else p[0][1] + Q for p in pts if p]:
                if x >> 381: continue
                if g == 1: put(fl(x))
                else:
                    for y in (0, 1, Q - 1, pts[1][0][0], pts[-1][0][0]): put(fl(x) + lo(y))
            if g == 2:
                for p in pts:
                    if p:
                        for x in (p[0][0] + Q, p[0][0] | 1 << 381, p[0][0] | 1 << 383, p[0][0] | 7 << 381): put(fl(p[0][1]) + lo(x))
                for x in (Q, Q + 1, (1 << 384) - 1): put(fl(0) + lo(x)); put(fl(pts[1][0][1]) + lo(x))
        for _ in range(40):
            b = bytearray(rng.choice(encs)); b[rng.randrange(N)] ^= 1 << rng.randrange(8); put(b)
        for _ in range(20):
            b = bytearray(rng.randbytes(N)); b[0] = b[0] & 0x1f | rng.choice([0x80, 0xa0]); b[0] &= rng.choice([0xff, 0xef, 0xe7]); put(b)
        self.memo['p'] = list(dict.fromkeys(s)); return self.memo['p']
enc1, enc2 = SEnc(1), SEnc(2)
class SSer(Sort):
    "uncompressed encodings of points"
    def __init__(self, g): self.g = g; self.name = 'b%d' % (96 * g)
    def enc(self, v): return tuple(v)
    def dec(self, x): return bytes(x)
    def pool(self, rng, n): return [(ref.ser1 if self.g == 1 else ref.ser2)(p) for p in (g1a if self.g == 1 else g2a).pool(rng, 8)]
import functools
for g, so, pa, comp, ser, se in ((1, g1a, pg1a, ref.comp1, ref.ser1, enc1), (2, g2a, pg2a, ref.comp2, ref.ser2, enc2)):
    @functools.lru_cache(None)
    def dec_(b, g=g, so=so):
        ok, p = ref.decomp(b, g); return (False, p) if ok else (True, ANY)
    @functools.lru_cache(None)
    def decs(b, g=g, so=so):
        ok, p = ref.decomp(b, g)
        return (False, p) if ok and ref.insub(p, g) else (True, ANY)
    spec('C09', 'DecompressG%dUnchecked' % g, [se], [(('res', 1), err), (('res', 0), SOpt(so))], dec_)
    spec('C09', 'DecompressG%d' % g, [se], [(('res', 1), err), (('res', 0), SOpt(so))], decs, cap=700)
    spec('C09', 'CompressG%d' % g, [pa], res(SBytes(48 * g)), comp, n=20)
    spec('C10', '(*G%dAffine).SerializeBytes' % g, [pa], res(SBytes(96 * g)), ser, n=20)
    rd = lambda old, b, g=g: (None if b == ser_(None, g) else unser(b, g))
    if g == 1: spec('C10', '(*G1Affine).SetRawBytes', [pa, SSer(1)], recv(pa), rd)
    else: spec('C10', '(*G2Affine).SetRawBytes', [pa, SSer(2)], recv(pa), rd)
def ser_(p, g): return (ref.ser1 if g == 1 else ref.ser2)(p)
def unser(b, g):
    i = [int.from_bytes(b[k:k + 48], 'big') for k in range(0, len(b), 48)]
    return tuple(i) if g == 1 else ((i[0], i[1]), (i[2], i[3]))

# ================================================================ concrete judgement
class Case: pass
def mkcase(prog, s, raws, alias=()):
    "alias: groups of argument positions that share one pointer"
    from replay import Enc
    f = prog.raw[s.fn]
    e = Enc(prog); vals = []
    for i, (so, r) in enumerate(zip(s.args, raws)):
        for (x, y) in alias:
            if i == y: vals.append(vals[x]); break
        else: vals.append(so.enc(r))
    return {'calls': [{'fn': s.fn, 'args': [e(t, v) for t, v in zip(f['ptypes'], vals)]}]}
def judge(prog, s, raws, out, alias=()):
    "None when the run of the real code agrees with the specification, else a description"
    from replay import Dec
    f = prog.raw[s.fn]
    ms = [so.mean(r) for so, r in zip(s.args, raws)]
    if out.get('timeout'): return 'did not return within its time limit'
    if out.get('missing') or not out.get('outs'): return None
    o = out['outs'][0]
    if o.get('missing') or 'res' not in o and 'panic' not in o: return None
    if 'panic' in o: return 'panicked: ' + o['panic']
    exp = s.sem(*ms)
    if len(s.outs) == 1: exp = (exp,)
    d = Dec(prog); post = [d(t, j) for t, j in zip(f['ptypes'], o['post'])]
    rs = [d(t, j) for t, j in zip(f['results'], o['res'])]
    for ((wh, k), so), ex in zip(s.outs, exp):
        if ex is ANY: continue
        try: got = so.dec((post if wh == 'post' else rs)[k])
        except Bad as b: return str(b)
        if not close(ex, got): return 'returned %s, expected %s' % (show(got), show(ex))
    mod = [k for (wh, k), so in s.outs if wh == 'post'] + list(s.mut)
    shared = [x for al in alias for x in al if set(al) & set(mod)]
    for k, (so, m, t) in enumerate(zip(s.args, ms, f['ptypes'])):
        if k in mod or k in shared or so.name.lstrip('*') in ('err', 'nat'): continue
        try: got = so.dec(post[k])
        except Bad as b: return 'left operand %d invalid: %s' % (k, b)
        if got != m: return 'changed its operand %d from %s to %s' % (k, show(m), show(got))
    return None
def show(v):
    if isinstance(v, bool) or v is None: return str(v)
    if isinstance(v, int): return hex(v) if abs(v) > 9 else str(v)
    if isinstance(v, bytes): return v.hex()
    if isinstance(v, (tuple, list)): return '(' + ', '.join(show(x) for x in v) + ')'
    return str(v)
def samesort(a, b): return a.name == b.name
def candidates(s, rng, extra=None, cap=None):
    "directed argument tuples with aliasing pattern"
    extra = extra or {}
    cap = cap or s.cap
    if s.gen:
        c = s.gen(rng)
        if s.pre: c = [x for x in c if s.pre(*[so.mean(r) for so, r in zip(s.args, x[0])])]
        return c
    pools = [list(extra.get(so.name.lstrip('*'), [])) + so.pool(rng, s.n) for so in s.args]
    out = []
    def add(raws, alias=()):
        if s.pre and not s.pre(*[so.mean(r) for so, r in zip(s.args, raws)]): return
        out.append((tuple(raws), alias))
    # alias patterns: identical pointer arguments
    n = len(s.args)
    if n == 1:
        for r in pools[0][:cap]: add([r])
    else:
        # related operands: equal, opposite, same point in another representation
        i, j = 0, 1
        base = [x.s if isinstance(x, SPtr) else x for x in s.args]
        if base[0].name == base[1].name or isinstance(base[0], SPt) and isinstance(base[1], SPt) and base[0].c is base[1].c:
            a, b = s.args[0], s.args[1]
            sa = a.s if isinstance(a, SPtr) else a; sb = b.s if isinstance(b, SPtr) else b
            for r in pools[0][:cap // 4]:
                rest = [rng.choice(p) for p in pools[2:]]
                if isinstance(sa, SPt):
                    pt = sa.mean(r)
                    for q in (pt, sa.c.neg(pt)):
                        zz = [None] if not sb.proj else ([None] + sb.zs(rng)[:1] if q is None else sb.zs(rng)[:3])
                        for z in zz: add([r, (q, z) if sb.proj else q] + rest)
                else:
                    add([r, r] + rest)
                    if isinstance(r, int) and sa.name in ('fq', 'fr'): add([r, -r % (Q if sa.name == 'fq' else R)] + rest)
                if isinstance(a, SPtr) and isinstance(b, SPtr) and a.name == b.name: add([r, r] + rest, ((0, 1),))
        small = max(4, int((cap / 2) ** (1.0 / n)))
        sub = [p if len(p) <= small else p[:small] for p in pools]
        for t in itertools.islice(itertools.product(*sub), cap): add(t)
        while len(out) < cap and all(pools):
            k = len(out)
            add([rng.choice(p) for p in pools])
            if len(out) == k and rng.random() < 0.01: break
    return out[:cap * 2]
