"""Bit-vector theory (z3 API): words as BitVec terms, big integers as wide signed vectors."""
import time, z3
from core import *
import solve
BIGW = 1088
class BV(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __repr__(self): return 'BV(%s)' % str(self.e)[:60]
    @property
    def th(self): return TH
class BVL(BV):
    "choice between literals: 64 bits, to be cut to the width of the place it is used in"
    __slots__ = ()
class BB(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    @property
    def th(self): return TH
class BBig(Sym):
    "math/big value, signed vector of BIGW bits (all values in scope stay far below)"
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    @property
    def th(self): return TH
def simp(e): return z3.simplify(e)
def mkb(e):
    e = simp(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return BB(e)
def mkw(e, u=True):
    e = simp(e)
    if z3.is_bv_value(e): return e.as_long() if u else e.as_signed_long()
    return BV(e)
def tobool(c):
    if c is True or c is False: return z3.BoolVal(c)
    return c.e
def tow(x, w):
    if type(x) in (int, bool): return z3.BitVecVal(int(x), w)
    if isinstance(x, BV):
        if x.e.size() != w:
            assert isinstance(x, BVL) and x.e.size() > w, (x.e.size(), w)
            return z3.Extract(w - 1, 0, x.e)
        return x.e
    raise Unsupported('bv operand %r' % (x,))
def tobig(x):
    if type(x) is int: return z3.BitVecVal(x, BIGW)
    if isinstance(x, BBig): return x.e
    raise Unsupported('big operand')
def mkbig(e):
    e = simp(e)
    return e.as_signed_long() if z3.is_bv_value(e) else BBig(e)
class BVTh:
    def __init__(self): self.tmo = 30
    def bin(self, ex, op, x, y, w, u, yw):
        if isinstance(x, (BB, bool)) and isinstance(y, (BB, bool)):
            a, b = tobool(x), tobool(y)
            return mkb({'==': lambda: a == b, '!=': lambda: a != b, '^': lambda: z3.Xor(a, b), '&': lambda: z3.And(a, b), '|': lambda: z3.Or(a, b)}[op]())
        if op in ('<<', '>>'):
            a = tow(x, w)
            if type(y) is int:
                if y >= w: s = z3.BitVecVal(w - 1, w) if op == '>>' and not u else None
                else: s = z3.BitVecVal(y, w)
                if s is None: return 0
            else:
                b = y.e; n = b.size()
                if n > w: b = z3.If(z3.ULT(b, w), z3.Extract(w - 1, 0, b), z3.BitVecVal(w, w))
                elif n < w: b = z3.ZeroExt(w - n, b)
                s = b
            return mkw(a << s if op == '<<' else z3.LShR(a, s) if u else a >> s, u)
        a, b = tow(x, w), tow(y, w)
        if op == '+': return mkw(a + b, u)
        if op == '-': return mkw(a - b, u)
        if op == '*': return mkw(a * b, u)
        if op == '&': return mkw(a & b, u)
        if op == '|': return mkw(a | b, u)
        if op == '^': return mkw(a ^ b, u)
        if op == '&^': return mkw(a & ~b, u)
        if op in ('/', '%'):
            if y == 0 or type(y) is not int:
                if ex.decide(mkb(b == 0)): raise GoPanic('integer divide by zero')
            if op == '/': return mkw(z3.UDiv(a, b) if u else a / b, u)
            return mkw(z3.URem(a, b) if u else z3.SRem(a, b), u)
        if op == '==': return mkb(a == b)
        if op == '!=': return mkb(a != b)
        if u: r = {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
        else: r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return mkb(r)
    def un(self, ex, op, x, w, u):
        if op == '!': return mkb(z3.Not(x.e))
        if op == '-': return mkw(-tow(x, w), u)
        if op == '^': return mkw(~tow(x, w), u)
        raise Unsupported('bv un')
    def conv(self, ex, x, aw, au, bw, bu):
        if isinstance(x, BVL) and x.e.size() != aw: x = BV(simp(tow(x, aw)))
        n = x.e.size()
        if bw < n: return mkw(z3.Extract(bw - 1, 0, x.e), bu)
        if bw > n: return mkw(z3.ZeroExt(bw - n, x.e) if au else z3.SignExt(bw - n, x.e), bu)
        return x
    def eq(self, ex, x, y):
        if isinstance(x, (BB, bool)) and isinstance(y, (BB, bool)): return mkb(tobool(x) == tobool(y))
        if isinstance(x, BV):
            if isinstance(x, BVL) and isinstance(y, BV): x, y = y, x
            return mkb(x.e == tow(y, x.e.size()))
        raise Unsupported('bv eq')
    def ite(self, ex, c, a, b):
        ce = tobool(c)
        if isinstance(a, (BB, bool)) and isinstance(b, (BB, bool)): return mkb(z3.If(ce, tobool(a), tobool(b)))
        if isinstance(a, BBig) or isinstance(b, BBig): return mkbig(z3.If(ce, tobig(a), tobig(b)))
        ws = [t.e.size() for t in (a, b) if isinstance(t, BV) and not isinstance(t, BVL)]
        w = ws[0] if ws else 64
        r = simp(z3.If(ce, tow(a, w), tow(b, w)))
        if z3.is_bv_value(r): return r.as_long()
        return BV(r) if ws else BVL(r)
    def bnot(self, c): return mkb(z3.Not(tobool(c)))
    def band(self, a, b): return mkb(z3.And(tobool(a), tobool(b)))
    def eqconst(self, i, k): return mkb(i.e == k)
    def inrange(self, i, n): return mkb(z3.ULT(i.e, n) if n < (1 << (i.e.size() - 1)) else z3.BoolVal(True))
    def select(self, ex, vals, i):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1): r = ex.ite(self.eqconst(i, k), vals[k], r)
        return r
    def add64(self, ex, x, y, c, w):
        s = z3.ZeroExt(1, tow(x, w)) + z3.ZeroExt(1, tow(y, w)) + z3.ZeroExt(1, tow(c, w))
        return mkw(z3.Extract(w - 1, 0, s)), mkw(z3.ZeroExt(w - 1, z3.Extract(w, w, s)))
    def sub64(self, ex, x, y, c, w):
        s = z3.ZeroExt(1, tow(x, w)) - z3.ZeroExt(1, tow(y, w)) - z3.ZeroExt(1, tow(c, w))
        return mkw(z3.Extract(w - 1, 0, s)), mkw(z3.ZeroExt(w - 1, z3.Extract(w, w, s)))
    def mul64(self, ex, x, y, w):
        p = z3.ZeroExt(w, tow(x, w)) * z3.ZeroExt(w, tow(y, w))
        return mkw(z3.Extract(2 * w - 1, w, p)), mkw(z3.Extract(w - 1, 0, p))
    def lz(self, ex, x, w):
        e = x.e; r = z3.BitVecVal(w, 64 if ex.p.arch == 'amd64' else 32)
        n = r.size()
        for k in range(w): r = z3.If(z3.Extract(k, k, e) == 1, z3.BitVecVal(w - 1 - k, n), r)
        return mkw(r, False)
    def big(self, ex, op, a):
        if op == 'setbytes':
            e = z3.Concat(*[tow(b, 8) for b in a]) if len(a) > 1 else tow(a[0], 8)
            return mkbig(z3.ZeroExt(BIGW - e.size(), e))
        if op == 'uint64':
            return mkw(z3.Extract(63, 0, tobig(a[0])))
        if op in ('cmp', 'sign'):
            x = tobig(a[0]); y = tobig(a[1]) if op == 'cmp' else z3.BitVecVal(0, BIGW)
            n = 64 if ex.p.arch == 'amd64' else 32
            return mkw(z3.If(x == y, z3.BitVecVal(0, n), z3.If(x < y, z3.BitVecVal(-1, n), z3.BitVecVal(1, n))), False)
        if op == 'bitlen':
            n = 64 if ex.p.arch == 'amd64' else 32
            x = tobig(a[0]); r = z3.BitVecVal(0, n)
            for k in range(BIGW - 1): r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k + 1, n), r)
            return mkw(r, False)
        if op == 'bit':
            x = tobig(a[0])
            if type(a[1]) is int: b = z3.Extract(a[1], a[1], x)
            else: b = z3.Extract(0, 0, z3.LShR(x, z3.ZeroExt(BIGW - a[1].e.size(), a[1].e)))
            n = 64 if ex.p.arch == 'amd64' else 32
            return mkw(z3.ZeroExt(n - 1, b))
        if op == 'bytes':
            x = tobig(a[0])
            for n in range(0, 130):
                if ex.decide(mkb(z3.ULT(x, 1 << (8 * n)))):
                    return ex.mkslice_of(tuple(mkw(z3.Extract(8 * k + 7, 8 * k, x)) for k in range(n - 1, -1, -1)))
            raise Unsupported('big bytes')
        x = tobig(a[0])
        if op in ('lsh', 'rsh'):
            s = z3.BitVecVal(a[1], BIGW) if type(a[1]) is int else z3.ZeroExt(BIGW - a[1].e.size(), a[1].e)
            return mkbig(x << s if op == 'lsh' else x >> s)
        y = tobig(a[1])
        if op == 'add': return mkbig(x + y)
        if op == 'sub': return mkbig(x - y)
        if op == 'mul': return mkbig(x * y)
        if op == 'and': return mkbig(x & y)
        if op == 'or': return mkbig(x | y)
        if op == 'xor': return mkbig(x ^ y)
        if op in ('mod', 'rem') and getattr(ex, 'bigmod', None): return ex.bigmod(ex, a[0], a[1])
        if op == 'mod' and type(a[1]) is int:
            if a[1] & (a[1] - 1) == 0: return mkbig(x & (a[1] - 1))
            return mkbig(z3.URem(x, y))
        raise Unsupported('bv big ' + op)
    def tobigint(self, x, signed):
        n = x.e.size()
        return mkbig(z3.SignExt(BIGW - n, x.e) if signed else z3.ZeroExt(BIGW - n, x.e))
    # ------------------------------------------------ solving
    def pcs(self, pc):
        out = []
        for c, pol in pc:
            if isinstance(c, BB): out.append(c.e if pol else z3.Not(c.e))
            elif c is (not pol): out.append(z3.BoolVal(False))
        return out
    def check(self, fs, tmo=None):
        s = z3.Solver(); s.set('timeout', int(1000 * (tmo or self.tmo)))
        for f in fs: s.add(f)
        t = time.time(); r = s.check(); solve.STATS['queries'] += 1; solve.STATS['time'] += time.time() - t
        k = str(r); solve.STATS[k] += 1
        return (k, s.model() if k == 'sat' else None)
    def feasible(self, ex):
        return self.check(self.pcs(ex.pc), 10)[0] != 'unsat'
    def prove(self, pc, goal, extra=(), tmo=None):
        g = tobool(goal) if not z3.is_expr(goal) else goal
        return self.check(self.pcs(pc) + list(extra) + [z3.Not(g)], tmo)
    def val(self, m, x):
        if type(x) in (int, bool): return x
        v = m.eval(x.e, model_completion=True)
        if isinstance(x, BB): return z3.is_true(v)
        return v.as_signed_long() if isinstance(x, BBig) else v.as_long()
TH = BVTh()
def word(name, w=64): return BV(z3.BitVec(name, w))
def cat(ws, w=64):
    "words, least significant first, as one vector"
    es = [tow(x, w) for x in ws]
    return z3.Concat(*reversed(es)) if len(es) > 1 else es[0]
