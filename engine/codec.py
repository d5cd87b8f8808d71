"""Byte level: bytes and flags as bit vectors, field elements as formal ring elements that carry the bit vector of their
canonical integer. Field operations by contract (C02, C05, C06 decide that the code meets them)."""
from frame import *
from spec import *
from ring import *
import bv, z3, ref
from bv import TH, BV, BB, tow, tobool
class Codec:
    def __init__(self, ctx, arch):
        self.ctx = ctx; self.arch = arch
        self.ex = ctx.exec(arch); self.ring = Ring(); self.cn = {}; self.cons = []; self.sq = []; self.sub = []; self.roots = []; self.curvex = []
        self.vars = []; self.k = 0
        self.ex.feasible = self.feasible
        self.ex.contracts.update(self.contracts())
        self.frn = {}
    def feasible(self, ex): return TH.check(TH.pcs(ex.pc) + self.cons, 10)[0] != 'unsat'
    def prove(self, pc, goal, tmo=20):
        g = tobool(goal) if not z3.is_expr(goal) else goal
        return TH.check(TH.pcs(pc) + self.cons + [z3.Not(g)], tmo)
    def reset(self, mark=None):
        "per-path state"
        self.cn = dict(mark[0]); self.cons = list(mark[1]); self.sq = []; self.sub = []; self.roots = list(mark[2]); self.vars = list(mark[3]); self.calls = []
    def mark(self): return (dict(self.cn), list(self.cons), list(self.roots), list(self.vars))
    def snap(self): return self.mark()
    def fresh(self, n, w=8):
        self.k += 1
        return z3.BitVec('%s_%d' % (n, self.k), w)
    # ---- canonical integers
    def canon(self, n):
        b = self.cn.get(n.id)
        if b is None:
            if n.op == 'c': b = z3.BitVecVal(n.a, 384)
            elif n.op == '-':
                t = self.canon(n.a[0]); b = z3.If(t == 0, z3.BitVecVal(0, 384), z3.BitVecVal(self.ring.mod, 384) - t)
            else:
                b = self.fresh('t', 384); self.cons.append(z3.ULT(b, z3.BitVecVal(self.ring.mod, 384)))
            self.cn[n.id] = b
        return b
    def elem(self, name, b=None):
        n = self.ring.var(name)
        if b is not None: self.cn[n.id] = b
        else: self.canon(n)
        self.vars.append(n)
        return n
    def fq(self, n): return self.ring.mkel(n, 'fq')
    def L(self, v):
        if isinstance(v, (Ptr, PtrIte)): v = self.ex.load(v)
        return self.ring.lift(v, 'fq')
    def L2(self, v):
        if isinstance(v, (Ptr, PtrIte)): v = self.ex.load(v)
        return (self.L(v[0]), self.L(v[1]))
    # ---- contracts
    def contracts(self):
        c = self.ring.contracts('fq')
        def reg(T, nm, f):
            c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        L, L2 = self.L, self.L2
        reg('FQ', 'IsZero', lambda ex, a: self.iszero(L(a[0])))
        reg('FQ', 'Equals', lambda ex, a: self.same(L(a[0]), L(a[1])))
        def cmp(ex, a):
            x, y = self.canon(L(a[0])), self.canon(L(a[1])); w = 64 if ex.p.arch == 'amd64' else 32
            return bv.mkw(z3.If(z3.ULT(x, y), z3.BitVecVal(-1, w), z3.If(x == y, z3.BitVecVal(0, w), z3.BitVecVal(1, w))), False)
        reg('FQ', 'Cmp', cmp)
        reg('FQ', 'Parity', lambda ex, a: bv.mkb(z3.UGT(self.canon(L(a[0])), self.canon(self.ring.neg(L(a[0]))))))
        def torepr(ex, a):
            b = self.canon(L(a[0]))
            return tuple(bv.mkw(z3.Extract(64 * i + 63, 64 * i, b)) for i in range(6))
        reg('FQ', 'ToRepr', torepr)
        def fromrepr(ex, a):
            ws = a[0]
            if all(type(w) is int for w in ws):
                v = val(ws)
                return self.fq(self.ring.c(v if v < Q else 0))
            b = bv.simp(z3.Concat(*[tow(w, 64) for w in reversed(ws)]))
            if ex.decide(bv.mkb(z3.ULT(b, z3.BitVecVal(Q, 384)))):
                for v in self.vars:
                    if self.cn[v.id].eq(b): return self.fq(v)
                for v in self.vars:
                    if self.prove(ex.pc, self.cn[v.id] == b)[0] == 'unsat': return self.fq(v)
                return self.fq(self.elem('x', b))
            return self.fq(self.elem('unspec'))
        c[P + 'FQReprToFQ'] = fromrepr
        def sqrt(ex, a):
            n = L(a[0])
            for m, y in self.roots:
                if not isinstance(m, tuple) and self.ring.prove([], self.ring.eq(m, n))[0] == 'unsat':
                    self.sq.append((n, True))
                    return (self.fq(y if ex.decide(Choice('root', 0)) else self.ring.neg(y)), True)
            if ex.decide(Choice('square', len(self.sq))):
                y = self.elem('root'); self.roots.append((n, y)); self.sq.append((n, True, y)); return (self.fq(y), True)
            self.sq.append((n, False)); return (self.fq(self.elem('unspec')), False)
        reg('FQ', 'Sqrt', sqrt)
        def sqrt2(ex, a):
            n = L2(a[0])
            for m, y in self.roots:
                if isinstance(m, tuple) and all(self.ring.prove([], self.ring.eq(p, q))[0] == 'unsat' for p, q in zip(m, n)):
                    self.sq.append((n, True))
                    y = y if ex.decide(Choice('root', 0)) else tuple(self.ring.neg(t) for t in y)
                    return ((self.fq(y[0]), self.fq(y[1])), True)
            if ex.decide(Choice('square', len(self.sq))):
                y = (self.elem('root0'), self.elem('root1')); self.roots.append((n, y)); self.sq.append((n, True, y)); return ((self.fq(y[0]), self.fq(y[1])), True)
            self.sq.append((n, False)); return ((self.fq(self.elem('unspec')), self.fq(self.elem('unspec'))), False)
        reg('FQ2', 'Sqrt', sqrt2)
        def gt0(n): return z3.UGT(self.canon(n), self.canon(self.ring.neg(n)))
        def cmp2(ex, a):
            (x0, x1), (y0, y1) = [[self.canon(t) for t in L2(v)] for v in a]; w = 64 if ex.p.arch == 'amd64' else 32
            lt = z3.Or(z3.ULT(x1, y1), z3.And(x1 == y1, z3.ULT(x0, y0))); eq = z3.And(x1 == y1, x0 == y0)
            return bv.mkw(z3.If(lt, z3.BitVecVal(-1, w), z3.If(eq, z3.BitVecVal(0, w), z3.BitVecVal(1, w))), False)
        reg('FQ2', 'Cmp', cmp2)
        reg('FQ2', 'IsZero', lambda ex, a: self.and_(*[self.iszero(t) for t in L2(a[0])]))
        reg('FQ2', 'Equals', lambda ex, a: self.and_(*[self.same(x, y) for x, y in zip(L2(a[0]), L2(a[1]))]))
        reg('FQ2', 'Parity', lambda ex, a: bv.mkb(self.big2(L2(a[0]))))
        def subg(ex, a):
            p = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
            r = True if p[2] is True else ex.decide(Choice('in the subgroup', len(self.sub)))
            self.sub.append((p, r)); return r
        for T in ('G1Affine', 'G2Affine'): reg(T, 'IsInCorrectSubgroupAssumingOnCurve', subg)
        def rcmp(ex, a):
            v = [ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x for x in a[:2]]
            x, y = [z3.Concat(*[tow(w, 64) for w in reversed(t)]) for t in v]; w = 64 if ex.p.arch == 'amd64' else 32
            return bv.mkw(z3.If(z3.ULT(x, y), z3.BitVecVal(-1, w), z3.If(x == y, z3.BitVecVal(0, w), z3.BitVecVal(1, w))), False)
        reg('FQRepr', 'Cmp', rcmp)
        return c
    def and_(self, *bs):
        r = True
        for b in bs: r = self.ex.band(r, b)
        return r
    def iszero(self, n): return bv.mkb(self.canon(n) == 0)
    def same(self, x, y):
        if x is y: return True
        return bv.mkb(self.canon(x) == self.canon(y))
    def big2(self, y):
        y0, y1 = y; c = self.canon; n = self.ring.neg
        return z3.Or(z3.UGT(c(y1), c(n(y1))), z3.And(c(y1) == c(n(y1)), z3.UGT(c(y0), c(n(y0)))))
    def greatest(self, y): return self.big2(y) if isinstance(y, tuple) else z3.UGT(self.canon(y), self.canon(self.ring.neg(y)))
    def rhs(self, x):
        r = self.ring
        if isinstance(x, tuple): return ref_rhs2(r, x)
        return x * x * x + r.c(4)
    def sqr(self, y):
        if isinstance(y, tuple): return (y[0] * y[0] - y[1] * y[1], y[0] * y[1] + y[1] * y[0])
        return y * y
    def isrhs(self, n, x):
        "does the term n equal x^3 + b"
        m = self.rhs(x)
        if not isinstance(n, tuple): n, m = (n,), (m,)
        return all(self.ring.prove([], self.ring.eq(p, q))[0] == 'unsat' for p, q in zip(n, m))
    # ---- points
    def point(self, g, curve=True):
        "symbolic finite affine point (engine value, (X, Y)); curve: it satisfies the curve equation"
        if g == 1: X, Y = self.elem('px'), self.elem('py')
        else: X, Y = (self.elem('px0'), self.elem('px1')), (self.elem('py0'), self.elem('py1'))
        if curve:
            self.roots.append((self.rhs(X), Y))
            # no point has y = 0 (-b is not a cube), and (0, 1) is not on the curve
            self.cons.append(z3.Not(z3.And(*[self.canon(t) == 0 for t in (Y if g == 2 else (Y,))])))
            xs = X if g == 2 else (X,); ys = Y if g == 2 else (Y,)
            self.cons.append(z3.Not(z3.And(*[self.canon(t) == 0 for t in xs], *[self.canon(t) == (1 if i == 0 else 0) for i, t in enumerate(ys)])))
        return self.pval(g, X, Y), (X, Y)
    def pval(self, g, X, Y):
        e = lambda t: (self.fq(t[0]), self.fq(t[1])) if g == 2 else self.fq(t)
        return (e(X), e(Y), False)
    def read(self, g, v):
        v = self.ex.load(v) if isinstance(v, (Ptr, PtrIte)) else v
        if v[2] is not False and (v[2] is True or self.ex.decide(v[2])): return None
        l = self.L2 if g == 2 else self.L
        return (l(v[0]), l(v[1]))
    def samept(self, pc, p, q):
        if p is None or q is None: return p is q
        f = lambda t: t if isinstance(t, tuple) else (t,)
        for s, t in zip(f(p[0]) + f(p[1]), f(q[0]) + f(q[1])):
            if s is t: continue
            if self.prove(pc, self.canon(s) == self.canon(t))[0] != 'unsat': return False
        return True
    def xbits(self, g, bs):
        "integers of the x bytes without the flag bits"
        c = z3.Concat(*[tow(b, 8) for b in bs])
        if g == 1: return z3.ZeroExt(3, z3.Extract(380, 0, c))
        return (z3.Extract(383, 0, c), z3.ZeroExt(3, z3.Extract(384 + 380, 384, c)))   # c0, c1
    def bytesof(self, v):
        return [z3.BitVecVal(x, 8) if type(x) is int else x.e for x in v]
def ref_rhs2(r, x):
    m = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    c = m(m(x, x), x); return (c[0] + r.c(4), c[1] + r.c(4))
def noroot():
    "-b is not a cube in either field, so no point has y = 0; group orders odd"
    a = pow(Q - 4, (Q - 1) // 3, Q) != 1
    b = ref.e2((Q - 4, Q - 4), (Q * Q - 1) // 3) != (1, 0)
    return a and b
def model_bytes(m, syms): return bytes(m.eval(s, model_completion=True).as_long() for s in syms)
