"""Field elements as values of one formal ring: polynomial terms discharged with the finite-field theory (QF_FF).

level 'fq'   an FQ is a variable over F_q; the tower above runs as real code
level 'fq2'  an FQ2 is one element; the formal symbol U stands for u (u*u = -1 is not used), xi = 1 + U
level 'fq6'  an FQ6 is one element; the formal symbol V stands for v
An identity of polynomials over F_q in which every degree is below q holds in every F_q-algebra, so an unsat answer at
the abstract levels carries over to FQ2 and FQ6 elements.
"""
from core import *
import solve
from intr import P, Q, R, words, val
RQI = pow(1 << 384, -1, Q)
class N:
    "term; immutable, hash-consed per theory"
    __slots__ = ('th', 'op', 'a', 'id')
    def __init__(self, th, op, a, i): self.th = th; self.op = op; self.a = a; self.id = i
    def __add__(self, o): return self.th.mk('+', self, o)
    __radd__ = __add__
    def __mul__(self, o): return self.th.mk('*', self, o)
    __rmul__ = __mul__
    def __sub__(self, o): return self.th.mk('+', self, self.th.neg(o))
    def __rsub__(self, o): return self.th.mk('+', self.th.c(o), self.th.neg(self))
    def __neg__(self): return self.th.neg(self)
    def __mod__(self, m): return self
    def __pow__(self, k):
        r = self.th.c(1)
        for _ in range(k): r = r * self
        return r
    def __repr__(self): return 'N%d' % self.id
class RBool(Sym):
    __slots__ = ('th', 'k', 'a', 'b')
    def __init__(self, th, k, a, b=None): self.th = th; self.k = k; self.a = a; self.b = b
class RCmp(Sym):
    "result of a comparison of which only zero/non-zero is known"
    __slots__ = ('th', 'c', 'r')
    def __init__(self, r, c): self.r = r; self.c = c; self.th = CmpTh
class CmpTh_:
    def bin(self, ex, op, x, y, w, u, yw):
        if not isinstance(x, RCmp): x, y = y, x
        if y == 0 and op == '==': return x.c
        if y == 0 and op == '!=': return x.r.bnot(x.c)
        raise Unsupported('order of formal elements')
    def eq(self, ex, x, y): return self.bin(ex, '==', x, y, 64, False, None)
CmpTh = CmpTh_()
class RE(Abs):
    __slots__ = ('th', 'n', 'lv')
    def __init__(self, th, n, lv): self.th = th; self.n = n; self.lv = lv
    def proj(self, ex, i):
        if self.lv != 'fq' and self.n.op == 'c': return self.th.R.ground(self.n.a, self.lv)[i]
        raise Unsupported('component of a formal %s element' % self.lv)
    def __repr__(self): return 'RE(%r)' % (self.n,)
class ElTh:
    "theory of RE values"
    def __init__(self, R): self.R = R
    def eq(self, ex, x, y):
        lv = x.lv if isinstance(x, RE) else y.lv
        return self.R.eq(self.R.lift(x, lv), self.R.lift(y, lv))
    def ite(self, ex, c, a, b): raise MergeFail()
class Ring:
    def __init__(self, mod=Q, tmo=20):
        self.mod = mod; self.tab = {}; self.nodes = []; self.el = ElTh(self); self.nv = 0; self.tmo = tmo
        self.invs = []; self.ftmo = 3; self.facts = []
    # ------------------------------------------------------------ terms
    def node(self, op, a):
        k = (op, a) if op in 'cv' else (op,) + tuple(x.id for x in a)
        n = self.tab.get(k)
        if n is None:
            n = self.tab[k] = N(self, op, a, len(self.nodes)); self.nodes.append(n)
        return n
    def c(self, v): return v if isinstance(v, N) else self.node('c', v % self.mod)
    def var(self, name):
        self.nv += 1
        return self.node('v', '%s_%d' % (name, self.nv))
    def mk(self, op, x, y):
        x, y = self.c(x), self.c(y)
        if x.op == 'c' and y.op == 'c': return self.c(x.a + y.a if op == '+' else x.a * y.a)
        if op == '+':
            if x.op == 'c' and x.a == 0: return y
            if y.op == 'c' and y.a == 0: return x
        else:
            for p, q in ((x, y), (y, x)):
                if p.op == 'c':
                    if p.a == 0: return p
                    if p.a == 1: return q
                    if p.a == self.mod - 1: return self.neg(q)
        if x.id > y.id: x, y = y, x
        return self.node(op, (x, y))
    def neg(self, x):
        x = self.c(x)
        if x.op == 'c': return self.c(-x.a)
        if x.op == '-': return x.a[0]
        return self.node('-', (x,))
    # ------------------------------------------------------------ formulas
    def eq(self, x, y):
        x, y = self.c(x), self.c(y)
        if x is y: return True
        if x.op == 'c' and y.op == 'c': return x.a == y.a
        if x.id > y.id: x, y = y, x
        k = ('eq', x.id, y.id)
        if k not in self.tab: self.tab[k] = RBool(self, 'eq', x, y)
        return self.tab[k]
    def bnot(self, c):
        if c is True or c is False: return not c
        if c.k == 'not': return c.a
        k = ('not', id(c))
        if k not in self.tab: self.tab[k] = RBool(self, 'not', c); self.facts.append(c)
        return self.tab[k]
    def band(self, a, b):
        if a is False or b is False: return False
        if a is True: return b
        if b is True: return a
        return RBool(self, 'and', a, b)
    def bor(self, a, b): return self.bnot(self.band(self.bnot(a), self.bnot(b)))
    def ite(self, ex, c, a, b):
        "booleans only"
        if isinstance(a, (bool, RBool)) and isinstance(b, (bool, RBool)):
            return self.bor(self.band(c, a), self.band(self.bnot(c), b))
        raise MergeFail()
    def bin(self, ex, op, x, y, w, u, yw):
        if op in ('==', '!='):
            a, b = x, y
            e = self.bor(self.band(a, b), self.band(self.bnot(a), self.bnot(b)))
            return e if op == '==' else self.bnot(e)
        if op == '&': return self.band(x, y)
        if op == '|': return self.bor(x, y)
        raise Unsupported('operator %s' % op)
    def eqv(self, ex, x, y): return self.bin(ex, '==', x, y, None, None, None)
    def un(self, ex, op, x, w, u):
        if op == '!': return self.bnot(x)
        raise Unsupported('un')
    def text(self, pc, goal=None, extra=(), hyps=True):
        need = {}; order = []; 
        def visit(n):
            st = [(n, 0)]
            while st:
                n, d = st.pop()
                if n.id in need and not d: continue
                if d: order.append(n); continue
                need[n.id] = n; st.append((n, 1))
                if n.op in '+*-':
                    for x in n.a: st.append((x, 0))
        def fm(c):
            if c is True: return 'true'
            if c is False: return 'false'
            if isinstance(c, Choice): return None
            if c.k == 'eq': visit(c.a); visit(c.b); return '(= %s %s)' % (nm(c.a), nm(c.b))
            if c.k == 'not': return '(not %s)' % fm(c.a)
            return '(and %s %s)' % (fm(c.a), fm(c.b))
        def nm(n): return '(as ff%d F)' % n.a if n.op == 'c' else n.a if n.op == 'v' else 'n%d' % n.id
        body = []
        for c, pol in pc:
            t = fm(c)
            if t is None: continue
            body.append('(assert %s)' % (t if pol else '(not %s)' % t))
        if hyps:
            for t, n in self.invs:
                body.append('(assert %s)' % fm(self.eq(t * n, self.c(1))))
        for c in extra: body.append('(assert %s)' % fm(c))
        if goal is not None: body.append('(assert (not %s))' % fm(goal))
        out = ['(set-logic QF_FF)', '(define-sort F () (_ FiniteField %d))' % self.mod]
        vs = []
        for n in sorted(need.values(), key=lambda z: z.id):
            if n.op == 'v': out.append('(declare-fun %s () F)' % n.a); vs.append(n.a)
            elif n.op != 'c':
                out.append('(define-fun n%d () F (%s %s))' % (n.id, {'+': 'ff.add', '*': 'ff.mul', '-': 'ff.neg'}[n.op], ' '.join(nm(x) for x in n.a)))
        self.vs = vs
        return '\n'.join(out + body)
    def prove(self, pc, goal, extra=(), hyps=True, tmo=None):
        if goal is True: return ('unsat', None)
        tx = self.text(pc, goal, extra, hyps)
        return solve.run(tx, tmo or self.tmo, list(self.vs))
    def feasible(self, ex):
        pc = [(c, p) for c, p in ex.pc if not isinstance(c, Choice)]
        if not pc: return True
        return solve.run(self.text(pc), self.ftmo)[0] != 'unsat'
    # ------------------------------------------------------------ values
    def mkel(self, n, lv): return RE(self.el, self.c(n), lv)
    def lift(self, v, lv):
        "term of a value at a level"
        if isinstance(v, RE):
            if v.lv == lv: return v.n
            raise Unsupported('element of %s where %s is expected' % (v.lv, lv))
        if lv == 'fq':
            w = v[0]
            if type(w) is tuple and all(type(x) is int for x in w): return self.c(val(w) * RQI)
            raise Unsupported('symbolic words in a formal element')
        if lv == 'fr':
            raise Unsupported('fr')
        if lv == 'fq2':
            a, b = self.lift(v[0], 'fq'), self.lift(v[1], 'fq')
            return a + b * self.sym('U')
        if lv == 'fq6':
            a, b, c = (self.lift(x, 'fq2') for x in v)
            V = self.sym('V')
            return a + b * V + c * V * V
        raise Unsupported(lv)
    def sym(self, s): return self.node('v', s)
    def ground(self, n, lv):
        "concrete value of a constant"
        if lv == 'fq': return (words(n * (1 << 384) % Q, 6),)
        if lv == 'fq2': return (self.ground(n, 'fq'), self.ground(0, 'fq'))
        return (self.ground(n, 'fq2'), self.ground(0, 'fq2'), self.ground(0, 'fq2'))
    def contracts(self, lv):
        T = {'fq': 'FQ', 'fq2': 'FQ2', 'fq6': 'FQ6'}[lv]; c = {}
        L = lambda ex, x: self.lift(ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x, lv)
        def reg(nm, f):
            c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        def mut(f):
            def g(ex, a):
                if a[0] is None or not isinstance(a[0], Ptr): raise GoPanic('nil dereference', ex.where()) if a[0] is None else Unsupported('receiver by value')
                v = f(*[L(ex, x) for x in a])
                ex.store(a[0], self.mkel(v, lv), 'contract')
            return g
        reg('AddAssign', mut(lambda x, y: x + y)); reg('SubAssign', mut(lambda x, y: x - y)); reg('MulAssign', mut(lambda x, y: x * y))
        reg('NegAssign', mut(lambda x: -x)); reg('DoubleAssign', mut(lambda x: x + x)); reg('SquareAssign', mut(lambda x: x * x))
        def copy(ex, a):
            v = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
            return ex.new(v) if lv == 'fq6' else v
        reg('Copy', copy)
        reg('IsZero', lambda ex, a: self.eq(L(ex, a[0]), 0))
        reg('Equals', lambda ex, a: self.eq(L(ex, a[0]), L(ex, a[1])))
        reg('Cmp', lambda ex, a: RCmp(self, self.eq(L(ex, a[0]), L(ex, a[1]))) if self.eq(L(ex, a[0]), L(ex, a[1])) not in (True, False) else 0 if self.eq(L(ex, a[0]), L(ex, a[1])) else RCmp(self, False))
        def inverse(ex, n):
            if ex.decide(self.eq(n, 0)): return None
            if n.op == 'c': return self.c(pow(n.a, -1, self.mod))
            for t, m in self.invs:
                if m is n: return t
            t = self.var('inv'); self.invs.append((t, n)); return t
        if lv == 'fq':
            def inv(ex, a):
                t = inverse(ex, L(ex, a[0]))
                return (self.mkel(self.var('unspec'), lv), False) if t is None else (self.mkel(t, lv), True)
            reg('Inverse', inv)
            def div(ex, a):
                t = inverse(ex, L(ex, a[1]))
                if t is None: t = self.var('unspec')
                ex.store(a[0], self.mkel(L(ex, a[0]) * t, lv), 'contract')
            reg('DivAssign', div)
        else:
            def inva(ex, a):
                t = inverse(ex, L(ex, a[0]))
                if t is None: return False
                ex.store(a[0], self.mkel(t, lv), 'contract'); return True
            reg('InverseAssign', inva)
            if lv == 'fq2':
                def div(ex, a):
                    t = inverse(ex, L(ex, a[1]))
                    if t is None: t = self.var('unspec')
                    ex.store(a[0], self.mkel(L(ex, a[0]) * t, lv), 'contract')
                reg('DivAssign', div)
                reg('MultiplyByNonresidueAssign', mut(lambda x: x * (self.c(1) + self.sym('U'))))
            else:
                reg('MulByNonresidueAssign', mut(lambda x: x * self.sym('V')))
        return c
