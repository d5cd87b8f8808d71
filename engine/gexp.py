"""Powers and multiples: elements of an abelian group generated by the argument, exponents as polynomials over the bits
of the symbolic scalar. The group operations are used by contract (C02, C03, C05, C07 decide that the code meets them).

exponent: dict {mask: coefficient}; mask is the set of bits multiplied (0: constant); bits are 0/1, so b*b = b
"""
from core import *
from intr import P, Q, R, words, val
import solve, spec
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        elif m in r: del r[m]
    return r
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def pmul(a, b):
    if len(a) == 1 and 0 in a: return pscale(b, a[0])
    if len(b) == 1 and 0 in b: return pscale(a, b[0])
    if len(a) * len(b) > 200000: raise Unsupported('bit polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m | n; v = r.get(k, 0) + c * d
            if v: r[k] = v
            elif k in r: del r[k]
    return r
ONE = {0: 1}
class PB(Sym):
    "boolean: polynomial with values 0/1 over the bits"
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    @property
    def th(self): return PBTH
def mkb(p):
    if not p: return False
    if p == ONE: return True
    return PB(p)
def pb(x): return ONE if x is True else {} if x is False else x.p
class PBTh:
    def bnot(self, c): return mkb(padd(ONE, pb(c), -1))
    def band(self, a, b): return mkb(pmul(pb(a), pb(b)))
    def bor(self, a, b): return self.bnot(self.band(self.bnot(a), self.bnot(b)))
    def xor(self, a, b):
        x, y = pb(a), pb(b); return mkb(padd(padd(x, y), pmul(x, y), -2))
    def bin(self, ex, op, x, y, w, u, yw):
        if op == '==': return self.bnot(self.xor(x, y))
        if op == '!=': return self.xor(x, y)
        if op == '&': return self.band(x, y)
        if op == '|': return self.bor(x, y)
        raise Unsupported('bit operator ' + op)
    def eq(self, ex, x, y): return self.bnot(self.xor(x, y))
    def un(self, ex, op, x, w, u):
        if op == '!': return self.bnot(x)
        raise Unsupported('bit operator ' + op)
    def ite(self, ex, c, a, b):
        if isinstance(a, (bool, PB)) and isinstance(b, (bool, PB)):
            return mkb(padd(pb(b), pmul(pb(c), padd(pb(a), pb(b), -1))))
        if isinstance(a, (int, BW)) and isinstance(b, (int, BW)) and type(a) is not bool:
            n = a.n if isinstance(a, BW) else b.n if isinstance(b, BW) else 64
            x, y = bits(a, n), bits(b, n)
            return mkw([self.ite(ex, c, p, q) if p is not q else p for p, q in zip(x, y)])
        raise MergeFail()
PBTH = PBTh()
class BW(Sym):
    "machine word as a list of bits (False, True or PB), least significant first"
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    @property
    def n(self): return len(self.b)
    @property
    def th(self): return BWTH
def bits(x, n):
    if isinstance(x, BW): return x.b if x.n == n else (x.b + [False] * n)[:n]
    return [bool(x >> i & 1) for i in range(n)]
def mkw(b):
    for x in b:
        if isinstance(x, PB): return BW(list(b))
    return sum(1 << i for i, x in enumerate(b) if x)
class BWTh:
    def bin(self, ex, op, x, y, w, u, yw):
        if op in ('<<', '>>'):
            if type(y) is not int or not isinstance(x, BW): raise Unsupported('symbolic shift amount')
            if op == '>>' and not u and x.b[-1] is not False: raise Unsupported('arithmetic shift')
            n = x.n
            if y >= n: return 0
            return mkw([False] * y + x.b[:n - y] if op == '<<' else x.b[y:] + [False] * y)
        a, b = bits(x, w), bits(y, w)
        T = PBTH
        if op == '&': return mkw([T.band(p, q) if p is not False and q is not False else False for p, q in zip(a, b)])
        if op == '|': return mkw([p if q is False else q if p is False else T.bor(p, q) for p, q in zip(a, b)])
        if op == '^': return mkw([p if q is False else q if p is False else T.xor(p, q) for p, q in zip(a, b)])
        if op == '&^': return mkw([p if q is False else T.band(p, T.bnot(q)) for p, q in zip(a, b)])
        if op in ('==', '!='):
            r = True
            if any((p is True and q is False) or (p is False and q is True) for p, q in zip(a, b)): r = False
            else:
                for p, q in zip(a, b):
                    if isinstance(p, PB) or isinstance(q, PB): r = T.band(r, T.bnot(T.xor(p, q)))
                    if r is False: break
                    if isinstance(r, PB) and len(r.p) > 5000: raise Unsupported('word comparison')
            return r if op == '==' else T.bnot(r)
        if op in ('<', '>', '<=', '>='):
            if op in ('>', '<='): a, b = b, a
            # a < b
            lt = False; eq = True
            for p, q in zip(reversed(a), reversed(b)):
                if isinstance(eq, bool) and not eq: break
                lt = T.bor(lt, T.band(eq, T.band(T.bnot(p), q)))
                eq = T.band(eq, T.bnot(T.xor(p, q)))
                if isinstance(eq, PB) and len(eq.p) > 5000: raise Unsupported('word comparison')
            return lt if op in ('<', '>') else T.bnot(lt)
        if op == '+' or op == '-':
            c = False; r = []
            if op == '-': b = [T.bnot(q) for q in b]; c = True
            for p, q in zip(a, b):
                s = T.xor(p, q); r.append(T.xor(s, c)); c = T.bor(T.band(p, q), T.band(s, c))
                if isinstance(c, PB) and len(c.p) > 5000: raise Unsupported('symbolic word arithmetic')
            return mkw(r)
        raise Unsupported('word operator ' + op)
    def un(self, ex, op, x, w, u):
        if op == '^': return mkw([PBTH.bnot(p) for p in x.b])
        raise Unsupported('word operator ' + op)
    def conv(self, ex, x, aw, au, bw, bu):
        if not au and x.b[-1] is not False and bw > x.n: raise Unsupported('sign extension')
        return mkw(bits(x, bw))
    def eq(self, ex, x, y): return self.bin(ex, '==', x, y, x.n if isinstance(x, BW) else y.n, True, None)
    def ite(self, ex, c, a, b): return PBTH.ite(ex, c, a, b)
    def inrange(self, i, n): raise Unsupported('symbolic index')
    def carry(self, x, y, c, w, neg):
        T = PBTH; a, b = bits(x, w), bits(y, w); c = bits(c, w)[0]; r = []
        if neg: b = [T.bnot(q) for q in b]; c = T.bnot(c)
        for p, q in zip(a, b):
            s = T.xor(p, q); r.append(T.xor(s, c)); c = T.bor(T.band(p, q), T.band(s, c))
            if isinstance(c, PB) and len(c.p) > 5000: raise Unsupported('symbolic word arithmetic')
        if neg: c = T.bnot(c)
        return mkw(r), mkw([c] + [False] * (w - 1))
    def add64(self, ex, x, y, c, w): return self.carry(x, y, c, w, False)
    def sub64(self, ex, x, y, c, w): return self.carry(x, y, c, w, True)
    def mul64(self, ex, x, y, w):
        for p, q in ((x, y), (y, x)):
            if type(p) is int and p and p & (p - 1) == 0:
                k = p.bit_length() - 1; b = [False] * k + bits(q, w) + [False] * (w - k)
                return mkw(b[w:]), mkw(b[:w])
            if type(p) is int and p == 0: return 0, 0
        raise Unsupported('product of symbolic words')
BWTH = BWTh()
def top(x, n):
    "position of the leading one of a word, -1 for zero"
    b = bits(x, n)
    for i in range(n - 1, -1, -1):
        if b[i] is True: return i
        if b[i] is not False: raise Unsupported('leading bit not fixed')
    return -1
class BigB(Sym):
    "math/big value given by its bits"
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    @property
    def th(self): return BWTH
class GE(Abs):
    __slots__ = ('g', 'e', 'lv')
    def __init__(self, g, e, lv): self.g = g; self.e = e; self.lv = lv
    @property
    def th(self): return self.g
    def proj(self, ex, i):
        if self.lv == 'g1a' or self.lv == 'g2a':
            if i == 2: return self.g.iszero(ex, self)
        raise Unsupported('component of a group element')
    def __repr__(self): return 'GE(%s)' % (str(self.e)[:60],)
class ZB(Sym):
    "boolean: the element with this exponent is the neutral element"
    __slots__ = ('e', 'neg')
    def __init__(self, e, neg=False): self.e = e; self.neg = neg
    @property
    def th(self): return ZBTH
class ZBTh:
    def bnot(self, c): return ZB(c.e, not c.neg)
    def un(self, ex, op, x, w, u):
        if op == '!': return self.bnot(x)
        raise Unsupported('operator')
ZBTH = ZBTh()
FAM = {'FQ': 'fq', 'FR': 'fr', 'FQ2': 'fq2', 'FQ6': 'fq6', 'FQ12': 'fq12', 'G1Affine': 'g1a', 'G1Projective': 'g1p', 'G2Affine': 'g2a', 'G2Projective': 'g2p'}
SORT = {'fq': spec.fq, 'fr': spec.fr, 'fq2': spec.fq2, 'fq6': spec.fq6, 'fq12': spec.fq12, 'g1a': spec.g1a, 'g2a': spec.g2a, 'g1p': spec.g1p, 'g2p': spec.g2p}
ONES = {'fq': 1, 'fr': 1, 'fq2': (1, 0), 'fq6': spec.ref.I6, 'fq12': spec.ref.I12}
ZEROS = {'fq': 0, 'fr': 0, 'fq2': (0, 0), 'fq6': spec.ref.O6, 'fq12': spec.ref.O12}
BYPTR = ('fq6', 'fq12')
class G:
    """group: kind 'mul' or 'add'; lv: the types taking part; order: exponents modulo it (when the argument is known to be
    in a subgroup of that order)"""
    def __init__(self, kind, order=None, frob=None):
        self.kind = kind; self.order = order; self.frob = frob; self.known = {}; self.memo = {}
    def norm(self, e):
        if self.order is None: return e
        return {m: c % self.order for m, c in e.items() if c % self.order}
    def el(self, e, lv): return GE(self, self.norm(e), lv)
    def eq(self, ex, x, y): raise Unsupported('comparison of group elements')
    def ite(self, ex, c, a, b):
        if isinstance(a, GE) or isinstance(b, GE):
            lv = a.lv if isinstance(a, GE) else b.lv
            k = (id(c), id(a), id(b)); h = self.memo.get(k)
            if h is not None and h[0] is c and h[1] is a and h[2] is b: return h[3]
            x, y = self.lift(ex, a, lv), self.lift(ex, b, lv)
            r = self.el(padd(y, pmul(pb(c), padd(x, y, -1))), lv)
            if len(self.memo) > 64: self.memo.clear()
            self.memo[k] = (c, a, b, r)
            return r
        raise MergeFail()
    def iszero(self, ex, x):
        if not x.e: return True
        if self.kind == 'add':
            if ex.decide(Choice('argument is zero', 0)): 
                return True
            if x.e == ONE or x.e == {0: -1}: return False
        return ZB(dict(x.e))
    def lift(self, ex, v, lv):
        if isinstance(v, GE): return v.e
        try: d = self.ground(ex, v, lv)
        except (Unsupported, AttributeError, TypeError, IndexError): raise Unsupported('element not in the group generated by the argument')
        if self.kind == 'mul':
            if d == ONES[lv]: return {}
        elif lv in ZEROS:
            if d == ZEROS[lv]: return {}
        elif d is None: return {}
        for k, e in self.known.items():
            if k == (lv, d): return e
        raise Unsupported('constant outside the group generated by the argument')
    def ground(self, ex, v, lv):
        def deep(v):
            if type(v) is Ptr: return Ptr(Obj(deep(ex.load(v))))
            if type(v) is tuple: return tuple(deep(x) for x in v)
            if isinstance(v, (Sym, Abs)): raise Unsupported('symbolic')
            return v
        return SORT[lv].dec(deep(v))
    def contracts(self, types):
        c = {}
        for T in types: self.reg(c, T)
        return c
    def reg(self, c, T):
        lv = FAM[T]; fr = lv == 'fr'; pt = lv[0] == 'g'
        def L(ex, x, l=lv):
            v = ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x
            if l == 'fr' and type(v) is tuple:
                w = ex.load(v[0]) if isinstance(v[0], (Ptr, PtrIte)) else None
                if isinstance(w, GE): return w.e
            return self.lift(ex, v, l)
        def put(ex, p, e):
            if fr:
                v = ex.load(p) if isinstance(p, (Ptr, PtrIte)) else p
                ex.store(v[0], self.el(e, lv), 'contract')
            else:
                if p is None: raise GoPanic('nil dereference', ex.where())
                if not isinstance(p, (Ptr, PtrIte)): raise Unsupported('receiver by value')
                ex.store(p, self.el(e, lv), 'contract')
        def reg(nm, f):
            c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        def new(ex, e, l=lv):
            if l == 'fr': return ex.new((ex.new(self.el(e, l)),))
            return ex.new(self.el(e, l))
        def copy(ex, a):
            e = L(ex, a[0])
            if fr or pt or lv in BYPTR: return new(ex, e)
            return self.el(e, lv)
        reg('Copy', copy)
        if pt:
            J = {'g1': ('G1Projective', 'g1p', 'g1a'), 'g2': ('G2Projective', 'g2p', 'g2a')}[lv[:2]]
            reg('Add', lambda ex, a: new(ex, padd(L(ex, a[0]), L(ex, a[1], J[1])), J[1]))
            reg('AddAffine', lambda ex, a: new(ex, padd(L(ex, a[0]), L(ex, a[1], J[2])), J[1]))
            reg('Double', lambda ex, a: new(ex, pscale(L(ex, a[0]), 2), J[1]))
            reg('NegAssign', lambda ex, a: put(ex, a[0], pscale(L(ex, a[0]), -1)))
            reg('ToProjective', lambda ex, a: new(ex, L(ex, a[0]), J[1]))
            reg('ToAffine', lambda ex, a: new(ex, L(ex, a[0]), J[2]))
            def isz(ex, a):
                v = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
                if isinstance(v, GE): return self.iszero(ex, v)
                return not self.lift(ex, v, lv)
            reg('IsZero', isz)
            return
        if self.kind == 'mul':
            reg('MulAssign', lambda ex, a: put(ex, a[0], padd(L(ex, a[0]), L(ex, a[1]))))
            reg('SquareAssign', lambda ex, a: put(ex, a[0], pscale(L(ex, a[0]), 2)))
            reg('DivAssign', lambda ex, a: put(ex, a[0], padd(L(ex, a[0]), L(ex, a[1]), -1)))
            if lv == 'fq': reg('Inverse', lambda ex, a: (self.el(pscale(L(ex, a[0]), -1), lv), True))
            elif fr: reg('Inverse', lambda ex, a: new(ex, pscale(L(ex, a[0]), -1)))
            else:
                def inva(ex, a): put(ex, a[0], pscale(L(ex, a[0]), -1)); return True
                reg('InverseAssign', inva)
            if self.frob:
                def fm(ex, a):
                    if type(a[1]) is not int: raise Unsupported('symbolic power')
                    put(ex, a[0], pscale(L(ex, a[0]), self.frob ** a[1]))
                reg('FrobeniusMapAssign', fm)
                if lv == 'fq12': reg('ConjugateAssign', lambda ex, a: put(ex, a[0], pscale(L(ex, a[0]), self.frob ** 6)))
        else:
            reg('AddAssign', lambda ex, a: put(ex, a[0], padd(L(ex, a[0]), L(ex, a[1]))))
            reg('SubAssign', lambda ex, a: put(ex, a[0], padd(L(ex, a[0]), L(ex, a[1]), -1)))
            reg('DoubleAssign', lambda ex, a: put(ex, a[0], pscale(L(ex, a[0]), 2)))
            reg('NegAssign', lambda ex, a: put(ex, a[0], pscale(L(ex, a[0]), -1)))
    def arg(self, ex, lv):
        e = ONE
        if lv == 'fr': return (ex.new(self.el(e, lv)),)
        return self.el(e, lv)
def bitcontracts():
    c = {}
    for n in (64, 32):
        c['math/bits.LeadingZeros%d' % n] = lambda ex, a, n=n: n - 1 - top(a[0], n)
        c['math/bits.Len%d' % n] = lambda ex, a, n=n: top(a[0], n) + 1
    c['math/bits.LeadingZeros'] = lambda ex, a: 63 - top(a[0], 64)
    c['math/bits.Len'] = lambda ex, a: top(a[0], 64) + 1
    def big(ex, p):
        return ex.load(p) if isinstance(p, (Ptr, PtrIte)) else p
    def bl(ex, a):
        v = big(ex, a[0])
        if isinstance(v, BigB): 
            for i in range(len(v.b) - 1, -1, -1):
                if v.b[i] is True: return i + 1
                if v.b[i] is not False: raise Unsupported('leading bit not fixed')
            return 0
        return abs(v).bit_length()
    def bit(ex, a):
        v = big(ex, a[0]); i = a[1]
        if type(i) is not int: raise Unsupported('symbolic bit index')
        if isinstance(v, BigB):
            if i >= len(v.b) or v.b[i] is False: return 0
            return 1 if v.b[i] is True else mkw([v.b[i]] + [False] * 63)
        return v >> i & 1
    c['(*math/big.Int).BitLen'] = bl; c['(*math/big.Int).Bit'] = bit
    c['(*math/big.Int).Sign'] = lambda ex, a: (lambda v: (1 if any(x is True for x in v.b) else 0) if isinstance(v, BigB) else (v > 0) - (v < 0))(big(ex, a[0]))
    return c
def scalar(L, n, kind):
    "symbolic scalar with leading one at position L (L = -1: zero)"
    b = [PB({1 << i: 1}) for i in range(max(L, 0))] + ([True] if L >= 0 else [])
    if kind == 'big': return BigB(b)
    b += [False] * (64 * n - len(b))
    return tuple(mkw(b[64 * i:64 * i + 64]) for i in range(n))
def expected(L):
    e = {1 << i: 1 << i for i in range(max(L, 0))}
    if L >= 0: e[0] = 1 << L
    return e
def check(d, order=None):
    "the solver's verdict on: the polynomial d is zero for all values of the bits (modulo order)"
    ms = set(m for m in d if m)
    bitsof = lambda m: [i for i in range(m.bit_length()) if m >> i & 1]
    vs = sorted(set(i for m in ms for i in bitsof(m)))
    t = ['(set-logic QF_LIA)'] + ['(declare-const b%d Int)(assert (or (= b%d 0) (= b%d 1)))' % (i, i, i) for i in vs]
    terms = []
    for m in sorted(d):
        if m == 0: terms.append(num(d[m])); continue
        bs = bitsof(m)
        if len(bs) == 1: terms.append('(* %s b%d)' % (num(d[m]), bs[0]))
        else: terms.append('(ite (and %s) %s 0)' % (' '.join('(= b%d 1)' % i for i in bs), num(d[m])))
    s = '(+ %s 0)' % ' '.join(terms) if terms else '0'
    if order: t += ['(declare-const k Int)', '(assert (not (= (mod %s %d) 0)))' % (s, order)]
    else: t.append('(assert (not (= %s 0)))' % s)
    return solve.run('\n'.join(t), 20, ['b%d' % i for i in vs])
def num(n): return str(n) if n >= 0 else '(- %d)' % -n
