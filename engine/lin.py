"""Machine words as linear integer expressions.

A word is sum(coefficient*atom)+constant. Wrap-around, carries and shifts introduce atoms for floor(e/2^k)
constrained by 0 <= e-2^k*t < 2^k, so the mod-2^w semantics is exact; products of two symbolic words are
monomials (an uninterpreted integer with interval bounds). Queries are QF_LIA over unbounded integers.
"""
from math import gcd
from core import *
import solve

class Atom:
    __slots__ = ('name', 'lo', 'hi', 'id', 'mono')
class LBool(Sym):
    "boolean: ('ge',e) e>=0 | ('eq',e) e==0 | ('not',b) | ('and',a,b) | ('or',a,b) | ('var',name)"
    __slots__ = ('k', 'a', 'b', 'th')
    def __init__(self, th, k, a, b=None): self.th = th; self.k = k; self.a = a; self.b = b
    def smt(self):
        if self.k == 'ge': return '(>= %s 0)' % self.a.smt()
        if self.k == 'eq': return '(= %s 0)' % self.a.smt()
        if self.k == 'not': return '(not %s)' % self.a.smt()
        if self.k == 'var': return self.a
        return '(%s %s %s)' % (self.k, self.a.smt(), self.b.smt())
class Lin(Sym):
    __slots__ = ('t', 'c', 'th', 'lo', 'hi')
    def __init__(self, th, t, c):
        self.th = th; self.t = t; self.c = c
        lo = hi = c
        for a, k in t.items():
            if k > 0: lo = None if lo is None or a.lo is None else lo + k * a.lo; hi = None if hi is None or a.hi is None else hi + k * a.hi
            else: lo = None if lo is None or a.hi is None else lo + k * a.hi; hi = None if hi is None or a.lo is None else hi + k * a.lo
        self.lo = lo; self.hi = hi
    def key(self): return (tuple(sorted((a.id, k) for a, k in self.t.items())), self.c)
    def smt(self):
        def n(v): return str(v) if v >= 0 else '(- %d)' % -v
        xs = [a.name if k == 1 else '(* %s %s)' % (n(k), a.name) for a, k in self.t.items()]
        if self.c or not xs: xs.append(n(self.c))
        return xs[0] if len(xs) == 1 else '(+ %s)' % ' '.join(xs)
    def __repr__(self): return 'Lin(%s)' % self.smt()

class LinTh:
    def __init__(self):
        self.atoms = []; self.cons = []; self.cache = {}; self.bvars = []; self.defs = {}; self.rules = {}
        self.tmo = 8; self.ftmo = 2
        self.extra = []          # raw SMT constraints
    def mark(self): return (len(self.atoms), len(self.cons), dict(self.cache), len(self.bvars))
    # ------------------------------------------------ construction
    def atom(self, name, lo, hi, mono=None):
        a = Atom(); a.id = len(self.atoms); a.name = '%s_%d' % (name, a.id); a.lo = lo; a.hi = hi; a.mono = mono
        self.atoms.append(a); return a
    def var(self, name, lo=0, hi=(1 << 64) - 1):
        return Lin(self, {self.atom(name, lo, hi): 1}, 0)
    def word(self, name): return self.var(name)
    def boolvar(self, name):
        n = '%s_b%d' % (name, len(self.bvars)); self.bvars.append(n); return LBool(self, 'var', n)
    def mk(self, t, c):
        t = {a: k for a, k in t.items() if k}
        return Lin(self, t, c) if t else c
    def lift(self, x):
        if type(x) is bool: return Lin(self, {}, int(x))
        if type(x) is int: return Lin(self, {}, x)
        if isinstance(x, Lin): return x
        raise Unsupported('lin: %r' % (x,))
    def add(self, x, y, ky=1):
        x = self.lift(x); y = self.lift(y)
        t = dict(x.t)
        for a, k in y.t.items(): t[a] = t.get(a, 0) + ky * k
        return self.mk(t, x.c + ky * y.c)
    def sub(self, x, y): return self.add(x, y, -1)
    def scale(self, x, k):
        if type(x) is int: return x * k
        return self.mk({a: c * k for a, c in x.t.items()}, x.c * k)
    def mul(self, x, y):
        if type(x) is int: return self.scale(y, x) if not type(y) is int else x * y
        if type(y) is int: return self.scale(x, y)
        r = x.c * y.c
        t = {}
        for a, k in x.t.items():
            if y.c: t[a] = t.get(a, 0) + k * y.c
        for a, k in y.t.items():
            if x.c: t[a] = t.get(a, 0) + k * x.c
        for a, k in x.t.items():
            for b, l in y.t.items():
                m = self.mono(a, b); t[m] = t.get(m, 0) + k * l
        return self.mk(t, r)
    def mono(self, a, b):
        fs = tuple(sorted((a.mono or (a,)) + (b.mono or (b,)), key=lambda z: z.id))
        key = ('mono',) + tuple(f.id for f in fs)
        m = self.cache.get(key)
        if m is None:
            lo = hi = 1
            for f in fs:
                if f.lo is None or f.hi is None or lo is None: lo = hi = None; break
                ps = [lo * f.lo, lo * f.hi, hi * f.lo, hi * f.hi]; lo = min(ps); hi = max(ps)
            m = self.cache[key] = self.atom('m', lo, hi, fs)
        return m
    def floor(self, x, k):
        "floor(x / 2^k)"
        if type(x) is int: return x >> k
        if k == 0: return x
        M = 1 << k
        out = {}; rest = {}
        for a, c in x.t.items():
            q, r = divmod(c, M)
            if 2 * r > M: r -= M; q += 1      # small in absolute value: tighter bounds
            if q: out[a] = q
            if r: rest[a] = r
        qc, rc = divmod(x.c, M)
        if not rest: return self.mk(out, qc)
        y = self.expand(x)
        if all(c % M == 0 for c in y.t.values()):
            # exact up to a constant: e.g. the word cancelled by a Montgomery step
            e = self.mk({a: c // M for a, c in y.t.items()}, y.c // M)
            return self.named(e, x.hi >> k) if x.lo is not None and x.lo >= 0 and x.hi is not None else e
        g = M
        for c in rest.values(): g = gcd(g, c)
        # floor((g*e + rc)/M) = floor((e + rc//g)/(M/g))
        rc //= g; M2 = M // g
        e = Lin(self, {a: c // g for a, c in rest.items()}, rc)
        if e.lo is not None and e.hi is not None and e.lo // M2 == e.hi // M2:
            return self.add(self.mk(out, qc), e.lo // M2)
        key = ('fl', e.key(), M2)
        t = self.cache.get(key)
        if t is None:
            t = self.atom('f', None if e.lo is None else e.lo // M2, None if e.hi is None else e.hi // M2)
            self.cache[key] = t
            d = self.sub(e, Lin(self, {t: M2}, 0))
            self.cons.append(self.ge(d)); self.cons.append(self.ge(self.sub(M2 - 1, d)))
        return self.add(self.mk(out, qc), Lin(self, {t: 1}, 0))
    def wrap(self, x, w, u=True):
        if type(x) is int:
            from core import wrap as cw
            return cw(x, w, u)
        if not u:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if x.lo is not None and x.hi is not None and lo <= x.lo and x.hi <= hi: return x
            s = self.add(x, 1 << (w - 1))
            return self.sub(x, self.scale(self.floor(s, w), 1 << w))
        if x.lo is not None and x.hi is not None and 0 <= x.lo and x.hi < (1 << w): return x
        return self.named(self.sub(x, self.scale(self.floor(x, w), 1 << w)), (1 << w) - 1)
    def named(self, x, hi):
        "gives a value known to lie in [0,hi] its own atom, so that its bounds are kept"
        if type(x) is int: return x
        if x.lo is not None and x.hi is not None and 0 <= x.lo and x.hi <= hi: return x
        key = ('nm', x.key(), hi)
        a = self.cache.get(key)
        if a is None:
            a = self.cache[key] = self.atom('w', 0, hi)
            self.cons.append(LBool(self, 'eq', self.lift(self.sub(x, Lin(self, {a: 1}, 0)))))
            self.defs[a.id] = x
        return Lin(self, {a: 1}, 0)
    # ------------------------------------------------ booleans
    def ge(self, x):
        x = self.lift(x)
        if x.lo is not None and x.lo >= 0: return True
        if x.hi is not None and x.hi < 0: return False
        return LBool(self, 'ge', x)
    def eq0(self, x):
        x = self.lift(x)
        if not x.t: return x.c == 0
        if x.lo is not None and x.lo > 0 or x.hi is not None and x.hi < 0: return False
        return LBool(self, 'eq', x)
    def bnot(self, c):
        if c is True or c is False: return not c
        if c.k == 'not': return c.a
        return LBool(self, 'not', c)
    def band(self, a, b):
        if a is False or b is False: return False
        if a is True: return b
        if b is True: return a
        return LBool(self, 'and', a, b)
    def bor(self, a, b): return self.bnot(self.band(self.bnot(a), self.bnot(b)))
    # ------------------------------------------------ theory interface
    def eq(self, ex, x, y):
        if isinstance(x, LBool) or isinstance(y, LBool):
            if y is True: return x
            if y is False: return self.bnot(x)
            if x is True: return y
            if x is False: return self.bnot(y)
            return self.bor(self.band(x, y), self.band(self.bnot(x), self.bnot(y)))
        return self.eq0(self.sub(x, y))
    def bin(self, ex, op, x, y, w, u, yw):
        if isinstance(x, LBool) or isinstance(y, LBool):
            if op == '==': return self.eq(ex, x, y)
            if op in ('!=', '^'): return self.bnot(self.eq(ex, x, y))
            if op == '&': return self.band(x, y)
            if op == '|': return self.bor(x, y)
            raise Unsupported('bool op ' + op)
        if op == '+': return self.wrap(self.add(x, y), w, u)
        if op == '-': return self.wrap(self.sub(x, y), w, u)
        if op == '*': return self.wrap(self.mul(x, y), w, u)
        if op == '==': return self.eq0(self.sub(x, y))
        if op == '!=': return self.bnot(self.eq0(self.sub(x, y)))
        if op == '>=': return self.ge(self.sub(x, y))
        if op == '<=': return self.ge(self.sub(y, x))
        if op == '>': return self.bnot(self.ge(self.sub(y, x)))
        if op == '<': return self.bnot(self.ge(self.sub(x, y)))
        if op in ('<<', '>>'):
            if type(y) is not int: raise Unsupported('lin: symbolic shift amount')
            if op == '>>': return self.floor(x, y) if y < w or not u else 0
            return self.wrap(self.scale(x, 1 << y), w, u) if y < w else 0
        if op == '/' and type(y) is int and y > 0 and y & (y - 1) == 0 and self.lift(x).lo is not None and self.lift(x).lo >= 0:
            return self.floor(x, y.bit_length() - 1)
        if op == '%' and type(y) is int and y > 0 and y & (y - 1) == 0 and self.lift(x).lo is not None and self.lift(x).lo >= 0:
            return self.sub(x, self.scale(self.floor(x, y.bit_length() - 1), y))
        if op in ('&', '&^'):
            if op == '&^':
                if type(y) is not int: raise Unsupported('lin: &^')
                y = ~y & ((1 << w) - 1)
            if type(x) is int: x, y = y, x
            if type(y) is not int: 
                raise Unsupported('lin: &')
            if not u and y < 0: raise Unsupported('lin: signed &')
            return self.mask(x, y)
        if op in ('|', '^'):
            if type(x) is int: x, y = y, x
            if op == '^' and type(y) is int and y == (1 << w) - 1: return self.sub(y, x)
            if type(y) is int and y == 0: return x
            for a, b in ((x, y), (y, x)):
                tz = self.tz(a); b2 = self.lift(b)
                if b2.lo is not None and b2.hi is not None and b2.lo >= 0 and b2.hi < (1 << tz): return self.add(a, b)
            if op == '|' or op == '^':
                # one-bit operands
                a, b = self.lift(x), self.lift(y)
                if a.lo == 0 and a.hi == 1 and b.lo is not None and b.lo >= 0 and b.hi <= 1:
                    c = self.band(self.ge(self.sub(a, 1)), self.ge(self.sub(b, 1)))
                    s = self.add(a, b)
                    return self.ite(ex, c, 1 if op == '|' else 0, s)
            raise Unsupported('lin: ' + op)
        raise Unsupported('lin: ' + op)
    def tz(self, x):
        if type(x) is int: return (x & -x).bit_length() - 1 if x else 4096
        r = 4096
        for c in list(x.t.values()) + ([x.c] if x.c else []): r = min(r, (c & -c).bit_length() - 1)
        # a named word equal to a multiple of a power of two
        if r == 0 and len(x.t) == 1 and x.c == 0:
            (a, k), = x.t.items()
            for key, v in self.cache.items():
                if key[0] == 'nm' and v is a:
                    cs = [c for _, c in key[1][0]] + ([key[1][1]] if key[1][1] else [])
                    return min((c & -c).bit_length() - 1 for c in cs)
        return r
    def mask(self, x, m):
        r = 0; lo = 0
        while m >> lo:
            if not (m >> lo) & 1: lo += 1; continue
            hi = lo
            while (m >> hi) & 1: hi += 1
            part = self.sub(self.floor(x, lo), self.scale(self.floor(x, hi), 1 << (hi - lo)))
            r = self.add(r, self.scale(self.named(part, (1 << (hi - lo)) - 1), 1 << lo))
            lo = hi
        return r
    def un(self, ex, op, x, w, u):
        if op == '!': return self.bnot(x)
        if op == '-': return self.wrap(self.scale(x, -1), w, u)
        if op == '^': return self.wrap(self.sub(-1, x), w, u)
        raise Unsupported('lin un ' + op)
    def conv(self, ex, x, aw, au, bw, bu): return self.wrap(x, bw, bu)
    def ite(self, ex, c, a, b):
        if isinstance(a, (LBool, bool)) and isinstance(b, (LBool, bool)):
            return self.bor(self.band(c, a), self.band(self.bnot(c), b))
        a = self.lift(a); b = self.lift(b)
        lo = None if None in (a.lo, b.lo) else min(a.lo, b.lo); hi = None if None in (a.hi, b.hi) else max(a.hi, b.hi)
        if not isinstance(c, LBool): raise MergeFail()
        t = Lin(self, {self.atom('i', lo, hi): 1}, 0)
        self.cons.append(self.bor(self.bnot(c), LBool(self, 'eq', self.lift(self.sub(t, a)))))
        self.cons.append(self.bor(c, LBool(self, 'eq', self.lift(self.sub(t, b)))))
        return t
    def eqconst(self, i, k): return self.eq0(self.sub(i, k))
    def inrange(self, i, n): return self.band(self.ge(i), self.ge(self.sub(n - 1, i)))
    def select(self, ex, vals, i):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1): r = ex.ite(self.eqconst(i, k), vals[k], r)
        return r
    def add64(self, ex, x, y, c, w):
        s = self.add(self.add(x, y), c)
        return (self.wrap(s, w), self.floor(s, w))
    def sub64(self, ex, x, y, c, w):
        d = self.sub(self.sub(x, y), c)
        return (self.wrap(d, w), self.scale(self.floor(d, w), -1))
    def mul64(self, ex, x, y, w):
        p = self.mul(x, y)
        return (self.named(self.floor(p, w), (1 << w) - 1) if type(p) is not int else p >> w, self.wrap(p, w))
    def lz(self, ex, x, w): raise Unsupported('lin: leading zeros')
    def big(self, ex, op, a):
        if op == 'add': return self.add(*a)
        if op == 'sub': return self.sub(*a)
        if op == 'lsh' and type(a[1]) is int: return self.scale(a[0], 1 << a[1])
        if op == 'rsh' and type(a[1]) is int: return self.floor(a[0], a[1])
        if op == 'and':
            x, y = a if isinstance(a[0], Sym) else (a[1], a[0])
            if type(y) is int and y >= 0: return self.mask(x, y)
        if op == 'uint64':
            if a[0].lo is not None and a[0].lo >= 0: return self.wrap(a[0], 64)
        if op in ('cmp', 'sign'):
            d = self.sub(a[0], a[1] if op == 'cmp' else 0)
            return CmpInt(self, d)
        if op == 'bitlen': return BitLenSym(self, a[0])
        if op == 'mod' and type(a[1]) is int:
            m = a[1]; q = Lin(self, {self.atom('q', None if a[0].lo is None else a[0].lo // m, None if a[0].hi is None else a[0].hi // m): 1}, 0)
            r = self.sub(a[0], self.scale(q, m))
            return self.named(r, m - 1)
        if op == 'setbytes':
            r = 0
            for b in a: r = self.add(self.scale(r, 256) if r else 0, b)
            return r
        raise Unsupported('lin big ' + op)
    # ------------------------------------------------ solving
    def text(self, pc, goal=None, extra=()):
        "all constraints, the path condition and the negated goal"
        roots = []
        for c, pol in pc:
            if isinstance(c, LBool): roots.append(c if pol else self.bnot(c))
            elif isinstance(c, bool):
                if c != pol: roots.append(False)
            else: pass
        for c in extra: roots.append(c)
        if goal is not None: roots.append(self.bnot(goal) if not isinstance(goal, bool) else (not goal))
        used = set(); bs = set(); todo = list(roots); keep = set()
        if self.extra: keep = set(range(len(self.cons))); todo += self.cons
        idx = self.index()
        while todo:
            c = todo.pop()
            if isinstance(c, bool): continue
            st = [c]
            while st:
                z = st.pop()
                if isinstance(z, bool) or z is None: continue
                if z.k in ('ge', 'eq'):
                    for a in z.a.t:
                        if a.id not in used:
                            used.add(a.id)
                            for k in idx.get(a.id, ()):
                                if k not in keep: keep.add(k); todo.append(self.cons[k])
                elif z.k == 'var':
                    if z.a not in bs:
                        bs.add(z.a)
                        for k in idx.get(z.a, ()):
                            if k not in keep: keep.add(k); todo.append(self.cons[k])
                else: st.append(z.a); st.append(z.b if z.k in ('and', 'or') else None)
        out = ['(set-logic ALL)']
        for a in self.atoms:
            if a.id not in used: continue
            out.append('(declare-const %s Int)' % a.name)
            n = lambda v: str(v) if v >= 0 else '(- %d)' % -v
            if a.lo is not None: out.append('(assert (>= %s %s))' % (a.name, n(a.lo)))
            if a.hi is not None: out.append('(assert (<= %s %s))' % (a.name, n(a.hi)))
        for b in self.bvars:
            if b in bs: out.append('(declare-const %s Bool)' % b)
        for k, c in enumerate(self.cons):
            if c is True: continue
            if c is False: out.append('(assert false)')
            elif k in keep: out.append('(assert %s)' % c.smt())
        for c in self.extra: out.append(c)
        for c in roots:
            if c is True: continue
            out.append('(assert %s)' % ('false' if c is False else c.smt()))
        self.last = used, bs
        return '\n'.join(out)
    def index(self):
        "constraint numbers by atom"
        ix, n = self.cache.get('#ix', ({}, 0))
        for k in range(n, len(self.cons)):
            st = [self.cons[k]]
            while st:
                z = st.pop()
                if isinstance(z, bool) or z is None: continue
                if z.k in ('ge', 'eq'):
                    for a in z.a.t: ix.setdefault(a.id, []).append(k)
                elif z.k == 'var': ix.setdefault(z.a, []).append(k)
                else: st.append(z.a); st.append(z.b if z.k in ('and', 'or') else None)
        self.cache['#ix'] = (ix, len(self.cons))
        return ix
    def prove(self, pc, goal, extra=(), tmo=None, order=('z3', 'cvc5')):
        if goal is True: return ('unsat', None)
        tx = self.text(pc, goal, extra)
        names = [a.name for a in self.atoms if a.mono is None and a.id in self.last[0]] + [b for b in self.bvars if b in self.last[1]]
        return solve.portfolio(tx, tmo or self.tmo, names, order)
    def expand(self, x, m=None, rules=None):
        "replaces named words by their definitions; modulo m also applies the recorded congruences"
        memo = {}
        rl = dict(self.rules.get(m, {})) if m else {}
        if rules: rl.update(rules)
        def red(c):
            if not m: return c
            c %= m
            return c - m if c > m // 2 else c
        def lin(z):
            z = self.lift(z); t = {}; c = z.c
            for a, k in z.t.items():
                y = at(a)
                if y is None: t[a] = t.get(a, 0) + k
                else:
                    c += k * y.c
                    for b, l in y.t.items(): t[b] = t.get(b, 0) + k * l
            return self.lift(self.mk({a: red(k) for a, k in t.items()}, red(c)))
        def at(a):
            if a.id in memo: return memo[a.id]
            memo[a.id] = None          # rules that lead back to the same atom are not applied again
            if a.id in rl: r = lin(rl[a.id])
            elif a.id in self.defs: r = lin(self.defs[a.id])
            elif a.mono and any(at(f) is not None for f in a.mono):
                r = Lin(self, {}, 1)
                for f in a.mono:
                    y = at(f)
                    r = self.lift(self.mul(r, y if y is not None else Lin(self, {f: 1}, 0)))
                r = lin(r) if m else r
            else: r = None
            memo[a.id] = r
            return r
        return lin(x)
    def prove_cong(self, pc, d, m, extra=(), tmo=None, rules=None):
        "d == 0 modulo m: the part of d whose coefficients are not multiples of m must be zero"
        if type(d) is int: return ('unsat', None) if d % m == 0 else ('sat', {})
        rest = self.expand(d, m, rules)
        return self.prove(pc, self.eq0(rest), extra, tmo)
    def feasible(self, ex):
        r = solve.run(self.text(ex.pc), self.ftmo)
        return r[0] != 'unsat'
    def value(self, m, x):
        if type(x) in (int, bool): return x
        if isinstance(x, LBool): raise Unsupported('value of bool')
        return x.c + sum(k * (m.get(a.name) if m.get(a.name) is not None else (a.lo or 0)) for a, k in x.t.items() if a.mono is None)

class CmpInt(Sym):
    "sign of a linear expression, as returned by Cmp and Sign"
    __slots__ = ('th', 'd')
    def __init__(self, th, d): self.d = d; self.th = CmpTh(th)
class CmpTh:
    def __init__(self, l): self.l = l
    def bin(self, ex, op, x, y, w, u, yw):
        if not isinstance(x, CmpInt):
            x, y = y, x; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        if type(y) is not int: raise Unsupported('cmp of cmp')
        return self.rel(x.d, op, y)
    def rel(self, d, op, y):
        l = self.l
        pos = l.bnot(l.ge(l.scale(d, -1))); neg = l.bnot(l.ge(d)); zero = l.eq0(d)
        r = False
        for v, c in ((-1, neg), (0, zero), (1, pos)):
            if cbin(op, v, y, 64, False): r = l.bor(r, c) if r is not False else c
        # prefer simple forms
        if op == '==' and y == 0: return zero
        if op == '!=' and y == 0: return l.bnot(zero)
        if op in ('>', ) and y == 0: return pos
        if op == '<' and y == 0: return neg
        if op == '>=' and y == 0: return l.bnot(neg)
        if op == '<=' and y == 0: return l.bnot(pos)
        return r
    def eq(self, ex, x, y): return self.bin(ex, '==', x, y, 64, False, None)
    def conv(self, ex, x, *a): return x
    def un(self, ex, op, x, w, u):
        if op == '-': return CmpInt(self.l, self.l.scale(x.d, -1))
        raise Unsupported('cmp un')
    def ite(self, ex, c, a, b): raise MergeFail()
class BitLenSym(Sym):
    __slots__ = ('th', 'x')
    def __init__(self, th, x): self.x = x; self.th = BLTh(th)
class BLTh:
    def __init__(self, l): self.l = l
    def bin(self, ex, op, x, y, w, u, yw):
        l = self.l
        if not isinstance(x, BitLenSym) or type(y) is not int or y < 0: raise Unsupported('bitlen op')
        a = l.lift(x.x)
        le = lambda k: l.band(l.ge(l.sub((1 << k) - 1, a)), l.ge(l.add(a, (1 << k) - 1)))   # bitlen <= k
        if op == '<=': return le(y)
        if op == '<': return le(y - 1) if y else False
        if op == '>': return l.bnot(le(y))
        if op == '>=': return l.bnot(le(y - 1)) if y else True
        raise Unsupported('bitlen op ' + op)
    def eq(self, ex, x, y): raise Unsupported('bitlen eq')
    def conv(self, ex, x, *a): return x
    def ite(self, ex, c, a, b): raise MergeFail()
