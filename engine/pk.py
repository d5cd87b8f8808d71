"""Whole multi-word integers as single values (on top of lin.py).

A 4- or 6-word array is one Packed value V. The repr operations are used by contract (C04 and C01 decide that the code
meets these contracts); a word of a Packed value that the code looks at individually is split off lazily.
"""
from core import *
from lin import LinTh, Lin, LBool, CmpInt
from intr import P, Q, R, words, val
M = {6: Q, 4: R}
NM = {6: 'FQ', 4: 'FR'}
class PkTh:
    def __init__(self, pk): self.pk = pk
    def eq(self, ex, x, y): return self.pk.lt.eq0(self.pk.lt.sub(self.pk.pv(x), self.pk.pv(y)))
    def ite(self, ex, c, a, b):
        n = a.n if isinstance(a, Packed) else b.n
        return Packed(self.pk, self.pk.lt.ite(ex, c, self.pk.pv(a), self.pk.pv(b)), n)
class Packed(Abs):
    __slots__ = ('pk', 'V', 'n')
    def __init__(self, pk, V, n): self.pk = pk; self.V = V; self.n = n
    @property
    def th(self): return self.pk.th
    def proj(self, ex, i): return self.pk.split(self.V, self.n)[i]
    def upd(self, ex, i, v):
        w = list(self.pk.split(self.V, self.n)); w[i] = v
        return tuple(w)
    def __repr__(self): return 'Packed(%r)' % (self.V,)
class Pk:
    def __init__(self, lt=None):
        self.lt = lt or LinTh(); self.th = PkTh(self); self.splits = {}; self.rev = {}
        self.onred = None
    def mk(self, V, n): return words(V, n) if type(V) is int else Packed(self, V, n)
    def var(self, name, n, hi): return Packed(self, self.lt.var(name, 0, hi), n)
    def single(self, V, n):
        "V as an atom"
        lt = self.lt; V = lt.lift(V)
        if len(V.t) == 1 and V.c == 0 and list(V.t.values()) == [1]: return V
        a = lt.cache.get(('sg', V.key()))
        if a is None:
            a = lt.cache[('sg', V.key())] = lt.atom('s', V.lo, V.hi)
            lt.cons.append(LBool(lt, 'eq', lt.lift(lt.sub(V, Lin(lt, {a: 1}, 0))))); lt.defs[a.id] = V
        return Lin(lt, {a: 1}, 0)
    def split(self, V, n):
        lt = self.lt
        if type(V) is int: return words(V, n)
        V = self.single(V, n)
        k = (V.key(), n)
        if k not in self.splits:
            ws = tuple(lt.var('w', 0, min((1 << 64) - 1, (V.hi >> (64 * i)) if V.hi is not None else (1 << 64) - 1)) for i in range(n))
            s = 0
            for i, w in enumerate(ws): s = lt.add(s, lt.scale(w, 1 << (64 * i)))
            lt.cons.append(lt.eq0(lt.sub(V, s)))
            (a, _), = V.t.items()
            self.splits[k] = ws; self.rev[tuple(w.key() if not type(w) is int else w for w in ws)] = V
            self.worddefs = getattr(self, 'worddefs', {}); self.worddefs[a.id] = s
        return self.splits[k]
    def pv(self, x):
        "integer value of a word array"
        if isinstance(x, Packed): return x.V
        if type(x) is int or isinstance(x, Lin): return x
        if all(type(w) is int for w in x): return val(x)
        k = tuple(w if type(w) is int else w.key() for w in x)
        if k in self.rev: return self.rev[k]
        s = 0
        for i, w in enumerate(x): s = self.lt.add(s, self.lt.scale(w, 1 << (64 * i)))
        return s
    # ------------------------------------------------ contracts
    def arg(self, ex, x): return ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x
    def contracts(self):
        lt = self.lt; c = {}
        A = self.arg
        def reg(ty, n):
            B = 1 << (64 * n)
            byptr = n == 4
            def v(ex, x): return self.pv(A(ex, x))
            def put(ex, p, V):
                if p is None: raise GoPanic('nil dereference', ex.where())
                ex.store(p, self.mk(V, n), 'contract')
            def named(V): return V if type(V) is int else lt.wrap(V, 64 * n)
            def par(V):
                if type(V) is int: return V & 1
                return lt.sub(V, lt.scale(lt.floor(V, 1), 2))
            def ms(name, f):
                for r in ('(%s%s).%s', '(*%s%s).%s'): c[r % (P, ty, name)] = f
            def cmp(ex, a):
                x, y = v(ex, a[0]), v(ex, a[1])
                if type(x) is int and type(y) is int: return (x > y) - (x < y)
                if self.oncmp: self.oncmp(ex, x, y)
                return CmpInt(lt, lt.lift(lt.sub(x, y)))
            ms('Cmp', cmp)
            ms('Equals', lambda ex, a: lt.eq0(lt.sub(v(ex, a[0]), v(ex, a[1]))))
            ms('IsZero', lambda ex, a: lt.eq0(v(ex, a[0])))
            ms('IsOdd', lambda ex, a: lt.bnot(lt.eq0(par(v(ex, a[0])))))
            ms('IsEven', lambda ex, a: lt.eq0(par(v(ex, a[0]))))
            if n == 6: c[P + 'isEven'] = lambda ex, a: lt.eq0(par(v(ex, a[0])))
            ms('Copy', lambda ex, a: ex.new(A(ex, a[0]), None) if byptr else A(ex, a[0]))
            ms('Div2', lambda ex, a: put(ex, a[0], lt.floor(v(ex, a[0]), 1)))
            ms('Mul2', lambda ex, a: put(ex, a[0], named(lt.scale(v(ex, a[0]), 2)) if type(v(ex, a[0])) is not int else v(ex, a[0]) * 2 % B))
            def addnc(ex, a):
                s = lt.add(v(ex, a[0]), v(ex, a[1])); put(ex, a[0], named(s) if type(s) is not int else s % B)
            def subnb(ex, a):
                s = lt.sub(v(ex, a[0]), v(ex, a[1])); put(ex, a[0], named(s) if type(s) is not int else s % B)
            ms('AddNoCarry', addnc); ms('SubNoBorrow', subnb)
            def rsh(ex, a):
                k = a[1]
                if type(k) is not int: raise Unsupported('symbolic shift')
                put(ex, a[0], lt.floor(v(ex, a[0]), k) if k < 64 * n else 0)
            ms('Rsh', rsh)
            def tobig(ex, a): return ex.new(v(ex, a[0]), 'big')
            ms('ToBig', tobig)
        self.oncmp = getattr(self, 'oncmp', None)
        reg('FQRepr', 6); reg('FRRepr', 4)
        for nm, op in (('AddNoCarry', lt.add), ('SubNoBorrow', lt.sub)):
            def f(ex, a, op=op):
                s = op(self.pv(a[0]), self.pv(a[1]))
                return self.mk(lt.wrap(s, 384) if type(s) is not int else s % (1 << 384), 6)
            c[P + nm] = f
        def mulr(ex, a):
            x, y = self.pv(A(ex, a[0])), self.pv(A(ex, a[1]))
            T = lt.mul(x, y)
            if type(T) is int: return (words(T >> 384, 6), words(T, 6))
            H = lt.var('h', 0, min(T.hi >> 384, (1 << 384) - 1)); L = lt.var('l', 0, (1 << 384) - 1)
            d = lt.sub(T, lt.scale(H, 1 << 384))
            lt.cons.append(lt.eq0(lt.sub(d, L)))
            (a_, _), = L.t.items(); lt.defs[a_.id] = d
            return (Packed(self, H, 6), Packed(self, L, 6))
        c[P + 'MultiplyFQRepr'] = mulr
        def redc(ex, a):
            hi, lo = self.pv(a[0]), self.pv(a[1])
            T = lt.add(lt.scale(hi, 1 << 384), lo)
            if type(T) is int: return words(redc_int(T, Q, 384) % (1 << 384), 6)
            E = lt.expand(T)
            ok = E.hi is not None and E.hi <= (Q << 384) - 1 and E.lo is not None and E.lo >= 0
            if not ok:
                ok = self.bounded(ex, E, (Q << 384) - 1)
            r = lt.var('r', 0, 2 * Q - 1 if ok else (1 << 384) - 1)
            if ok:
                (a_, _), = r.t.items()
                lt.rules.setdefault(Q, {})[a_.id] = lt.scale(E, pow(1 << 384, -1, Q))
            return Packed(self, r, 6)
        c[P + 'MontReduce'] = redc
        def mac(ex, a):
            e = lt.add(lt.add(a[0], lt.mul(a[1], a[2])), a[3])
            if type(e) is int: return (e & (1 << 64) - 1, (e >> 64) & (1 << 64) - 1)
            return (lt.wrap(e, 64), lt.named(lt.floor(e, 64), (1 << 64) - 1))
        c[P + 'MACWithCarry'] = mac
        def adc(ex, a):
            e = lt.add(lt.add(a[0], a[1]), a[2])
            if type(e) is int: return (e & (1 << 64) - 1, e >> 64)
            return (lt.wrap(e, 64), lt.floor(e, 64))
        c[P + 'AddWithCarry'] = adc
        def sbb(ex, a):
            e = lt.sub(lt.sub(a[0], a[1]), a[2])
            if type(e) is int: return (e & (1 << 64) - 1, 1 if e < 0 else 0)
            return (lt.wrap(e, 64), lt.scale(lt.floor(e, 64), -1))
        c[P + 'SubWithBorrow'] = sbb
        return c
    def lemmas(self):
        "products of split values: 0 <= (sum of words)*(sum of words) <= hi*hi', stated on the word monomials"
        lt = self.lt; out = []
        wd = getattr(self, 'worddefs', {})
        at = {a.id: a for a in lt.atoms}
        vs = list(wd)
        for i, x in enumerate(vs):
            for y in vs[i:]:
                p = lt.mul(wd[x], wd[y])
                out.append(lt.ge(p))
                if at[x].hi is not None and at[y].hi is not None: out.append(lt.ge(lt.sub(at[x].hi * at[y].hi, p)))
        return [o for o in out if o is not True]
    def bounded(self, ex, E, hi):
        lt = self.lt
        return lt.prove(ex.pc, lt.band(lt.ge(E), lt.ge(lt.sub(hi, E))), self.lemmas(), 20)[0] == 'unsat'
    # ------------------------------------------------ congruence goals
    def pathrules(self, pc, m, d=None, wraps=False):
        """consequences of the path usable as rewriting modulo m: atoms fixed by an equality, halves with a known remainder"""
        lt = self.lt; rules = {}
        inv2 = pow(2, -1, m)
        for c, pol in pc:
            while isinstance(c, LBool) and c.k == 'not': c, pol = c.a, not pol
            if isinstance(c, LBool) and c.k == 'eq' and pol:
                x = c.a
                if any(b.name[0] == 'f' for b in x.t): continue
                for a, k in x.t.items():
                    if abs(k) == 1 and a.mono is None and a.id not in rules and a.id not in lt.defs and not any(a.id == key[1] for key in ()):
                        if any(True for b in x.t if b is not a and b.mono): continue
                        if a.name[0] == 'f': continue
                        rest = lt.sub(x, Lin(lt, {a: k}, 0))
                        rules[a.id] = lt.lift(lt.scale(rest, -k)); break
        cl = self.closure(d, m, rules) if d is not None else None
        for key, t in list(lt.cache.items()):
            if key[0] != 'fl' or cl is not None and t.id not in cl: continue
            if key[2] != 2 and not (wraps and key[2] in (1 << 256, 1 << 384)): continue
            if key[2] != 2:
                for rem in (0, -1, 1):
                    if lt.prove(pc, lt.eq0(lt.sub(Lin(lt, {t: 1}, 0), rem)), (), 5)[0] == 'unsat':
                        rules[t.id] = lt.lift(rem); break
                continue
            e = lt.mk({lt.atoms[i]: k for i, k in key[1][0]}, key[1][1])
            d = lt.sub(e, Lin(lt, {t: 2}, 0))
            for rem in (0, 1):
                if lt.prove(pc, lt.eq0(lt.sub(d, rem)), (), 10)[0] == 'unsat':
                    rules[t.id] = lt.lift(lt.scale(lt.sub(e, rem), inv2)); break
        return rules
    def closure(self, d, m, rules):
        lt = self.lt; seen = set(); st = list(lt.lift(d).t)
        fl = {t.id: key for key, t in lt.cache.items() if key[0] == 'fl'}
        rr = lt.rules.get(m, {})
        while st:
            a = st.pop()
            if a.id in seen: continue
            seen.add(a.id)
            st += list(a.mono or ())
            for tab in (rules, rr, lt.defs):
                x = tab.get(a.id)
                if isinstance(x, Lin): st += list(x.t)
            if a.id in fl: st += [lt.atoms[i] for i, k in fl[a.id][1][0]]
        return seen
    def cong(self, pc, d, m, tmo=None, words=True):
        "d == 0 modulo m on this path"
        r = self.cong1(pc, d, m, tmo, False)
        return r if r[0] == 'unsat' else self.cong1(pc, d, m, tmo, True)
    def cong1(self, pc, d, m, tmo, wraps):
        lt = self.lt
        if type(d) is int: return ('unsat', None) if d % m == 0 else ('sat', {})
        rules = self.pathrules(pc, m, d, wraps)
        wd = getattr(self, 'worddefs', {})
        r = dict(rules)
        for k, v in wd.items():
            if k not in r and k not in lt.rules.get(m, {}): r[k] = v
        return lt.prove_cong(pc, d, m, self.lemmas() if wd else (), tmo, r)
def redc_int(T, m, n):
    k = (T * pow(-m, -1, 1 << n)) % (1 << n)
    return (T + k * m) >> n
