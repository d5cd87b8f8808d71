"""Protocol level: points and pairing values by their discrete logarithms, as polynomials over F_r (equality of group
elements of order r is equality of logarithms); hashing to a group is an uninterpreted function of the message bytes;
message bytes are bit vectors. Group law, multiples, pairing, hashing and codec are used by contract (C03, C07..C13)."""
from frame import *
from spec import *
import spec
from ring import *
from gexp import SORT
import bv, z3
from bv import TH, BV, BB, tobool, tow
G1P, G2P = 'github.com/phoreproject/bls/g1pubs.', 'github.com/phoreproject/bls/g2pubs.'
class PT(Abs):
    __slots__ = ('th', 'n', 'lv')
    def __init__(self, th, n, lv): self.th = th; self.n = n; self.lv = lv
    def __repr__(self): return 'PT(%s)' % self.lv
class PTh:
    def __init__(self, h): self.h = h
    def eq(self, ex, x, y): raise Unsupported('raw comparison of abstract values')
    def ite(self, ex, c, a, b): raise MergeFail()
class Enc48(Abs):
    "compressed encoding of an abstract point"
    __slots__ = ('th', 'n', 'g')
    def __init__(self, th, n, g): self.th = th; self.n = n; self.g = g
    def proj(self, ex, i): raise Unsupported('byte of an abstract encoding')
AFF = {'g1': 'g1a', 'g2': 'g2a'}; PRJ = {'g1': 'g1p', 'g2': 'g2p'}
class Proto:
    def __init__(self, ctx, arch):
        self.ctx = ctx; self.arch = arch; self.ex = ctx.exec(arch)
        self.ring = Ring(mod=R); self.th = PTh(self); self.tab = []; self.decs = []
        self.ex.feasible = self.feasible
        self.ex.contracts.update(self.contracts())
    # ------------------------------------------------------------ solving
    def feasible(self, ex):
        bs = TH.pcs(ex.pc)
        if bs and TH.check(bs, 10)[0] == 'unsat': return False
        pc = [(c, p) for c, p in ex.pc if isinstance(c, RBool)]
        return not pc or solve.run(self.ring.text(pc), 3)[0] != 'unsat'
    def prove(self, pc, goal):
        "goal: RBool or bool over logarithms"
        if goal is True: goal = RBool(self.ring, 'eq', self.ring.c(0), self.ring.c(0))
        return self.ring.prove([(c, p) for c, p in pc if isinstance(c, RBool)], goal)
    def eqn(self, a, b):
        "equality left to the solver even when both sides are the same term"
        r = self.ring.eq(a, b)
        return r if r is not True else RBool(self.ring, 'eq', self.ring.c(a), self.ring.c(b))
    def same(self, pc, a, b): return self.prove(pc, self.eqn(a, b))[0] == 'unsat'
    def iff(self, a, b): return self.ring.bin(self.ex, '==', a, b, None, None, None)
    # ------------------------------------------------------------ values
    def pt(self, n, lv): return PT(self.th, self.ring.c(n), lv)
    def lift(self, v, fam):
        "logarithm of a value of a family: g1, g2, gt"
        if isinstance(v, (Ptr, PtrIte)): v = self.ex.load(v)
        if isinstance(v, PT):
            if v.lv[:2] != fam: raise Unsupported('%s where %s is expected' % (v.lv, fam))
            return v.n
        if v is None: raise GoPanic('nil dereference', self.ex.where())
        w = self.deep(v)
        if fam == 'gt':
            if fq12.dec(w) == ref.I12: return self.ring.c(0)
            raise Unsupported('constant of the target group')
        so = {'g1': (g1a, g1p), 'g2': (g2a, g2p)}[fam][0 if isinstance(w[2], bool) else 1]
        p = so.dec(w); c, gen = (ref.E1, ref.G1) if fam == 'g1' else (ref.E2, ref.G2)
        if p is None: return self.ring.c(0)
        if p == gen: return self.ring.c(1)
        if p == c.neg(gen): return self.ring.c(-1)
        raise Unsupported('constant point')
    def deep(self, v):
        if type(v) is Ptr: return Ptr(Obj(self.deep(self.ex.load(v))))
        if type(v) is tuple: return tuple(self.deep(x) for x in v)
        if isinstance(v, (Sym, Abs)): raise Unsupported('symbolic part of a constant')
        return v
    def fr(self, v):
        "term of an FR value {n *FRRepr}"
        if isinstance(v, (Ptr, PtrIte)): v = self.ex.load(v)
        if v is None: raise GoPanic('nil dereference', self.ex.where())
        w = self.ex.load(v[0])
        if isinstance(w, PT) and w.lv == 'fr': return w.n
        return self.ring.c(val(self.deep(w)) * RRI % R)
    def rep(self, v):
        "integer of a representation (as a term)"
        if isinstance(v, (Ptr, PtrIte)): v = self.ex.load(v)
        if v is None: raise GoPanic('nil dereference', self.ex.where())
        if isinstance(v, PT) and v.lv == 'rep': return v.n
        return self.ring.c(val(self.deep(v)))
    def mkfr(self, n): return self.ex.new((self.ex.new(self.pt(n, 'fr')),))
    def struct(self, T, kind, v):
        "a key or signature object: its element where the declared type has it, every other field at its zero value"
        prog = self.ctx.w[self.arch].p; t = prog.ptypes.get(self.pp + T) if self.pp else None
        fs = prog.under(t)['f'] if t is not None else [None]
        out = []; put = 0
        for f in fs:
            if f is None or prog.types[f]['s'].split('.')[-1] == kind and prog.types[f]['k'] == 'ptr': out.append(v); put += 1
            else: out.append(prog.zero(f))
        if put != 1: raise Unsupported('layout of ' + T)
        return self.ex.new(tuple(out))
    pp = None
    def where(self, T, kind):
        prog = self.ctx.w[self.arch].p; t = prog.ptypes.get(self.pp + T) if self.pp else None
        if t is None: return 0
        c = [i for i, f in enumerate(prog.under(t)['f']) if prog.types[f]['s'].split('.')[-1] == kind]
        if len(c) != 1: raise Unsupported('layout of ' + T)
        return c[0]
    def kind(self, fam): return ('PublicKey' if (fam[:2] == 'g1') == (self.pp == G1P) else 'Signature'), 'G%sProjective' % fam[1]
    def sk(self, n): return self.struct('SecretKey', 'FR', self.mkfr(n))
    def obj(self, n, lv): return self.struct(*self.kind(lv), self.ex.new(self.pt(n, lv)))
    def log(self, p, fam):
        "logarithm of a Signature/PublicKey object"
        v = self.ex.load(p) if isinstance(p, (Ptr, PtrIte)) else p
        return self.lift(v[self.where(*self.kind(fam))], fam)
    # ------------------------------------------------------------ hashing
    def H(self, name, vals):
        vals = tuple(vals); k = (name, len(vals))
        for kk, vv, n in self.tab:
            if kk == k and (all(x is y or (type(x) is int and type(y) is int and x == y) for x, y in zip(vals, vv)) or self.ex.decide(self.ex.valeq(vals, vv))): return n
        n = self.ring.var('h'); self.tab.append((k, vals, n)); return n
    def reset(self): self.tab = []; self.decs = []
    # ------------------------------------------------------------ contracts
    def contracts(self):
        c = {}; ex = self.ex; ring = self.ring
        def m(T, nm, f): c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        for fam, A, J in (('g1', 'G1Affine', 'G1Projective'), ('g2', 'G2Affine', 'G2Projective')):
            L = lambda a, fam=fam: self.lift(a, fam)
            a_, p_ = AFF[fam], PRJ[fam]
            for T, lv in ((A, a_), (J, p_)):
                m(T, 'Copy', lambda ex, a, L=L, lv=lv: ex.new(self.pt(L(a[0]), lv)))
                m(T, 'ToProjective', lambda ex, a, L=L, p_=p_: ex.new(self.pt(L(a[0]), p_)))
                m(T, 'ToAffine', lambda ex, a, L=L, a_=a_: ex.new(self.pt(L(a[0]), a_)))
                m(T, 'IsZero', lambda ex, a, L=L: ring.eq(L(a[0]), 0))
                for e in ('Equal', 'Equals'): m(T, e, lambda ex, a, L=L: ring.eq(L(a[0]), L(a[1])))
                def neg(ex, a, L=L, lv=lv): ex.store(a[0], self.pt(-L(a[0]), lv), 'contract')
                m(T, 'NegAssign', neg)
                mul = lambda ex, a, L=L, p_=p_: ex.new(self.pt(L(a[0]) * self.rep(a[1]), p_))
                m(T, 'Mul', mul); m(T, 'MulFR', mul)
                m(T, 'String', lambda ex, a: b'?')
            m(J, 'Add', lambda ex, a, L=L, p_=p_: ex.new(self.pt(L(a[0]) + L(a[1]), p_)))
            m(J, 'AddAffine', lambda ex, a, L=L, p_=p_: ex.new(self.pt(L(a[0]) + L(a[1]), p_)))
            m(J, 'Double', lambda ex, a, L=L, p_=p_: ex.new(self.pt(L(a[0]) + L(a[0]), p_)))
            m(A, 'IsOnCurve', lambda ex, a: True); m(A, 'IsInCorrectSubgroupAssumingOnCurve', lambda ex, a: True)
            k = fam[1]
            c[P + 'CompressG' + k] = lambda ex, a, L=L, k=k: Enc48(self.th, L(a[0]), k)
            def dec(ex, a, k=k, a_=a_):
                if isinstance(a[0], Enc48) and a[0].g == k: return (ex.new(self.pt(a[0].n, a_)), None)
                b = tuple(a[0])
                for bb, r in self.decs:
                    if len(bb) == len(b) and all(x is y for x, y in zip(bb, b)): break
                else:
                    r = ring.var('dec') if ex.decide(Choice('decodes', len(self.decs))) else None
                    self.decs.append((b, r))
                if r is None: return (None, Iface('error', ex.new(b'decode', 'error')))
                return (ex.new(self.pt(r, a_)), None)
            c[P + 'DecompressG' + k] = dec
        G = lambda a: self.lift(a, 'gt')
        m('FQ12', 'Copy', lambda ex, a: ex.new(self.pt(G(a[0]), 'gt')))
        m('FQ12', 'MulAssign', lambda ex, a: ex.store(a[0], self.pt(G(a[0]) + G(a[1]), 'gt'), 'contract'))
        m('FQ12', 'SquareAssign', lambda ex, a: ex.store(a[0], self.pt(G(a[0]) + G(a[0]), 'gt'), 'contract'))
        m('FQ12', 'ConjugateAssign', lambda ex, a: ex.store(a[0], self.pt(-G(a[0]), 'gt'), 'contract'))
        def inva(ex, a): ex.store(a[0], self.pt(-G(a[0]), 'gt'), 'contract'); return True
        m('FQ12', 'InverseAssign', inva)
        m('FQ12', 'Equals', lambda ex, a: self.eqn(G(a[0]), G(a[1])))
        pair = lambda p, q: self.lift(p, 'g1') * self.lift(q, 'g2')
        c[P + 'Pairing'] = lambda ex, a: ex.new(self.pt(pair(a[0], a[1]), 'gt'))
        c[P + 'CompareTwoPairings'] = lambda ex, a: self.eqn(pair(a[0], a[1]), pair(a[2], a[3]))
        for nm, lv, aff in (('HashG1', 'g1a', 0), ('HashG2', 'g2a', 0)):
            c[P + nm] = lambda ex, a, nm=nm, lv=lv: ex.new(self.pt(self.H(nm, ex.slice_vals(a[0])), lv))
        c[P + 'HashG2WithDomain'] = lambda ex, a: ex.new(self.pt(self.H('HashG2WithDomain', tuple(a[0]) + tuple(a[1])), 'g2p'))
        # scalars
        F = self.fr
        m('FR', 'ToRepr', lambda ex, a: ex.new(self.pt(F(a[0]), 'rep')))
        m('FR', 'Copy', lambda ex, a: self.mkfr(F(a[0])))
        m('FR', 'String', lambda ex, a: b'?')
        m('FR', 'Equals', lambda ex, a: ring.eq(F(a[0]), F(a[1])))
        m('FR', 'IsZero', lambda ex, a: ring.eq(F(a[0]), 0))
        def put(ex, p, n):
            v = ex.load(p) if isinstance(p, (Ptr, PtrIte)) else p
            ex.store(v[0], self.pt(n, 'fr'), 'contract')
        m('FR', 'AddAssign', lambda ex, a: put(ex, a[0], F(a[0]) + F(a[1]))); m('FR', 'SubAssign', lambda ex, a: put(ex, a[0], F(a[0]) - F(a[1])))
        m('FR', 'MulAssign', lambda ex, a: put(ex, a[0], F(a[0]) * F(a[1]))); m('FR', 'NegAssign', lambda ex, a: put(ex, a[0], -F(a[0])))
        m('FRRepr', 'Copy', lambda ex, a: ex.new(self.pt(self.rep(a[0]), 'rep')))
        def toFR(ex, a):
            v = ex.load(a[0])
            if not isinstance(v, PT) and val(self.deep(v)) >= R: return None
            return self.mkfr(self.rep(v))
        c[P + 'FRReprToFR'] = toFR
        return c
    # ------------------------------------------------------------ memory
    def reach(self, v, acc=None):
        "objects reachable from a value"
        acc = {} if acc is None else acc
        st = [v]
        while st:
            x = st.pop()
            if type(x) is Ptr:
                if id(x.obj) not in acc: acc[id(x.obj)] = x.obj; st.append(x.obj.v)
            elif type(x) is Slice:
                if id(x.obj) not in acc: acc[id(x.obj)] = x.obj; st.append(x.obj.v)
            elif type(x) is tuple: st += list(x)
            elif type(x) is PtrIte: st += [x.a, x.b]
            elif type(x) is Iface: st.append(x.v)
        return acc
    def shares(self, r, args):
        "does the result share an object with the arguments or with package-level values"
        a = self.reach(r)
        b = self.reach(tuple(args)); 
        for i, o in a.items():
            if i in b: return 'an argument'
            if o.tag and (o.tag.startswith('global:') or o.tag.startswith('reach:')): return o.tag
        return None
def msgval(h, name, L, sym=None):
    "byte slice of length L; sym: positions that are symbolic (None: all)"
    if L is None: return None
    bs = [BV(z3.BitVec('%s_%d' % (name, i), 8)) if sym is None or i in sym else 0x55 for i in range(L)]
    return tuple(bs)
def writes(ev, allow=()):
    "stores to objects that existed before"
    return [e for e in ev if e.kind == 'store' and e.obj not in allow]
