"""C06: square roots, quadratic character, sign selection."""
from fieldops import *
from gexp import *
from ringops import RH, Ring, RE
import solve
LEVEL = 'proof'
ASSUME = ["Euler's criterion: a non-zero x is a square iff x^((N)/2) = 1, and the only other value is -1 (N the order of the multiplicative group)",
          'Frobenius is additive: (1+a)^q = 1 + a^q', 'q = 3 mod 4, so u*u = -1 has no solution in F_q and the norm of a non-zero FQ2 element is not zero']
NEG = 1 << 4000; U = 1 << 4001
def BGEN(i): return 1 << (4010 + i)
class MG(G):
    "multiplicative group of a field: the argument, -1, u, and sums 1+a as generators"
    def __init__(self, N, frob=None):
        G.__init__(self, 'mul', frob=frob); self.N = N; self.sums = []
        for lv, m in (('fq', Q), ('fr', R)): self.known[(lv, m - 1)] = {NEG: 1}
        self.known[('fq2', (Q - 1, 0))] = {NEG: 1}; self.known[('fq2', (0, 1))] = {U: 1}; self.known[('fq2', (0, Q - 1))] = {U: 1, NEG: 1}
    def iszero(self, ex, x): return False
    def reg(self, c, T):
        G.reg(self, c, T); lv = FAM[T]
        def L(ex, x):
            v = ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x
            if lv == 'fr' and type(v) is tuple:
                w = ex.load(v[0])
                if isinstance(w, GE): return w.e
            return self.lift(ex, v, lv)
        def reg(nm, f):
            c['(%s%s).%s' % (P, T, nm)] = f; c['(*%s%s).%s' % (P, T, nm)] = f
        reg('IsZero', lambda ex, a: False)
        def eq(ex, a):
            d = padd(L(ex, a[0]), L(ex, a[1]), -1)
            return ZB(d) if d else True
        reg('Equals', eq)
        if lv == 'fq2':
            def add(ex, a):
                x, y = L(ex, a[0]), L(ex, a[1])
                if x == {}: x, y = y, x
                if y != {}: raise Unsupported('sum of elements')
                for i, e in enumerate(self.sums):
                    if e == x: g = i; break
                else: self.sums.append(x); g = len(self.sums) - 1
                ex.store(a[0], self.el({BGEN(g): 1}, lv), 'contract')
            reg('AddAssign', add)
def member(target, rels):
    "is target an integer combination of rels? (solver finds the combination, which is then checked)"
    if not target: return True
    gens = sorted(set(g for r in [target] + rels for g in r))
    t = ['(set-logic QF_LIA)'] + ['(declare-const k%d Int)' % i for i in range(len(rels))]
    for g in gens:
        s = ' '.join('(* %s k%d)' % (num(r[g]), i) for i, r in enumerate(rels) if g in r)
        t.append('(assert (= (+ 0 0 %s) %s))' % (s, num(target.get(g, 0))))
    r = solve.run('\n'.join(t), 20, ['k%d' % i for i in range(len(rels))])
    if r[0] != 'sat': return False
    s = {}
    for i, x in enumerate(rels): s = padd(s, x, r[1].get('k%d' % i) or 0)
    return padd(s, target, -1) == {}
def facts(g, pc, half):
    "relations of the path; half: exponent N/2 of the argument"
    rel = [{0: g.N}, {NEG: 2}, {U: 2, NEG: -1}]; ne = []
    for c, pol in pc:
        if not isinstance(c, ZB): continue
        if c.neg: pol = not pol
        (rel if pol else ne).append(c.e)
    # x^(N/2) is 1 or -1
    for e in ne:
        if member(padd(e, padd({0: half}, {NEG: 1}, -1), -1), rel): rel.append({0: half}); break
        if member(padd(e, {0: half}, -1), rel): rel.append(padd({0: half}, {NEG: 1}, -1)); break
    return rel, ne
def multiplicative(fn, arch, T, N, kind, frob=None):
    def go(ctx):
        s = SPECS[fn]; name = '%s [%s]' % (fn.replace(P, ''), arch)
        g = MG(N, frob); ex = ctx.exec(arch); ex.contracts.update(g.contracts([T])); half = N // 2; lv = FAM[T]
        def body(ex):
            g.sums = []
            so = s.args[0]; v = g.arg(ex, lv)
            r = ex.call(fn, (ex.new(v) if isinstance(so, SPtr) else v,))
            if kind == 'leg': return r, list(g.sums)
            if r[1] is True: return (True, g.lift(ex, ex.load(r[0]) if isinstance(r[0], Ptr) else r[0], lv)), list(g.sums)
            return (r[1], None), list(g.sums)
        n = 0; bad = None; recs = []
        for pr in ex.explore(body, 16):
            if pr.panic: bad = 'panic ' + pr.panic.msg; break
            (v, sums) = pr.val; n += 1
            rel, ne = facts(g, pr.pc, half)
            # contradictory paths: 1 = -1
            if member({NEG: 1}, rel): continue
            if any(member(e, rel) for e in ne): continue
            isone = member({0: half}, rel); ism = member(padd({0: half}, {NEG: 1}, -1), rel)
            if kind == 'leg':
                if v == 1 and not isone or v == 2 and not ism or v not in (1, 2): bad = 'result %r: character %s' % (v, 1 if isone else -1 if ism else 'unknown'); break
                continue
            ok, e = v
            if ok is True:
                for i, a in enumerate(sums):
                    if member(pscale(a, Q + 1), rel) and any(member(padd(d, padd(a, {NEG: 1}, -1), -1), rel) for d in ne):
                        rel.append(padd({BGEN(i): Q - 1}, a))
                if not member(padd(pscale(e, 2), {0: 1}, -1), rel): bad = 'the result does not square to the operand'; break
            elif ok is False:
                if not ism: bad = 'refused although the operand may be a square'; break
            else: bad = 'flag'; break
        if not bad:
            # zero operand, by execution of the encoding
            ex = ctx.exec(arch); z = s.args[0]; b = z.s if isinstance(z, SPtr) else z
            zero = b.enc((0, 0) if lv == 'fq2' else 0)
            r = ex.call(fn, (ex.new(zero) if isinstance(z, SPtr) else zero,))
            if kind == 'leg' and r != 0: bad = 'zero: result %r' % (r,)
            if kind == 'sqrt' and (r[1] is not True or b.dec(r[0]) not in (0, (0, 0))): bad = 'zero'
        return Rec(name, 'proved' if not bad and n else 'open', bad or '%d paths' % n)
    return go
def leg2(fn, arch):
    def go(ctx):
        h = RH(ctx, arch, 'fq'); seen = []
        def lg(ex, a):
            v = ex.load(a[0]) if isinstance(a[0], Ptr) else a[0]
            seen.append(h.ring.lift(v, 'fq')); return 1
        for r in ('(*%sFQ).Legendre', '(%sFQ).Legendre'): h.ex.contracts[r % P] = lg
        v, m = h.build(fq2, 'x')
        r = h.ex.call(fn, (v,))
        ok = r == 1 and len(seen) == 1 and h.ring.prove([], h.ring.eq(seen[0], m[0] * m[0] + m[1] * m[1]), hyps=False)[0] == 'unsat'
        return Rec('%s [%s]: character of the norm' % (fn.replace(P, ''), arch), 'proved' if ok else 'open', '' if ok else 'result %r' % (r,))
    return go
def lex(fn, arch, nm):
    "comparison and sign of FQ2: the integer of c1 first, then c0"
    def go(ctx):
        h = H(ctx, arch, 6); h.invs = {}; lt = h.lt; lt.tmo = 25
        for r in ('(%sFQ).%s', '(*%sFQ).%s'):
            h.ex.contracts[r % (P, 'NegAssign')] = negc(h); h.ex.contracts[r % (P, 'ToRepr')] = toreprc(h, False)
        st = {}
        def body(ex):
            xs = []; vs = []
            for i in range(1 if nm == 'Parity' else 2):
                (a, x), (b, y) = h.arg(fq, 'x%d' % (2 * i)), h.arg(fq, 'x%d' % (2 * i + 1))
                vs.append((a, b)); xs.append((x, y))
            r = ex.call(fn, tuple(vs))
            return xs, r
        bad = None; n = 0; models = []
        for pr in h.ex.explore(body, 64):
            if pr.panic: bad = 'panic'; break
            n += 1; xs, r = pr.val
            T = lambda v: h.tocanon(v)
            if nm == 'Parity':
                a0, a1 = T(xs[0][0]), T(xs[0][1])
                big = lambda t: lt.ge(lt.sub(lt.scale(t, 2), Q + 1))
                want = lt.bor(big(a1), lt.band(lt.eq0(lt.lift(a1)), big(a0)))
                if not isinstance(r, (bool, LBool)): bad = 'result'; break
                goal = lt.eq(None, r, want)
                v = lt.prove(pr.pc, goal)
            else:
                d1, d0 = lt.sub(T(xs[0][1]), T(xs[1][1])), lt.sub(T(xs[0][0]), T(xs[1][0]))
                pos = lambda d: lt.ge(lt.sub(d, 1)); neg = lambda d: lt.ge(lt.sub(-1, d)); z = lambda d: lt.eq0(lt.lift(d))
                W = {1: lt.bor(pos(d1), lt.band(z(d1), pos(d0))), -1: lt.bor(neg(d1), lt.band(z(d1), neg(d0))), 0: lt.band(z(d1), z(d0))}
                if type(r) is int: v = lt.prove(pr.pc, W[r])
                elif isinstance(r, CmpInt):
                    v = ('unsat', None)
                    for k in (1, -1, 0):
                        e = r.th.rel(r.d, '==', k)
                        v = lt.prove(pr.pc, lt.eq(None, e, W[k]))
                        if v[0] != 'unsat': break
                else: bad = 'result'; break
            if v[0] != 'unsat': bad = 'differs: %s' % v[0]; break
        return Rec('%s [%s]' % (fn.replace(P, ''), arch), 'proved' if not bad and n else 'open', bad or '%d paths' % n)
    return go
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        ex = ctx.w[arch].p.exists
        for fn, mk, b in (('(FQ).Sqrt', lambda f: multiplicative(f, arch, 'FQ', Q - 1, 'sqrt'), 'every operand'),
                          ('(*FQ).Legendre', lambda f: multiplicative(f, arch, 'FQ', Q - 1, 'leg'), 'every operand'),
                          ('(*FR).Legendre', lambda f: multiplicative(f, arch, 'FR', R - 1, 'leg'), 'every operand'),
                          ('(FQ2).Sqrt', lambda f: multiplicative(f, arch, 'FQ2', Q * Q - 1, 'sqrt', Q), 'every operand'),
                          ('(FQ2).Legendre', lambda f: leg2(f, arch), 'every operand'),
                          ('(FQ2).Parity', lambda f: lex(f, arch, 'Parity'), 'every operand'),
                          ('(FQ2).Cmp', lambda f: lex(f, arch, 'Cmp'), 'every pair of operands'),
                          ('(FQ).Parity', lambda f: field_op(f, arch, 6, (), ('ToRepr', 'NegAssign')), 'every operand'),
                          ('(FR).Parity', lambda f: field_op(f, arch, 4, (), ('ToRepr', 'NegAssign')), 'every operand')):
            f = fullname(fn)
            if not ex(f): continue
            obs.append(Ob('%s [%s]' % (fn, arch), mk(f), [f], b, weight=3))
    return obs
FRSQRT = fullname('(FR).Sqrt')
def specs(ctx): return [f for f, s in SPECS.items() if s.prop == 'C06' and f != FRSQRT or f == fullname('(*FR).Legendre')]
# the square root of the scalar field is a stub that returns 1 (known-findings.txt): it has no obligation, and its runs are judged here
def is_known(v, k): return k.startswith('FR.Sqrt') and v['what'] == FRSQRT and 'returned 1, expected' in v['detail']
def concrete(S, rest, rng):
    import run
    run.default_concrete(S, sys.modules[__name__], rest, rng)
    if S.violations: return
    for arch in S.ctx.w:
        if FRSQRT in S.ctx.w[arch].p.raw: S.run_spec(SPECS[FRSQRT], arch, [((pow(x, 2, R),), ()) for x in (0, 1, 2, 3, R - 1, 1 << 200, 7 ** 80 % R)] + [((7,), ())], limit=99)
