"""C04: 256- and 384-bit integers, both architectures, bit-precise."""
import z3
from frame import *
from spec import *
import bv
from bv import TH, BV, BB, BBig, word, cat, tow, tobool, mkw, mkb
LEVEL = 'proof'
OUTSIDE = ['big integers in conversions: |value| < 2^1000']
NW = {'fqrepr': 6, 'frrepr': 4}
def b_prim(ex):
    def wide(n):
        return lambda x, w: z3.ZeroExt(n - w, tow(x, w))
    def addw(ex, a):
        z = wide(128); s = z(a[0], 64) + z(a[1], 64) + z(a[2], 64)
        return mkw(z3.Extract(63, 0, s)), mkw(z3.Extract(127, 64, s))
    def subw(ex, a):
        z = wide(128); s = z(a[0], 64) - z(a[1], 64) - z(a[2], 64)
        return mkw(z3.Extract(63, 0, s)), mkw(z3.ZeroExt(63, z3.Extract(127, 127, s)))
    def mac(ex, a):
        z = wide(128); s = z(a[0], 64) + z(a[1], 64) * z(a[2], 64) + z(a[3], 64)
        return mkw(z3.Extract(63, 0, s)), mkw(z3.Extract(127, 64, s))
    def spl(e, n=6): return tuple(mkw(z3.Extract(64 * i + 63, 64 * i, e)) for i in range(n))
    return {P + 'AddWithCarry': addw, P + 'SubWithBorrow': subw, P + 'MACWithCarry': mac,
            P + 'AddNoCarry': lambda ex, a: spl(cat(a[0]) + cat(a[1])), P + 'SubNoBorrow': lambda ex, a: spl(cat(a[0]) - cat(a[1]))}
def mkarg(ex, so, name, arch, vars):
    "symbolic argument: returns (engine value, z3 value)"
    if isinstance(so, SPtr):
        v, e = mkarg(ex, so.s, name, arch, vars)
        return ex.new(v, 'arg ' + name), e
    if isinstance(so, SRepr):
        ws = tuple(word('%s_%d' % (name, i)) for i in range(so.w)); vars.append((name, cat(ws))); return ws, cat(ws)
    if so.name == 'u64': w = word(name); vars.append((name, w.e)); return w, w.e
    if so.name in ('shift', 'idx'):
        n = 64 if arch == 'amd64' else 32
        w = word(name, n); vars.append((name, w.e)); return w, w.e
    if isinstance(so, SBytes):
        ws = tuple(word('%s_%d' % (name, i), 8) for i in range(so.n)); e = z3.Concat(*[x.e for x in ws]); vars.append((name, e)); return ws, e
    if so.name == 'big':
        e = z3.BitVec(name, bv.BIGW); vars.append((name, e)); return BBig(e), e
    raise Unsupported('argument sort ' + so.name)
def zx(e, n): return z3.ZeroExt(n - e.size(), e) if e.size() < n else z3.Extract(n - 1, 0, e) if e.size() > n else e
def bv1(e): return bv.tobool(e) if not z3.is_expr(e) else e
def boolout(x): return tobool(x)
def intout(x, arch):
    n = 64 if arch == 'amd64' else 32
    return x.e if isinstance(x, BV) else z3.BitVecVal(x, n)
def formula(s, a, arch):
    "expected outputs in the order of s.outs, as z3 values (None: unspecified)"
    nm = s.fn.split(').')[-1].replace(P, ''); n = a[0].size()
    I = 64 if arch == 'amd64' else 32
    def cmp(x, y): return z3.If(x == y, z3.BitVecVal(0, I), z3.If(z3.ULT(x, y), z3.BitVecVal(-1, I), z3.BitVecVal(1, I)))
    if nm == 'IsOdd': return [z3.Extract(0, 0, a[0]) == 1]
    if nm in ('IsEven', 'isEven'): return [z3.Extract(0, 0, a[0]) == 0]
    if nm == 'IsZero': return [a[0] == 0]
    if nm == 'Equals': return [a[0] == a[1]]
    if nm == 'Cmp': return [cmp(a[0], a[1])]
    if nm == 'Copy': return [a[0]]
    if nm == 'Div2': return [z3.LShR(a[0], 1)]
    if nm == 'Mul2': return [a[0] << 1]
    if nm in ('Rsh', 'Lsh'):
        k = zx(a[1], n)
        return [z3.LShR(a[0], k) if nm == 'Rsh' else a[0] << k]
    if nm == 'AddNoCarry': return [a[0] + a[1]]
    if nm == 'SubNoBorrow': return [a[0] - a[1]]
    if nm == 'BitLen':
        r = z3.BitVecVal(0, I)
        for k in range(n): r = z3.If(z3.Extract(k, k, a[0]) == 1, z3.BitVecVal(k + 1, I), r)
        return [r]
    if nm == 'Bit': return [z3.Extract(0, 0, z3.LShR(a[0], zx(a[1], n))) == 1]
    if nm in ('Bytes', 'FQReprFromBytes', 'FRReprFromBytes', 'ToBig'): return [a[0]]
    if nm in ('FQReprFromBigInt', 'FRReprFromBigInt'):
        w = 384 if nm.startswith('FQ') else 256
        bad = z3.Or(a[0] < 0, a[0] >= z3.BitVecVal(1, a[0].size()) << w)
        return [bad, (z3.Not(bad), z3.Extract(w - 1, 0, a[0]))]
    if nm == 'ToFQ': return [z3.ZeroExt(128, a[0])]
    if nm in ('NewFQRepr', 'NewFRRepr'):
        w = 384 if nm.startswith('NewFQ') else 256
        return [z3.ZeroExt(w - 64, a[0])]
    raise Unsupported('no formula for ' + nm)
def outval(ex, so, v, arch):
    if isinstance(so, SPtr):
        if v is None: return None
        return outval(ex, so.s, ex.load(v), arch)
    if isinstance(so, SRepr): return cat(v)
    if isinstance(so, SBytes): return z3.Concat(*[tow(x, 8) for x in v])
    if so.name == 'bool': return tobool(v)
    if so.name == 'err': return z3.BoolVal(v is not None)
    if so.name == 'int': return intout(v, arch)
    if so.name == 'big': return bv.tobig(v)
    raise Unsupported('output sort ' + so.name)
def prove_spec(s, arch, alias=()):
    def go(ctx):
        ex = ctx.exec(arch); ex.contracts.update(b_prim(ex)); ex.feasible = TH.feasible; ex.loop_bound = 520
        nm = s.fn.split(').')[-1].replace(P, '')
        recs = []; st = {}
        tag = '%s [%s]%s' % (s.fn.replace(P, ''), arch, ' same object' if alias else '')
        def body(ex):
            vars = []; vals = []; zs = []
            for i, so in enumerate(s.args):
                if alias and i == 1: vals.append(vals[0]); zs.append(zs[0]); continue
                v, z = mkarg(ex, so, 'x%d' % i, arch, vars); vals.append(v); zs.append(z)
            st['vars'] = vars; st['zs'] = zs
            if nm == 'Bit': ex.assume(mkb(z3.ULT(zs[1], zs[0].size())))
            for so, z in zip(s.args, zs):
                if so.name in ('big', '*big'):
                    m = z3.BitVecVal(1, z.size()) << 1000
                    ex.assume(mkb(z3.And(z < m, z > -m)))
            r = ex.call(s.fn, tuple(vals))
            rs = r if len(ctx.w[arch].p.raw[s.fn]['results']) != 1 else (r,)
            got = [outval(ex, so, (vals if wh == 'post' else rs)[k], arch) for (wh, k), so in s.outs]
            return zs, got
        n = 0; bad = None
        for pr in ex.explore(body, 3000):
            n += 1
            if pr.panic:
                k, m = TH.check(TH.pcs(pr.pc))
                if k == 'unsat': continue
                bad = ('panic: %s' % pr.panic.msg, m); break
            zs, got = pr.val
            for e, g in zip(formula(s, zs, arch), got):
                cond = []
                if isinstance(e, tuple): cond, e = [e[0]], e[1]
                if g is None:
                    k, m = TH.check(TH.pcs(pr.pc) + cond)
                    if k != 'unsat': bad = ('nil result', m)
                    continue
                if z3.is_bv(g) and g.size() != e.size():
                    if g.size() > e.size(): e = z3.ZeroExt(g.size() - e.size(), e)
                    else: bad = ('width', None); break
                k, m = TH.check(TH.pcs(pr.pc) + cond + [g != e])
                if k != 'unsat': bad = ('differs' if k == 'sat' else 'solver gave no answer', m); break
            if bad: break
        ok = bad is None and n > 0
        models = []
        if bad and bad[1] is not None:
            m = bad[1]; raws = []
            for so, z in zip(s.args, st['zs']):
                v = m.eval(z, model_completion=True)
                x = v.as_signed_long() if so.name in ('big', '*big') else v.as_long()
                if isinstance(so, SBytes): x = x.to_bytes(so.n, 'big')
                raws.append(x)
            models = [(s.fn, tuple(raws), alias, arch)]
        return Rec(tag, 'proved' if ok else 'refuted' if bad and bad[1] is not None else 'open', '%d paths' % n if ok else bad[0] if bad else 'no path', models=models)
    return go
def iterator(arch, nw):
    def go(ctx):
        ex = ctx.exec(arch); ex.feasible = TH.feasible
        ws = [word('w%d' % i) for i in range(nw)]
        bad = []
        def body(ex):
            it = ex.new(ex.call(P + 'NewBitIterator', (ex.mkslice_of(ws),)))
            out = []
            for k in range(64 * nw + 2): out.append(ex.call('(*' + P + 'BitIterator).Next', (it,)))
            return out
        for pr in ex.explore(body, 50):
            if pr.panic: return Rec('BitIterator %d words [%s]' % (nw, arch), 'open', pr.panic.msg)
            g = []
            for k in range(64 * nw):
                p = 64 * nw - 1 - k; b = z3.Extract(p % 64, p % 64, ws[p // 64].e) == 1
                g.append(z3.And(tobool(pr.val[k][0]) == b, tobool(pr.val[k][1]) == z3.BoolVal(False)))
            for k in (0, 1): g.append(tobool(pr.val[64 * nw + k][1]))
            k, m = TH.check(TH.pcs(pr.pc) + [z3.Not(z3.And(*g))])
            if k != 'unsat':
                if m is not None: bad = [m.eval(w.e, model_completion=True).as_long() for w in ws]
                return Rec('BitIterator %d words [%s]' % (nw, arch), 'refuted', 'bits differ for %s' % bad)
        return Rec('BitIterator %d words [%s]: all bits, most significant first' % (nw, arch), 'proved')
    return go
def specs(ctx): return [f for f, s in SPECS.items() if s.prop == 'C04']
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        for f in specs(ctx):
            s = SPECS[f]
            if not ctx.w[arch].p.exists(f): continue
            obs.append(Ob('%s [%s]' % (f.replace(P, ''), arch), prove_spec(s, arch), [f], 'all values of the operand types' , weight=20 if 'FromBigInt' in f or 'Rsh' in f or 'Lsh' in f else 1))
            if len(s.args) == 2 and isinstance(s.args[0], SPtr) and isinstance(s.args[1], SPtr):
                obs.append(Ob('%s [%s] same object' % (f.replace(P, ''), arch), prove_spec(s, arch, ((0, 1),)), [f]))
        for nw in (1, 4, 6): obs.append(Ob('BitIterator %d [%s]' % (nw, arch), iterator(arch, nw), ['BitIterator'], 'iterators over 1, 4 and 6 words'))
    return obs
def extra(S, rest, rng, full):
    "bit iterators on the real code"
    if not any('BitIterator' in r.name for r in rest) and not full: n = 3
    else: n = 60
    for arch in S.ctx.w:
        p = S.ctx.w[arch].p
        t = '*' + P + 'BitIterator'
        if t not in p.ptypes or not p.exists('(%s).Next' % t): continue
        cases = []; ins = []
        pools = [1, (1 << 64) - 1, 1 << 63, 0, 1 << 32, 0xffffffff, 1 << 31]
        for _ in range(n):
            ws = [rng.choice(pools + [rng.getrandbits(64)]) for _ in range(rng.randrange(0, 7))]
            ins.append(ws)
            calls = [{'fn': P + 'NewBitIterator', 'args': [{'l': [str(w) for w in ws]}]}, {'fn': '@new', 'args': [t, {'p': 1, 'v': {'ref': [0, 0]}}]}]
            calls += [{'fn': '(%s).Next' % t, 'args': [{'ref': [1, 0]}]}] * (64 * len(ws) + 1)
            cases.append({'calls': calls})
        try: outs = S.driver(arch, P[:-1]).run(cases)
        except Unsupported as e: S.notes.append(str(e)); return
        for ws, c, o in zip(ins, cases, outs):
            if 'outs' not in o: continue
            S.concrete += 1
            v = sum(w << (64 * i) for i, w in enumerate(ws)); k = 64 * len(ws)
            exp = [[bool((v >> (k - 1 - i)) & 1), False] for i in range(k)]
            got = [x.get('res', x.get('panic')) for x in o['outs'][2:]]
            if got[:k] != exp or not isinstance(got[k], list) or got[k][1] is not True:
                S.violation('BitIterator', arch, {'words': ws}, 'bit iteration over %s differs from the bits of the integer' % [hex(w) for w in ws]); return
    import scen, run
    scen.run(S, [f for f in specs(S.ctx) if f in run.scen_able(S)], full, per=1, nmut=1)
