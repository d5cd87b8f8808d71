"""C01: the multi-word primitives, assembly (amd64) and portable Go (386), are exact for every operand."""
from frame import *
from lin import LinTh, Lin
import asm, random
M64 = (1 << 64) - 1
LEVEL = 'proof'
PR = {'MACWithCarry': (1, 1, 1, 1), 'AddWithCarry': (1, 1, 1), 'SubWithBorrow': (1, 1, 1), 'AddNoCarry': (6, 6), 'SubNoBorrow': (6, 6), 'MultiplyFQRepr': (6, 6), 'MontReduce': (6, 6)}
NRES = {'MACWithCarry': 2, 'AddWithCarry': 2, 'SubWithBorrow': 2, 'AddNoCarry': 6, 'SubNoBorrow': 6, 'MultiplyFQRepr': 12, 'MontReduce': 6}
OUTSIDE = ['MontReduce: the bound < 2q is for hi*2^384+lo < q*2^384 (every product of canonical elements); for larger operands the result is the congruent value modulo 2^384',
           'SubWithBorrow: borrow inputs 0 and 1 (a borrow is one bit; the portable code documents it through bits.Sub64)']
ASSUME = ['amd64 instruction semantics as modelled in engine/asm.py (MOVQ, ADDQ, ADCQ, SUBQ, SBBQ, MULQ, SETCS ...); the calling convention ABI0']
def V(th, ws, sh=0):
    r = 0
    for i, x in enumerate(ws): r = th.add(r, th.scale(x, 1 << (64 * (i + sh))))
    return r
def callprim(ctx, arch, th, name, args):
    "args: list of words or word tuples. Returns the flat list of result words"
    ex = ctx.exec(arch); ex.epoch = 1; ex.contracts = {}
    # helpers that branch are used by what they compute; each has its own obligations
    def two(g):
        def c(ex, a):
            s = g(th, *a)
            return (s & M64, s >> 64) if type(s) is int else (th.wrap(s, 64), th.floor(s, 64))
        return c
    def subb(ex, a):
        d = th.sub(th.sub(a[0], a[1]), a[2])
        if type(d) is int: return d & M64, int(d < 0)
        return th.wrap(d, 64), th.scale(th.floor(d, 64), -1)
    H = {'AddWithCarry': two(lambda th, a, b, c: th.add(th.add(a, b), c)), 'MACWithCarry': two(lambda th, a, b, c, d: th.add(th.add(a, th.mul(b, c)), d)), 'SubWithBorrow': subb}
    for h, c in H.items():
        hf = ctx.w[arch].p.raw.get(P + h)
        if h != name and hf and not hf.get('external') and len(hf['blocks']) > 1: ex.contracts[P + h] = c
    ex.feasible = th.feasible
    f = ctx.w[arch].p.raw.get(P + name)
    if f is None: raise Unsupported('no ' + name)
    if f.get('external'):
        A = asm.Asm(asm.find())
        flat = [w for a in args for w in (a if isinstance(a, tuple) else (a,))]
        r = A.call(ex, th, name, flat, NRES[name])
        ctx.fns.add(name + ' (assembly)')
        return [([], r)]
    out = []
    def body(ex): return ex.call(P + name, tuple(args))
    for pr in ex.explore(body):
        if pr.panic: raise Unsupported('panic in %s' % name)
        v = pr.val
        flat = []
        def fl(x):
            if isinstance(x, tuple):
                for y in x: fl(y)
            else: flat.append(x)
        fl(v)
        out.append((pr.pc, flat))
    return out
def goals(th, name, a, r):
    W = 1 << 64
    add, sub, sc = th.add, th.sub, th.scale
    if name == 'MACWithCarry':
        return [('exact', 'eq', sub(add(r[0], sc(r[1], W)), add(add(a[0], th.mul(a[1], a[2])), a[3])))]
    if name == 'AddWithCarry': return [('exact', 'eq', sub(add(r[0], sc(r[1], W)), add(add(a[0], a[1]), a[2])))]
    if name == 'SubWithBorrow': return [('exact', 'eq', sub(sub(r[0], sc(r[1], W)), sub(sub(a[0], a[1]), a[2])))]
    if name == 'AddNoCarry': return [('sum modulo 2^384', 'cong', sub(V(th, r), add(V(th, a[0]), V(th, a[1]))), 1 << 384)]
    if name == 'SubNoBorrow': return [('difference modulo 2^384', 'cong', sub(V(th, r), sub(V(th, a[0]), V(th, a[1]))), 1 << 384)]
    if name == 'MultiplyFQRepr': return [('768-bit product', 'eq', sub(add(V(th, r[:6], 6), V(th, r[6:])), th.mul(V(th, a[0]), V(th, a[1]))))]
    if name == 'MontReduce':
        T = add(V(th, a[0], 6), V(th, a[1]))
        return [('result < 2q', 'ge', sub(2 * Q - 1, V(th, r))), ('2^384 * result = T mod q', 'cong', sub(sc(V(th, r), 1 << 384), T), Q)]
def modelraws(th, m, name, a):
    out = []
    for x in a:
        if isinstance(x, tuple): out.append(sum((th.value(m, w) % (1 << 64)) << (64 * i) for i, w in enumerate(x)))
        else: out.append(th.value(m, x))
    return tuple(out)
def prim(name, arch):
    def go(ctx):
        th = LinTh(); th.tmo = 60
        a = [tuple(th.word('a%d_%d' % (k, i)) for i in range(n)) if n > 1 else (th.var('c', 0, 1) if name == 'SubWithBorrow' and k == 2 else th.word('a%d' % k)) for k, n in enumerate(PR[name])]
        pre = []
        if name == 'MontReduce':
            pre = [th.ge(th.sub((Q << 384) - 1, th.add(V(th, a[0], 6), V(th, a[1]))))]
        recs = []
        # the operand range admits values (not vacuous)
        s = solve.run(th.text([], None, pre), 20)
        recs.append(Rec('%s [%s]: operands satisfying the assumptions exist' % (name, arch), 'proved' if s[0] == 'sat' else 'open', s[0]))
        for pc, r in callprim(ctx, arch, th, name, a):
            if len(r) != NRES[name]: raise Unsupported('result shape of ' + name)
            # results must be words
            for g in goals(th, name, a, r):
                nm = '%s [%s]: %s' % (name, arch, g[0])
                if g[1] == 'eq': v = th.prove(pc, th.eq0(g[2]), pre)
                elif g[1] == 'ge': v = th.prove(pc, th.ge(g[2]), pre)
                else: v = th.prove_cong(pc, g[2], g[3], pre)
                ok = v[0] == 'unsat'
                mod = [(P + name, modelraws(th, v[1], name, a), (), arch)] if v[0] == 'sat' and v[1] else []
                if not ok and not mod and name == 'MontReduce': mod = refine(ctx, [arch])
                recs.append(Rec(nm, 'proved' if ok else 'refuted' if v[0] == 'sat' else 'open', '' if ok else str(v[1])[:200], models=mod))
            return recs
    return go
def losamples():
    rng = random.Random(7)
    W = (1 << 384) - 1
    return [rng.getrandbits(384) for _ in range(3)] + [0, 1, W, QM1]
QM1 = Q - 1
def partial(arch):
    "an undecided MontReduce obligation again with the low half concrete: the Montgomery factors become constants and what is left is linear in the high half"
    for lo in losamples():
        th = LinTh(); th.tmo = 10
        yield th, [tuple(th.word('h%d' % i) for i in range(6)), tuple(lo >> 64 * i & M64 for i in range(6))], lo
def refine(ctx, archs):
    "models for MontReduce found with the low half concrete"
    mods = []
    for th, a, lo in partial(archs):
        try:
            want = (lo + lo * -pow(Q, -1, 1 << 384) % (1 << 384) * Q) >> 384
            outs = [(ar, callprim(ctx, ar, th, 'MontReduce', a)) for ar in archs]
            for ar, rs in outs:
                for pc, r in rs:
                    # exact value modulo 2^384
                    g = th.sub(V(th, r), th.add(V(th, a[0]), want))
                    v = th.prove_cong(pc, g, 1 << 384, [th.ge(th.sub(Q - 1, V(th, a[0])))])     # a product of canonical elements, if there is one
                    if v[0] != 'sat': v = th.prove_cong(pc, g, 1 << 384)
                    if v[0] == 'sat' and v[1]: mods.append((P + 'MontReduce', modelraws(th, v[1], 'MontReduce', a), (), ar))
        except Unsupported: pass
        if mods: break
    return mods
def wide(arch):
    def go(ctx):
        "every operand: congruent to T/2^384 once the carry out of 384 bits (0 or 1) is put back"
        th = LinTh(); th.tmo = 60
        a = [tuple(th.word('a%d_%d' % (k, i)) for i in range(6)) for k in (0, 1)]
        T = th.add(V(th, a[0], 6), V(th, a[1]))
        out = []
        for pc, r in callprim(ctx, arch, th, 'MontReduce', a):
            D = th.expand(th.sub(th.scale(V(th, r), 1 << 384), T))
            def red(x):
                def c1(c):
                    c %= Q
                    return c - Q if c > Q // 2 else c
                return th.lift(th.mk({k: c1(c) for k, c in x.t.items()}, c1(x.c)))
            d0 = red(D); d1 = th.lift(th.add(d0, red(th.lift(1 << 768))))
            v = th.prove(pc, th.bor(th.eq0(d0), th.eq0(d1)))
            out.append(Rec('MontReduce [%s]: congruent for every operand, up to the discarded carry' % arch, 'proved' if v[0] == 'unsat' else 'open', str(v[1])[:100] if v[0] != 'unsat' else ''))
        return out
    return go
def agree(ctx):
    th = LinTh(); th.tmo = 60
    a = [tuple(th.word('a%d_%d' % (k, i)) for i in range(6)) for k in (0, 1)]
    x = callprim(ctx, 'amd64', th, 'MontReduce', a); y = callprim(ctx, '386', th, 'MontReduce', a)
    out = []
    for pc, r in x:
        for pd, s in y:
            v = th.prove(pc + pd, th.eq0(th.sub(V(th, r), V(th, s))))
            out.append(Rec('MontReduce: assembly and portable code return the same value for every operand', 'proved' if v[0] == 'unsat' else 'open', str(v[1])[:100] if v[0] != 'unsat' else ''))
    return out
def obligations(ctx):
    obs = []
    if all(w.p.exists(P + 'MontReduce') for w in ctx.w.values()):
        for arch in ctx.w: obs.append(Ob('MontReduce wide [%s]' % arch, wide(arch), specs=[P + 'MontReduce'], weight=9, bound='MontReduce: all 768-bit operands'))
        if len(ctx.w) == 2: obs.append(Ob('MontReduce agreement', agree, specs=[P + 'MontReduce'], weight=9, bound='MontReduce: all 768-bit operands'))
    for arch in ctx.w:
        for n in PR:
            if ctx.w[arch].p.exists(P + n):
                obs.append(Ob('%s [%s]' % (n, arch), prim(n, arch), specs=[P + n], weight=10 if n == 'MontReduce' else 1, bound='all operands of %s on %s' % (n, arch)))
            else: obs.append(Ob('%s [%s]' % (n, arch), lambda c, n=n: Rec(n, 'open', 'function not present'), specs=[]))
    return obs
