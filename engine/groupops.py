"""Obligations about powers and scalar multiples."""
from frame import *
from spec import *
from gexp import *
NW = {'fqrepr': 6, 'frrepr': 4}
def positions(maxbits, tier, full=False):
    if tier == 'thorough' or full: return list(range(-1, maxbits))
    s = {-1, 0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 150, 191, 192, 193, 200, 253, 254, 255, 256, 257, 300, 319, 320, 321, 379, 380, 381, 382, 383, 400, 447, 448, 507, 511, 512}
    return sorted(x for x in s if x < maxbits)
def power(fn, arch, kind, types, maxbits, pos):
    "argument times/to the power of a scalar whose leading bit is at a position in pos, all lower bits symbolic"
    def go(ctx):
        s = SPECS[fn]; name = fn.replace(P, '')
        recs = []; done = []; bad = None
        for Lp in pos:
            G_ = G(kind); ex = ctx.exec(arch, merge=True); ex.contracts.update(G_.contracts(types)); ex.contracts.update(bitcontracts())
            def body(ex):
                vals = []
                for so in s.args:
                    b = so.s if isinstance(so, SPtr) else so
                    if b.name in SORT: v = G_.arg(ex, b.name)
                    elif b.name in NW: v = scalar(Lp, NW[b.name], 'words')
                    elif b.name == 'big': v = scalar(Lp, 0, 'big')
                    else: raise Unsupported('argument sort ' + b.name)
                    vals.append(ex.new(v, 'arg') if isinstance(so, SPtr) else v)
                keep = [(i, ex.load(v)) for i, v in enumerate(vals) if isinstance(v, Ptr)]
                keep = [(i, old if not (type(old) is tuple and len(old) == 1) else ex.load(old[0])) for i, old in keep]
                r = ex.call(fn, tuple(vals))
                (wh, k), so = s.outs[0]
                v = r if wh == 'res' else vals[k]
                b = so.s if isinstance(so, SPtr) else so
                if isinstance(v, (Ptr, PtrIte)): v = ex.load(v)
                if b.name == 'fr' and type(v) is tuple: 
                    w = ex.load(v[0]); e = w.e if isinstance(w, GE) else G_.lift(ex, v, 'fr')
                else: e = G_.lift(ex, v, b.name)
                un = []
                for i, old in keep:
                    if any(wh2 == 'post' and k2 == i for (wh2, k2), _ in s.outs): continue
                    now = ex.load(vals[i])
                    if type(now) is tuple and len(now) == 1: now = ex.load(now[0])
                    if isinstance(old, GE): un.append(('operand %d unchanged' % i, padd(G_.lift(ex, now, old.lv), old.e, -1)))
                    elif isinstance(old, BigB): un.append(('operand %d unchanged' % i, {} if now is old else {0: 1}))
                    elif type(old) is tuple and not isinstance(now, BigB):
                        d = {}
                        for j, (x, y) in enumerate(zip(old, now)):
                            for t, (p, q) in enumerate(zip(bits(x, 64), bits(y, 64))):
                                d = padd(d, padd(pb(p), pb(q), -1), 1 << (64 * j + t))
                        un.append(('operand %d unchanged' % i, d))
                return e, un
            for pr in ex.explore(body, 8):
                if pr.panic: bad = (Lp, 'panic: ' + pr.panic.msg, ('sat', {})); break
                zero = any(isinstance(c, Choice) and p for c, p in pr.pc)
                e, un = pr.val
                for lab, d in ([] if zero else [('value', padd(e, expected(Lp), -1))]) + un:
                    v = check(d)
                    if v[0] != 'unsat': bad = (Lp, lab, v); break
                if bad: break
            if bad: break
            done.append(Lp)
        if not bad: return Rec('%s [%s] leading bit at %s' % (name, arch, rng(done)), 'proved', '%d positions' % len(done))
        models = []
        Lp, lab, v = bad
        if v[0] == 'sat':
            k = (1 << Lp if Lp >= 0 else 0) + sum(1 << int(b[1:]) for b, x in (v[1] or {}).items() if x == 1)
            r0 = random.Random(5)
            for t in range(4):
                raws = []
                for so in s.args:
                    b = so.s if isinstance(so, SPtr) else so
                    raws.append(k if b.name in NW or b.name == 'big' else r0.choice(b.pool(r0, 3)[1:]))
                models.append((fn, tuple(raws), (), arch))
        return Rec('%s [%s] leading bit at %s' % (name, arch, Lp), 'refuted' if models else 'open', '%s: %s' % (lab, v[0]), models=models)
    return go
def rng(xs):
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return ','.join('%d' % a if a == b else '%d-%d' % (a, b) for a, b in out)
def power_obs(ctx, fn, kind, types, maxbits, chunk=8, archs=None, full=False):
    obs = []
    for arch in (archs or ctx.w):
        if arch not in ctx.w or not ctx.w[arch].p.exists(fn): continue
        ps = positions(maxbits, ctx.tier, full)
        # long positions cost most: interleave them over the chunks
        nch = max(1, (len(ps) + chunk - 1) // chunk)
        for j in range(nch):
            sub = ps[j::nch]
            obs.append(Ob('%s [%s] %d' % (fn.replace(P, ''), arch, j), power(fn, arch, kind, types, maxbits, sub), [fn],
                          'scalars with leading bit at positions %s, all lower bits symbolic' % rng(ps), weight=20, timeout=400))
    return obs

def fermat(fn, arch, T, mod, other):
    "inversion by a power: the exponent is -1 modulo the order of the multiplicative group; the other way to decide it where this does not apply"
    lv = FAM[T]
    def go(ctx):
        t = '%s [%s]' % (fn.replace(P, ''), arch); s = SPECS[fn]
        try:
            G_ = G('mul'); ex = ctx.exec(arch, merge=True); ex.contracts.update(G_.contracts([T])); ex.contracts.update(bitcontracts())
            inv = [k for k in ex.contracts if k.endswith('.Inverse')]
            for k in inv: del ex.contracts[k]
            def isz(ex, a):
                v = ex.load(a[0]) if isinstance(a[0], (Ptr, PtrIte)) else a[0]
                if lv == 'fr' and type(v) is tuple: w = ex.load(v[0]) if isinstance(v[0], (Ptr, PtrIte)) else None
                else: w = v
                if isinstance(w, GE): return False
                return G_.ground(ex, v, lv) == 0
            for st in ('', '*'): ex.contracts['(%s%s%s).IsZero' % (st, P, T)] = isz
            n = 0
            def body(ex):
                r = ex.call(fn, (G_.arg(ex, lv),))
                ok = True
                if type(r) is tuple and len(r) == 2: r, ok = r
                if r is None or ok is not True: return None
                r = ex.load(r) if isinstance(r, (Ptr, PtrIte)) else r
                if lv == 'fr' and type(r) is tuple:
                    w = ex.load(r[0])
                    if isinstance(w, GE): return w.e
                return G_.lift(ex, r, lv)
            for pr in ex.explore(body, 4):
                if pr.panic or pr.val is None: raise Unsupported('no inverse')
                if check(padd(pr.val, {0: -1}, -1), mod - 1)[0] != 'unsat': raise Unsupported('not the exponent of the inverse')
                n += 1
            if not n: raise Unsupported('no path')
            # zero has no inverse
            ex = ctx.exec(arch)
            def zero(ex): return ex.call(fn, (SORT[lv].enc(0),))
            for pr in ex.explore(zero, 4):
                v = pr.val if lv != 'fq' else pr.val[1]
                if pr.panic or v not in (None, False): raise Unsupported('zero')
            return [Rec('%s: a power of the operand equal to its inverse; none for zero' % t, 'proved', '%d paths' % n)]
        except (Unsupported, MergeFail, AttributeError, TypeError, Bound) as e: pass
        return other(ctx)
    return go
FACTORS = {'G1': {3: 1, 11: 2, 10177: 2, 859267: 2, 52437899: 2, R: 1},
           'G2': {13: 2, 23: 2, 2713: 1, 11953: 1, 262069: 1, ref.H2 // (13 * 23) ** 2 // (2713 * 11953 * 262069): 1, R: 1}}
def orders(which, paths):
    """a test made of tests for zero multiples: the order of a point divides that of the curve, so its valuations at the primes
    are variables and a multiple by k is zero when none exceeds that of k. Does the test differ from 'the multiple by r is
    zero' for some order?"""
    fs = FACTORS[which]; n = 1
    for p, e in fs.items(): n *= p ** e
    if n != (ref.H1 if which == 'G1' else ref.H2) * R: raise Unsupported('order of the curve')
    ps = list(fs); t = ['(set-logic QF_LIA)']
    for i, p in enumerate(ps): t.append('(declare-const v%d Int)(assert (and (<= 0 v%d) (<= v%d %d)))' % (i, i, i, fs[p]))
    def zero(k):
        if k == 0: return 'true'
        o = []
        for i, p in enumerate(ps):
            v = 0; x = abs(k)
            while x % p == 0: x //= p; v += 1
            o.append('(<= v%d %d)' % (i, min(v, fs[p])))
        return '(and %s)' % ' '.join(o)
    lit = lambda c: ('true' if c else 'false') if isinstance(c, bool) else zero(c[0]) if c[1] else '(not %s)' % zero(c[0])
    t.append('(assert (< 0 (+ %s)))' % ' '.join('v%d' % i for i in range(len(ps))))
    t.append('(assert (or %s))' % ' '.join('(and %s (not (= %s %s)))' % (' '.join(map(lit, cs)) or 'true', lit(r), zero(R)) for cs, r in paths))
    vs = ['v%d' % i for i in range(len(ps))]
    # square-free orders first: they always occur
    v = solve.run('\n'.join(t + ['(assert (<= %s 1))' % x for x in vs]), 20, vs)
    if v[0] == 'unsat': v = solve.run('\n'.join(t), 20, vs)
    return v, ps, n
def oforder(which, n, m):
    "a point of order m on the curve whose group has n elements"
    c = ref.E1 if which == 'G1' else ref.E2; rnd = random.Random(11); ds = [p for p in FACTORS[which] if m % p == 0]
    for _ in range(60):
        x = rnd.randrange(Q) if which == 'G1' else (rnd.randrange(Q), rnd.randrange(Q))
        y = c.fsqrt(c.rhs(x))
        if y is None: continue
        full = 1
        for d in ds: full *= d ** FACTORS[which][d]
        p = c.mul((x, y), n // full); o = full
        for d in ds:
            while o % d == 0 and c.mul(p, o // d) is None: o //= d
            while o % d == 0 and o // d % m == 0: p = c.mul(p, d); o //= d
        if o == m and p is not None: return p
def fixed(fn, arch, types, want, test=False):
    "a fixed multiple of the argument (test: the function tells whether that multiple is zero)"
    def go(ctx):
        s = SPECS[fn]; name = '%s [%s]' % (fn.replace(P, ''), arch)
        G_ = G('add'); ex = ctx.exec(arch, merge=False); ex.contracts.update(G_.contracts(types)); ex.contracts.update(bitcontracts())
        def body(ex):
            so = s.args[0]; b = so.s if isinstance(so, SPtr) else so
            v = G_.arg(ex, b.name)
            r = ex.call(fn, (ex.new(v) if isinstance(so, SPtr) else v,))
            if test: return r
            return G_.lift(ex, ex.load(r) if isinstance(r, (Ptr, PtrIte)) else r, s.outs[0][1].s.name)
        bad = None; n = 0; paths = []
        for pr in ex.explore(body, 64 if test else 8):
            if pr.panic: bad = 'panic: ' + pr.panic.msg; break
            zero = any(isinstance(c, Choice) and p for c, p in pr.pc)
            n += 1
            if test and not zero:
                try: paths.append(([konst(c, p) for c, p in pr.pc if not isinstance(c, Choice)], pr.val if isinstance(pr.val, bool) else konst(pr.val, True))); continue
                except Unsupported as e: bad = str(e); break
            if zero:
                if test and pr.val is not True and not (isinstance(pr.val, ZB) and not pr.val.neg): bad = 'infinity'
                continue
            e = pr.val
            if check(padd(e, {0: want}, -1))[0] != 'unsat': bad = 'multiple %s' % {k: hex(v) for k, v in e.items()}; break
        if test and not bad and paths:
            which = 'G1' if 'G1' in fn else 'G2'
            v, ps, size = orders(which, paths)
            if v[0] == 'sat' and v[1]:
                m = 1
                for i, p in enumerate(ps): m *= p ** (v[1].get('v%d' % i) or 0)
                p = oforder(which, size, m); b = s.args[0].s if isinstance(s.args[0], SPtr) else s.args[0]
                if p is not None: return Rec(name, 'refuted', 'a point of order %d' % m, models=[(fn, (p,), (), arch)])
            if v[0] != 'unsat': bad = 'differs for some order: %s' % v[0]
        return Rec(name, 'proved' if not bad and n else 'open', bad or '%d paths' % n)
    if not test: return go
    def tested(ctx):
        "what stays open is tried on points of every small order, alone and times r"
        which = 'G1' if 'G1' in fn else 'G2'; size = (ref.H1 if which == 'G1' else ref.H2) * R
        try: r = go(ctx)
        except (Unsupported, MergeFail, Bound) as e: r = Rec('%s [%s]' % (fn.replace(P, ''), arch), 'open', str(e))
        if r.status == 'open':
            ps = [oforder(which, size, m) for p in FACTORS[which] for m in ([p, p * R] if p != R else [R])]
            r.models = [(fn, (p,), (), arch) for p in ps if p is not None]
        return r
    return tested
def konst(c, pol):
    "the multiple of the argument whose being zero a condition is about, and the sense of the test"
    if not isinstance(c, ZB): raise Unsupported('condition %r is not a zero test' % (c,))
    if any(k and x for k, x in c.e.items()): raise Unsupported('a multiple that is not fixed')
    return c.e.get(0, 0), bool(pol) != bool(c.neg)
