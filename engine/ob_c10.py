"""C10: uncompressed serialization."""
from codec import *
LEVEL = 'proof'
OUTSIDE = ['every point with canonical coordinates on the curve, infinity, and every previous content of the receiver']
ASSUME = ['(0,1) is on neither curve']
f = lambda t: t if isinstance(t, tuple) else (t,)
def want(h, g, pt):
    one = h.ring.c(1); zero = h.ring.c(0)
    X, Y = pt if pt is not None else ((zero, one) if g == 1 else ((zero, zero), (one, zero)))
    return z3.Concat(*[h.canon(t) for t in f(X) + f(Y)])
def ser_ob(g, arch):
    fn = '(*%sG%dAffine).SerializeBytes' % (P, g)
    def go(ctx):
        h = Codec(ctx, arch); name = '%s [%s]' % (fn.replace(P, ''), arch); np = 0
        pv, pt = h.point(g); mk = h.mark()
        zero = ctx.w[arch].g('G%dAffineZero' % g)
        for inf in (False, True):
            def body(ex):
                h.reset(mk)
                q = ex.new(ex.load(zero)) if inf else ex.new(pv)
                r = ex.call(fn, (q,))
                return r, h.snap(), h.read(g, q)
            for pr in h.ex.explore(body, 50):
                np += 1
                if pr.panic: return Rec(name, 'open', 'panic ' + pr.panic.msg)
                r, sn, q = pr.val; h.reset(sn)
                w = want(h, g, None if inf else pt)
                v = h.prove(pr.pc, z3.Concat(*h.bytesof(r)) == w)
                if v[0] != 'unsat': return Rec(name, 'open', 'bytes differ: %s' % v[0])
                if not inf and not h.samept(pr.pc, q, pt): return Rec(name, 'open', 'operand changed')
        return Rec(name, 'proved', '%d paths' % np)
    return go
def set_ob(g, arch):
    "reading: from any bytes that are the layout of a point, whatever the receiver held"
    fn = '(*%sG%dAffine).SetRawBytes' % (P, g)
    def go(ctx):
        h = Codec(ctx, arch); name = '%s [%s]' % (fn.replace(P, ''), arch); np = 0
        pv, pt = h.point(g); ov, _ = h.point(g, False); mk = h.mark()
        n = 96 * g
        for inf in (False, True):
            if inf: bs = tuple((ref.ser1 if g == 1 else ref.ser2)(None))
            else:
                full = want(h, g, pt)
                bs = tuple(bv.simp(z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, full)) for i in range(n)); bs = tuple(BV(b) if not isinstance(b, BV) and z3.is_expr(b) else b for b in bs)
            for oi in (False, True):
                def body(ex):
                    h.reset(mk)
                    q = ex.new((ov[0], ov[1], oi))
                    r = ex.call(fn, (q, bs))
                    return (r if r == () else None if r is None else r), h.snap(), h.read(g, q)
                for pr in h.ex.explore(body, 200):
                    np += 1
                    if pr.panic: return Rec(name, 'open', 'panic ' + pr.panic.msg)
                    r, sn, q = pr.val; h.reset(sn)
                    if g == 2 and r is not None: return Rec(name, 'open', 'refused')
                    if inf:
                        if q is not None: return Rec(name, 'refuted', 'infinity is read as a finite point')
                    elif q is None or not h.samept(pr.pc, q, pt): return Rec(name, 'refuted', 'another point')
        return Rec(name, 'proved', '%d paths' % np)
    return go
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        for g in (1, 2):
            s, r = '(*%sG%dAffine).SerializeBytes' % (P, g), '(*%sG%dAffine).SetRawBytes' % (P, g)
            obs.append(Ob('Serialize G%d %s' % (g, arch), ser_ob(g, arch), [s, r], 'every point', weight=5))
            obs.append(Ob('SetRaw G%d %s' % (g, arch), set_ob(g, arch), [s, r], 'every point, every previous content', weight=5))
    return obs
