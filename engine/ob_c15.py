"""C15: aggregation and aggregate verification."""
from proto import *
import pspec, itertools, hashlib
from ob_c14 import VAR, runob, pkgs, same, slices
LEVEL = 'model_checking'; FULL = True
OUTSIDE = ['lists of up to the listed lengths; message contents symbolic at the listed positions; points arbitrary elements of the prime-order groups; hashing, pairing and group operations by contract (C07..C13)']
ASSUME = ['the hash to the group is an arbitrary function of the message; e(g1,g2) has order r (C11)']
D8 = tuple(BV(z3.BitVec('d_%d' % i, 8)) for i in range(8))
def lst(ex, vs): return None if vs is None else ex.mkslice_of(tuple(vs))
def dup(h, ms):
    "are two of the messages equal (decided on this path)"
    ex = h.ex
    for i in range(len(ms)):
        for j in range(i):
            a, b = ms[i] or (), ms[j] or ()
            if len(a) == len(b) and (not a or ex.decide(ex.valeq(tuple(a), tuple(b)))): return True
    return False
def obs_for(ctx, arch):
    obs = []; quick = ctx.tier == 'quick'
    NAGG = ((0, 1, 2, 3, 4, 9, 17, 33, 65, 130) if quick else (0, 1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257)) + tuple(around(300, 0, 1))
    for pk, pp, kf, sf, hf in pkgs(ctx, arch):
        kp, sp = kf + 'p', sf + 'p'
        raw = ctx.w[arch].p.raw
        def add(nm, body, judge, fns, bound, w=2, pk=pk):
            name = '%s %s [%s]' % (pk, nm, arch)
            obs.append(Ob(name, lambda ctx, n=name, b=body, j=judge: runob(ctx, arch, n, b, j), fns, bound, weight=w))
        # ---------------------------------------------------------- sums
        def scope(fn, fam, lv, pp=pp, sf=sf): mk2(ctx, arch, add, NAGG, fn, fam, lv, pp, sf)
        scope('AggregateSignatures', sf, sp); scope('AggregatePublicKeys', kf, kp)
        for T, fam, lv, nw in (('Signature', sf, sp, 'NewAggregateSignature'), ('PublicKey', kf, kp, 'NewAggregatePubkey')):
            fn = '(*%s%s).Aggregate' % (pp, T)
            def b(h, ex, fn=fn, fam=fam, lv=lv):
                x, y = h.ring.var('x'), h.ring.var('y'); a, o = h.obj(x, lv), h.obj(y, lv); pa = ex.load(a)[0]
                ex.call(fn, (a, o))
                return h.log(a, fam), x + y, h.log(o, fam) is y, h.lift(pa, fam) is x, h.shares(a, (o,)), True
            def j(h, pc, v):
                r, w, keep, keepold, sh, same_ = v
                if not keep: return 'the other operand changed'
                if not keepold: return 'the point the receiver held before (still shared by copies) changed'
                if sh: return 'the receiver shares memory with ' + sh
                if not same(h, pc, r, w): return 'not the group sum'
            add(fn.split('.')[-2].split('/')[-1] + '.Aggregate ' + T, b, j, [fn], 'all points')
            def b(h, ex, fn=fn, fam=fam, lv=lv):
                x = h.ring.var('x'); a = h.obj(x, lv); ex.call(fn, (a, a))
                return h.log(a, fam), x + x, True, True, None, True
            add(T + '.Aggregate with itself', b, j, [fn], 'all points')
            def b(h, ex, fn=fn, fam=fam, lv=lv, nw=nw, pp=pp):
                x = h.ring.var('x'); r = ex.call(pp + nw, ()); r2 = ex.call(pp + nw, ())
                z = h.log(r, fam); sh = h.shares(r, (r2,)); ex.call(fn, (r, h.obj(x, lv)))
                return h.log(r, fam), x + z, h.same([], z, h.ring.c(0)), h.log(r2, fam) is h.ring.c(0), sh, True
            add(nw, b, j, [pp + nw], 'all points')
        # ---------------------------------------------------------- verification over lists
        mk3(ctx, arch, add, pk, pp, kf, sf, hf, raw)
    return obs
def mk2(ctx, arch, add, NAGG, fn, fam, lv, pp, sf):
    T = 'Signature' if fam == sf else 'PublicKey'
    for n in NAGG:
        for rep in ([None] if n < 2 else [None, 'first twice', 'all one']):
            def body(h, ex, n=n, rep=rep):
                logs = [h.ring.var('x') for _ in range(n)]
                if rep == 'first twice': logs[-1] = logs[0]
                if rep == 'all one': logs = [logs[0]] * n
                objs = [h.obj(x, lv) for x in logs]
                if rep == 'first twice': objs[-1] = objs[0]
                if rep == 'all one': objs = [objs[0]] * n
                l = lst(ex, objs) if n else (None if ex.decide(Choice('nil', 0)) else lst(ex, ()))
                r = ex.call(pp + fn, (l,))
                w = h.ring.c(0)
                for x in logs: w = x + w
                keep = all(h.log(o, fam) is x for o, x in zip(objs, logs)) and (l is None or list(ex.slice_vals(l)) == objs)
                sh = h.shares(r, (l,) + tuple(objs)); r2 = h.log(r, fam)
                ex.call('(*%s%s).Aggregate' % (pp, T), (r, h.obj(h.ring.var('y'), lv)))
                return r2, w, sh, keep, all(h.log(o, fam) is x for o, x in zip(objs, logs))
            def judge(h, pc, v):
                r, w, sh, keep, keep2 = v
                if sh: return 'the aggregate shares memory with ' + sh
                if not keep: return 'an input changed'
                if not keep2: return 'adding to the aggregate changes an input'
                if not same(h, pc, r, w): return 'not the group sum'
            add('%s of %d%s' % (fn, n, ', ' + rep if rep else ''), body, judge, [pp + fn], 'sums over lists of 0 to 4 and of 9, 17, 33, 65, 130 elements (more lengths, up to 257, in the thorough tier)')
def mk3(ctx, arch, add, pk, pp, kf, sf, hf, raw):
    kp, sp = kf + 'p', sf + 'p'; quick = ctx.tier == 'quick'
    S = lambda n: '(*%sSignature).%s' % (pp, n)
    def scene(h, ex, npub, mk, one=False):
        ps = [h.ring.var('p') for _ in range(npub)]
        if one and npub: ps = [ps[0]] * npub
        po = [h.obj(x, kp) for x in ps]
        if one and npub: po = [po[0]] * npub
        s = h.ring.var('s'); so = h.obj(s, sp); ms = mk()
        return ps, po, s, so, ms
    def keepall(h, ex, ps, po, s, so, pl, ml, ms, tup):
        return all(h.log(o, kf) is x for o, x in zip(po, ps)) and h.log(so, sf) is s and (pl is None or list(ex.slice_vals(pl)) == po) and \
            (ml is None or all((() if m is None else (tuple(m) if tup else ex.slice_vals(m))) == tuple(c or ()) for m, c in zip(ex.slice_vals(ml), ms)))
    def judge(h, pc, v):
        r, w, keep = v
        if not keep: return 'an argument changed'
        if h.prove(pc, h.iff(r, w))[0] != 'unsat': return 'acceptance differs from the equation'
    def va(nm, npub, shapes, sym=None, one=False, fam_='VerifyAggregate', w=2, bound=''):
        def body(h, ex):
            mk = lambda: [msgval(h, 'm%d' % i, L, sym) for i, L in enumerate(shapes)]
            ps, po, s, so, ms = scene(h, ex, npub, mk, one)
            mo = [slices(ex, m) for m in ms]
            pl = lst(ex, po); ml = lst(ex, mo)
            r = ex.call(S('VerifyAggregate'), (so, pl, ml))
            if npub != len(shapes) or dup(h, ms): w = False
            else:
                t = h.ring.c(0)
                for p, m in zip(ps, ms): t = p * h.H(hf, m or ()) + t
                w = h.eqn(s, t)
            return r, w, keepall(h, ex, ps, po, s, so, pl, ml, ms, False) and (list(ex.slice_vals(ml)) == mo)
        add('VerifyAggregate ' + nm, body, judge, [S('VerifyAggregate')], bound or 'up to 3 signers with every message of up to 3 bytes; longer messages with symbolic bytes at selected positions', w)
    def vl(n, rep):
        def body(h, ex):
            ms = [hashlib.sha256(b'%d' % i).digest()[:i % 7 + 3] for i in range(n)]
            if rep: ms[rep[1]] = ms[rep[0]]
            ps, po, s, so, ms = scene(h, ex, n, lambda: [tuple(m) for m in ms])
            mo = [slices(ex, m) for m in ms]; pl = lst(ex, po); ml = lst(ex, mo)
            r = ex.call(S('VerifyAggregate'), (so, pl, ml))
            if rep: w = False
            else:
                t = h.ring.c(0)
                for p, m in zip(ps, ms): t = p * h.H(hf, m) + t
                w = h.eqn(s, t)
            return r, w, keepall(h, ex, ps, po, s, so, pl, ml, ms, False)
        add('VerifyAggregate %d concrete messages%s' % (n, ', %d and %d equal' % rep if rep else ''), body, judge, [S('VerifyAggregate')], 'lists of up to 130 (quick) or 257 (thorough) given messages', 3)
    for np_ in range(0, 4):
        for nm_ in range(0, 4):
            if np_ != nm_: va('%d keys, %d messages' % (np_, nm_), np_, [1] * nm_)
    va('0 signers', 0, []); 
    for L in (None, 0, 1, 2, 32, 65): va('1 signer, length %s' % L, 1, [L])
    two = [None, 0, 1, 2] if quick else [None, 0, 1, 2, 3]
    for a in two:
        for b in two: va('2 signers, lengths %s %s' % (a, b), 2, [a, b])
    for L in (31, 32, 33, 64, 65, 130): va('2 signers, length %d, first middle and last byte symbolic' % L, 2, [L, L], {0, L // 2, L - 1}); va('2 signers, lengths %d %d' % (L, L + 1), 2, [L, L + 1], {0, L - 1, L})
    for (a, b, c) in ([(0, 0, 0), (0, 1, 0), (1, 1, 1), (1, 1, 2), (2, 1, 2), (0, 1, 2), (None, 1, 0)] if quick else list(itertools.product((0, 1, 2), repeat=3)) + [(None, 1, 0)]): va('3 signers, lengths %s %s %s' % (a, b, c), 3, [a, b, c], w=9)
    va('3 signers, length 33, last byte symbolic', 3, [33, 33, 33], {32}, w=9)
    va('2 signers with one key object', 2, [1, 1], one=True)
    if not quick: va('4 signers, length 1', 4, [1, 1, 1, 1], w=20)
    # long lists of concrete messages: all distinct, or one repeated
    for n in list((9, 17, 33, 65, 130) if quick else (7, 9, 16, 17, 33, 64, 65, 130, 257)) + around(300, 0, 1):
        for rep in (None, (0, n - 1), (n // 2, n // 2 + 1), (1, n - 2)): vl(n, rep)
    va('4 signers, length 1, pair equal by construction', 4, [1, 1, 0, 2], w=20)
    # common message
    def vc(n, L, one):
        def body(h, ex):
            ps, po, s, so, m = scene(h, ex, n, lambda: msgval(h, 'm', L), one)
            mo = slices(ex, m); pl = lst(ex, po)
            r = ex.call(S('VerifyAggregateCommon'), (so, pl, mo))
            t = h.ring.c(0)
            for p in ps: t = p + t
            keep = all(h.log(o, kf) is x for o, x in zip(po, ps)) and h.log(so, sf) is s and list(ex.slice_vals(pl)) == po and ex.slice_vals(mo) == (m or ())
            return r, h.eqn(s, t * h.H(hf, m or ())), keep
        add('VerifyAggregateCommon %d signers, length %s%s' % (n, L, ' one key' if one else ''), body, judge, [S('VerifyAggregateCommon')], 'up to 4 signers')
    for n in tuple(range(0, 5)) + ((17, 65, 130) if quick else (9, 17, 33, 65, 130, 257)): vc(n, 1, False)
    for L in (None, 0, 32, 65): vc(2, L, False)
    vc(3, 1, True)
    if S('VerifyAggregateWithDomain') in raw:
        H = 'HashG2WithDomain'
        def m32(i, sym): return tuple(hashlib.sha256(b'%d' % i).digest()) if sym == 'given' else tuple(BV(z3.BitVec('m%d_%d' % (i, k), 8)) if sym is None or k in sym else 0x55 for k in range(32))
        def vd(npub, nmsg, sym, one=False):
            def body(h, ex):
                ps, po, s, so, ms = scene(h, ex, npub, lambda: [m32(i, sym) for i in range(nmsg)], one)
                pl = lst(ex, po); ml = lst(ex, ms)
                r = ex.call(S('VerifyAggregateWithDomain'), (so, pl, ml, D8))
                if npub != nmsg: w = False
                else:
                    t = h.ring.c(0)
                    for p, m in zip(ps, ms): t = p * h.H(H, m + D8) + t
                    w = h.eqn(s, t)
                return r, w, keepall(h, ex, ps, po, s, so, pl, ml, ms, True)
            add('VerifyAggregateWithDomain %d keys, %d messages%s' % (npub, nmsg, ' one key' if one else ''), body, judge, [S('VerifyAggregateWithDomain')], 'up to 3 signers')
        for a in range(4):
            for b in range(4): vd(a, b, None if a < 3 else {0, 31})
        vd(2, 2, None, True); vd(9, 9, 'given'); vd(33, 33, 'given'); vd(130, 130, 'given'); vd(33, 32, 'given')
        def vcd(n):
            def body(h, ex):
                ps, po, s, so, m = scene(h, ex, n, lambda: m32(0, None))
                pl = lst(ex, po)
                r = ex.call(S('VerifyAggregateCommonWithDomain'), (so, pl, m, D8))
                t = h.ring.c(0)
                for p in ps: t = p + t
                return r, h.eqn(s, t * h.H(H, m + D8)), all(h.log(o, kf) is x for o, x in zip(po, ps)) and h.log(so, sf) is s and list(ex.slice_vals(pl)) == po
            add('VerifyAggregateCommonWithDomain %d signers' % n, body, judge, [S('VerifyAggregateCommonWithDomain')], 'up to 4 signers')
        for n in tuple(range(0, 5)) + ((17, 65, 130) if quick else (9, 17, 33, 65, 130, 257)): vcd(n)
def obligations(ctx): return [o for a in ctx.w for o in obs_for(ctx, a)]
def extra(S, rest, rng, full):
    import scen
    scen.run(S, [f for f, s in spec.SPECS.items() if s.prop == 'C15'], full)
