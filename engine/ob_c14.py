"""C14: signing and verification."""
from proto import *
import pspec
LEVEL = 'model_checking'; FULL = True
OUTSIDE = ['messages of the listed lengths with every content, every key, every point of the prime-order groups; hashing, pairing and group operations by contract (C07..C13)']
ASSUME = ['the hash to the group is treated as an arbitrary function of the message; e(g1,g2) has order r (C11)']
VAR = (('g1pubs', G1P, 'g1', 'g2', 'HashG2'), ('g2pubs', G2P, 'g2', 'g1', 'HashG1'))
LENS = (None, 0, 1, 2, 31, 32, 33, 64, 65, 130)
def pkgs(ctx, arch): return [v for v in VAR if (v[1] + 'Verify') in ctx.w[arch].p.raw]
def runob(ctx, arch, name, body, judge):
    "body(h, ex) -> value; judge(h, pc, value) -> message or None"
    h = Proto(ctx, arch); np = 0; h.pp = {'g1pubs': G1P, 'g2pubs': G2P}.get(name.split()[0])
    h.ex.feasible = h.feasible
    def th(ex): h.reset(); return body(h, ex)
    for pr in h.ex.explore(th, 400):
        np += 1
        if pr.panic: return Rec(name, 'open', 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
        w = writes(pr.events)
        why = judge(h, pr.pc, pr.val)
        if why: return Rec(name, 'refuted', why)
    return Rec(name, 'proved', '%d paths' % np)
def same(h, pc, a, b): return h.same(pc, a, b)
def slices(ex, t): return None if t is None else ex.mkslice_of(t)
def obs_for(ctx, arch):
    obs = []
    for pk, pp, kf, sf, hf in pkgs(ctx, arch):
        kp, sp = kf + 'p', sf + 'p'
        raw = ctx.w[arch].p.raw
        def add(nm, body, judge, fns, bound='every key, message content and point', pk=pk):
            name = '%s %s [%s]' % (pk, nm, arch)
            obs.append(Ob(name, lambda ctx, n=name, b=body, j=judge: runob(ctx, arch, n, b, j), fns, bound, weight=2))
        # PrivToPub
        def b1(h, ex, pp=pp, kf=kf):
            k = h.ring.var('k'); s = h.sk(k); r = ex.call(pp + 'PrivToPub', (s,))
            return k, h.log(r, kf), h.shares(r, (s,)), h.fr(ex.load(s)[0])
        def j1(h, pc, v):
            k, p, sh, k2 = v
            if sh: return 'the public key shares memory with ' + sh
            if not same(h, pc, k, k2): return 'the key changed'
            if not same(h, pc, p, k): return 'public key is another multiple of the generator'
        add('PrivToPub', b1, j1, [pp + 'PrivToPub'])
        for L in LENS:
            def b2(h, ex, pp=pp, sf=sf, L=L, hf=hf):
                k = h.ring.var('k'); s = h.sk(k); t = msgval(h, 'm', L); m = slices(ex, t)
                r = ex.call(pp + 'Sign', (m, s))
                n = h.H(hf, t or ())
                return k * n, h.log(r, sf), h.shares(r, (m, s)), ex.slice_vals(m) == (t or ()), h.fr(ex.load(s)[0]), k
            def j2(h, pc, v):
                w, s, sh, keep, k2, k = v
                if sh: return 'the signature shares memory with ' + sh
                if not keep: return 'the message changed'
                if not same(h, pc, k, k2): return 'the key changed'
                if not same(h, pc, s, w): return 'the signature is not the secret multiple of the hashed message'
            add('Sign %s bytes' % L, b2, j2, [pp + 'Sign'])
            def b3(h, ex, pp=pp, kp=kp, sp=sp, L=L, hf=hf, kf=kf, sf=sf):
                p, s = h.ring.var('p'), h.ring.var('s'); t = msgval(h, 'm', L); m = slices(ex, t)
                po, so = h.obj(p, kp), h.obj(s, sp)
                r = ex.call(pp + 'Verify', (m, po, so))
                n = h.H(hf, t or ())
                return r, h.ring.eq(s, p * n), ex.slice_vals(m) == (t or ()) and h.log(po, kf) is p and h.log(so, sf) is s
            def j3(h, pc, v):
                r, w, keep = v
                if not keep: return 'an argument changed'
                if h.prove(pc, h.iff(r, w))[0] != 'unsat': return 'acceptance is not the pairing equation'
            add('Verify %s bytes' % L, b3, j3, [pp + 'Verify'])
            def b4(h, ex, pp=pp, L=L):
                k = h.ring.var('k'); s = h.sk(k); t = msgval(h, 'm', L); m = slices(ex, t)
                sg = ex.call(pp + 'Sign', (m, s)); pb = ex.call(pp + 'PrivToPub', (s,))
                return ex.call(pp + 'Verify', (m, pb, sg))
            def j4(h, pc, v):
                if h.prove(pc, v)[0] != 'unsat': return 'a signature does not verify'
            add('Verify after Sign %s bytes' % L, b4, j4, [pp + 'Sign', pp + 'Verify', pp + 'PrivToPub'])
        if pp + 'SignWithDomain' in raw:
            dm = lambda n, k: tuple(BV(z3.BitVec('%s_%d' % (n, i), 8)) for i in range(k))
            def b5(h, ex, pp=pp, sf=sf):
                k = h.ring.var('k'); s = h.sk(k); m, d = dm('m', 32), dm('d', 8)
                r = ex.call(pp + 'SignWithDomain', (m, s, d))
                return k * h.H('HashG2WithDomain', m + d), h.log(r, sf), h.shares(r, (s,)), True, h.fr(ex.load(s)[0]), k
            add('SignWithDomain', b5, j2, [pp + 'SignWithDomain'])
            def b6(h, ex, pp=pp, kp=kp, sp=sp, kf=kf, sf=sf):
                p, s = h.ring.var('p'), h.ring.var('s'); m, d = dm('m', 32), dm('d', 8)
                po, so = h.obj(p, kp), h.obj(s, sp)
                r = ex.call(pp + 'VerifyWithDomain', (m, po, so, d))
                return r, h.ring.eq(s, p * h.H('HashG2WithDomain', m + d)), h.log(po, kf) is p and h.log(so, sf) is s
            add('VerifyWithDomain', b6, j3, [pp + 'VerifyWithDomain'])
            def b7(h, ex, pp=pp):
                k = h.ring.var('k'); s = h.sk(k); m, d = dm('m', 32), dm('d', 8)
                sg = ex.call(pp + 'SignWithDomain', (m, s, d)); pb = ex.call(pp + 'PrivToPub', (s,))
                return ex.call(pp + 'VerifyWithDomain', (m, pb, sg, d))
            add('VerifyWithDomain after SignWithDomain', b7, j4, [pp + 'SignWithDomain', pp + 'VerifyWithDomain'])
    return obs
def obligations(ctx): return [o for a in ctx.w for o in obs_for(ctx, a)]
