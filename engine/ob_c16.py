"""C16: key and signature objects, their encodings and copies."""
from proto import *
import pspec
from bv import tow
from ob_c14 import VAR, runob, pkgs, same
LEVEL = 'model_checking'; FULL = True
OUTSIDE = ['every key, every group element, every byte string; point and representation encodings by contract (C04, C09)']
ASSUME = ['scalars are represented by their canonical integer (C03)']
CN = {}
def canon(h, n):
    "256-bit canonical integer of a scalar term"
    b = h.cn.get(n.id)
    if b is None:
        if n.op == 'c': b = z3.BitVecVal(n.a, 256)
        else: b = z3.BitVec('c_%d' % n.id, 256); h.ccons.append(z3.ULT(b, z3.BitVecVal(R, 256)))
        h.cn[n.id] = b
    return b
def byts(b): return tuple(bv.mkw(z3.Extract(255 - 8 * i, 248 - 8 * i, b)) for i in range(32))
def setup(h):
    h.cn = {}; h.ccons = []
    ex = h.ex
    def reg(T, nm, f): ex.contracts['(%s%s).%s' % (P, T, nm)] = f; ex.contracts['(*%s%s).%s' % (P, T, nm)] = f
    reg('FRRepr', 'Bytes', lambda ex, a: byts(canon(h, h.rep(a[0]))))
    def fromb(ex, a):
        bs = a[0]; b = bv.simp(z3.Concat(*[tow(x, 8) for x in bs]))
        n = h.ring.var('rep'); h.cn[n.id] = b
        return ex.new(h.pt(n, 'rep'))
    ex.contracts[P + 'FRReprFromBytes'] = fromb
    def tofr(ex, a):
        v = ex.load(a[0]); n = h.rep(a[0])
        if not isinstance(v, PT): 
            if val(h.deep(v)) >= R: return None
        elif not ex.decide(bv.mkb(z3.ULT(canon_raw(h, n), z3.BitVecVal(R, 256)))): return None
        return h.mkfr(n)
    ex.contracts[P + 'FRReprToFR'] = tofr
    base = h.feasible
    def feas(ex):
        bs = TH.pcs(ex.pc)
        if (bs or h.ccons) and TH.check(bs + h.ccons, 10)[0] == 'unsat': return False
        return base(ex)
    ex.feasible = feas
    h.feasible = feas
    h.bprove = lambda pc, g: TH.check(TH.pcs(pc) + h.ccons + [z3.Not(g)], 20)[0] == 'unsat'
def canon_raw(h, n): return h.cn[n.id] if n.id in h.cn else canon(h, n)
def obs_for(ctx, arch):
    obs = []
    for pk, pp, kf, sf, hf in pkgs(ctx, arch):
        kp, sp = kf + 'p', sf + 'p'; raw = ctx.w[arch].p.raw
        def add(nm, body, judge, fns, bound='all values', pk=pk):
            name = '%s %s [%s]' % (pk, nm, arch)
            def go(ctx, name=name):
                h = Proto(ctx, arch); h.pp = {'g1pubs': G1P, 'g2pubs': G2P}.get(name.split()[0]); setup(h); np = 0
                def th(ex):
                    h.reset(); h.cn = {}; h.ccons = []
                    return body(h, ex), dict(h.cn), list(h.ccons)
                for pr in h.ex.explore(th, 200):
                    np += 1
                    if pr.panic: return Rec(name, 'open', 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
                    v, h.cn, h.ccons = pr.val
                    why = judge(h, pr.pc, v)
                    if why: return Rec(name, 'refuted', why)
                return Rec(name, 'proved', '%d paths' % np)
            obs.append(Ob(name, go, fns, bound, weight=1))
        mut = lambda pp, T: '(*%s%s).Aggregate' % (pp, T)
        for T, fam, lv, star in (('Signature', sf, sp, '*'), ('PublicKey', kf, kp, '')):
            k = fam[1]; n = {'1': 48, '2': 96}[k]
            SER = '(%s%s%s).Serialize' % (star, pp, T); DES = pp + 'Deserialize' + T
            CP = '(*%s%s).Copy' % (pp, T); GP = '(*%s%s).GetPoint' % (pp, T); NEW = pp + 'New%sFromG%s' % (T, k)
            arg = lambda ex, o, star=star: o if star else ex.load(o)
            jl = lambda h, pc, v: None if same(h, pc, v[0], v[1]) and all(v[2:]) else 'another value, or an argument changed'
            def b(h, ex, SER=SER, lv=lv, fam=fam, k=k, arg=arg):
                x = h.ring.var('x'); o = h.obj(x, lv); r = ex.call(SER, (arg(ex, o),))
                if not (isinstance(r, Enc48) and r.g == k): raise Unsupported('not the compressed encoding')
                return r.n, x, h.log(o, fam) is x
            add(T + '.Serialize', b, jl, [SER])
            def b(h, ex, SER=SER, DES=DES, lv=lv, fam=fam, arg=arg):
                x = h.ring.var('x'); o = h.obj(x, lv); r, e = ex.call(DES, (ex.call(SER, (arg(ex, o),)),))
                return (h.log(r, fam) if e is None else h.ring.var('none')), x, e is None, h.log(o, fam) is x, not h.shares(r, (o,))
            add(T + ' round trip', b, jl, [SER, DES])
            def b(h, ex, DES=DES, n=n, fam=fam):
                bs = tuple(BV(z3.BitVec('b_%d' % i, 8)) for i in range(n))
                r, e = ex.call(DES, (bs,))
                d = [w for bb, w in h.decs if len(bb) == n and all(x is y for x, y in zip(bb, bs))]
                return (h.log(r, fam) if r is not None else None), (e is not None), (d[0] if len(d) == 1 else 'not decoded')
            def j(h, pc, v):
                l, e, d = v
                if d == 'not decoded': return 'the bytes were not decoded'
                if (d is None) != e: return 'accepts other strings than the decoder'
                if e: return None if l is None else 'a value together with an error'
                if l is None or not same(h, pc, l, d): return 'another point'
            add('Deserialize' + T, b, j, [DES])
            for f, mk in ((CP, 'obj'), (GP, 'pt')):
                def b(h, ex, f=f, mk=mk, lv=lv, fam=fam):
                    x = h.ring.var('x'); o = h.obj(x, lv); r = ex.call(f, (o,))
                    if mk == 'obj' and h.shares(r, (o,)): raise Unsupported('shared object')
                    if mk == 'pt' and h.shares(r, (o,)): raise Unsupported('shared object')
                    return (h.log(r, fam) if mk == 'obj' else h.lift(r, fam)), x, h.log(o, fam) is x
                add(T + '.' + f.split('.')[-1], b, jl, [f])
            # histories: encode or read, change, encode again
            for pre in (SER, CP, GP, mut(pp, T)):
                def b(h, ex, pre=pre, SER=SER, CP=CP, GP=GP, T=T, lv=lv, fam=fam, k=k, arg=arg, pp=pp):
                    x, y, z = h.ring.var('x'), h.ring.var('y'), h.ring.var('z'); o, p = h.obj(x, lv), h.obj(y, lv); w = x
                    def enc(q):
                        r = ex.call(SER, (arg(ex, q),))
                        if not (isinstance(r, Enc48) and r.g == k): raise Unsupported('not the compressed encoding')
                        return r.n
                    ex.call(SER, (arg(ex, p),))
                    if pre == mut(pp, T): ex.call(pre, (o, h.obj(z, lv))); w = x + z
                    else: ex.call(pre, (arg(ex, o) if pre == SER else o,))
                    c = ex.call(CP, (o,)); ex.call(SER, (arg(ex, c),))
                    ex.call(mut(pp, T), (o, p))
                    l = [(enc(o), w + y), (h.lift(ex.call(GP, (o,)), fam), w + y), (enc(c), w), (h.log(ex.call(CP, (o,)), fam), w + y), (enc(p), y)]
                    ex.call(mut(pp, T), (c, p)); l += [(enc(c), w + y), (enc(o), w + y), (enc(ex.call(CP, (c,))), w + y)]
                    return l
                add('%s histories after %s' % (T, pre.split('.')[-1]), b, lambda h, pc, v: None if all(same(h, pc, *t) for t in v) else 'an operation after an aggregation sees another point', [SER, CP, GP])
            def b(h, ex, NEW=NEW, fam=fam):
                x = h.ring.var('x'); a = ex.new(h.pt(x, fam + 'a')); r = ex.call(NEW, (a,))
                return h.log(r, fam), x, h.lift(a, fam) is x, not h.shares(r, (a,))
            add('New%sFromG%s' % (T, k), b, jl, [NEW])
        EQ = '(%sPublicKey).Equals' % pp
        def b(h, ex, EQ=EQ, kp=kp):
            x, y = h.ring.var('x'), h.ring.var('y'); return ex.call(EQ, (ex.load(h.obj(x, kp)), ex.load(h.obj(y, kp)))), h.ring.eq(x, y)
        add('PublicKey.Equals', b, lambda h, pc, v: None if h.prove(pc, h.iff(*v))[0] == 'unsat' else 'another relation', [EQ])
        # secret keys
        SS, DS, KF, GF = '(%sSecretKey).Serialize' % pp, pp + 'DeserializeSecretKey', pp + 'KeyFromFQRepr', '(%sSecretKey).GetFRElement' % pp
        def b(h, ex, SS=SS):
            k = h.ring.var('k'); s = h.sk(k); r = ex.call(SS, (ex.load(s),))
            return z3.Concat(*[tow(x, 8) for x in r]) == canon(h, k), h.fr(ex.load(s)[0]) is k
        jb = lambda h, pc, v: None if h.bprove(pc, v[0]) and all(v[1:]) else 'another value, or an argument changed'
        add('SecretKey.Serialize', b, jb, [SS])
        def b(h, ex, DS=DS):
            bs = tuple(BV(z3.BitVec('b_%d' % i, 8)) for i in range(32)); B = z3.Concat(*[x.e for x in bs])
            ok = ex.decide(bv.mkb(z3.ULT(B, z3.BitVecVal(R, 256))))
            r = ex.call(DS, (bs,))
            if not ok: return z3.BoolVal(True), True          # known finding: see C18
            f = ex.load(r)[0]
            return (canon_raw(h, h.fr(f)) == B if f is not None else z3.BoolVal(False)), True
        add('DeserializeSecretKey', b, jb, [DS], 'every canonical string')
        def b(h, ex, SS=SS, DS=DS):
            k = h.ring.var('k'); s = h.sk(k); r = ex.call(DS, (ex.call(SS, (ex.load(s),)),)); f = ex.load(r)[0]
            return (canon_raw(h, h.fr(f)) == canon(h, k) if f is not None else z3.BoolVal(False)), not h.shares(r, (s,))
        add('SecretKey round trip', b, jb, [SS, DS])
        def b(h, ex, KF=KF):
            k = h.ring.var('k'); canon(h, k); a = ex.new(h.pt(k, 'rep')); r = ex.call(KF, (a,)); f = ex.load(r)[0]
            return (canon_raw(h, h.fr(f)) == canon(h, k) if f is not None else z3.BoolVal(False)), not h.shares(r, (a,))
        add('KeyFromFQRepr', b, jb, [KF], 'every canonical integer')
        def b(h, ex, GF=GF):
            k = h.ring.var('k'); s = h.sk(k); r = ex.call(GF, (ex.load(s),)); return h.fr(r), k, h.fr(ex.load(s)[0]) is k
        add('SecretKey.GetFRElement', b, jl, [GF])
        def b(h, ex, pp=pp, kf=kf):
            k = h.ring.var('k'); s = h.sk(k); return h.log(ex.call(pp + 'PrivToPub', (s,)), kf), k, h.fr(ex.load(s)[0]) is k
        add('PrivToPub', b, jl, [pp + 'PrivToPub'])
        def b(h, ex, pp=pp, DS=DS, SS=SS, kf=kf):
            k = h.ring.var('k'); s = h.sk(k); s2 = ex.call(DS, (ex.call(SS, (ex.load(s),)),))
            n1 = h.fr(ex.load(s2)[0]); p = h.log(ex.call(pp + 'PrivToPub', (s2,)), kf)
            return p, n1, True
        add('PrivToPub of a decoded key', b, jl, [pp + 'PrivToPub', DS, SS])
    return obs
def obligations(ctx):
    import deps
    return [o for a in ctx.w for o in obs_for(ctx, a)] + deps.obs(ctx, 'sub')
def specs(ctx):
    return [f for f, s in spec.SPECS.items() if s.prop == 'C16'] + [v[1] + 'PrivToPub' for v in VAR]
def extra(S, rest, rng, full):
    import scen
    scen.run(S, specs(S.ctx), full, per=4, nmut=3)
    roundtrips(S)
def roundtrips(S):
    "encode, decode, use: on the real code"
    import replay, random
    rng = random.Random(SEED + 16)
    for arch in S.ctx.w:
        prog = S.ctx.w[arch].p
        for pp, kg, hg in ((G1P, 1, 2), (G2P, 2, 1)):
            pkg = pp[:-1]
            if pp + 'Sign' not in prog.raw: continue
            e = lambda: replay.Enc(prog)
            for k in pspec.KEYS + [rng.randrange(R) for _ in range(3)]:
                f = prog.raw[pp + 'Sign']; m = b'round trip'
                kk = e()(f['ptypes'][1], pspec.sk.enc(k)); mm = {'h': m.hex()}
                calls = [{'fn': '@new', 'args': [prog.types[f['ptypes'][1]]['s'], kk]},                         # 0 key
                         {'fn': '(%sSecretKey).Serialize' % pp, 'args': [{'ref': [0, 0, 1]}]},                   # 1
                         {'fn': pp + 'DeserializeSecretKey', 'args': [{'ref': [1, 0]}]},                          # 2
                         {'fn': pp + 'Sign', 'args': [mm, {'ref': [2, 0]}]}, {'fn': pp + 'Sign', 'args': [mm, {'ref': [0, 0]}]},   # 3 4
                         {'fn': pp + 'PrivToPub', 'args': [{'ref': [2, 0]}]},                                     # 5
                         {'fn': '(%sPublicKey).Serialize' % pp, 'args': [{'ref': [5, 0, 1]}]},                    # 6
                         {'fn': pp + 'DeserializePublicKey', 'args': [{'ref': [6, 0]}]},                          # 7
                         {'fn': '(*%sSignature).Serialize' % pp, 'args': [{'ref': [3, 0]}]},                      # 8
                         {'fn': pp + 'DeserializeSignature', 'args': [{'ref': [8, 0]}]},                          # 9
                         {'fn': pp + 'Verify', 'args': [mm, {'ref': [7, 0]}, {'ref': [9, 0]}]},                   # 10
                         {'fn': pp + 'Verify', 'args': [{'h': '00'}, {'ref': [7, 0]}, {'ref': [9, 0]}]}]          # 11
                try: o = S.driver(arch, pkg).run([{'calls': calls}])[0]
                except Unsupported as x: S.notes.append(str(x)); return
                if o.get('missing') or not o.get('outs') or any(x.get('missing') or x.get('bad') for x in o['outs']): S.notes.append('round trip not run: %s' % str(o)[:200]); continue
                S.concrete += 1
                bad = None
                for i, x in enumerate(o['outs']):
                    if 'panic' in x: bad = 'step %d (%s) panicked: %s' % (i, calls[i]['fn'], x['panic']); break
                if not bad:
                    r = lambda i: o['outs'][i]['res'][0]
                    want = (ref.comp1 if kg == 1 else ref.comp2)(pspec.gmul(kg, k))
                    ws = (ref.comp2 if kg == 1 else ref.comp1)(pspec.sigof(hg, m, k))
                    if r(1) != k.to_bytes(32, 'big').hex(): bad = 'secret key encoded as %s' % r(1)
                    elif r(6) != want.hex(): bad = 'public key encoded as %s, expected %s' % (r(6), want.hex())
                    elif r(8) != ws.hex(): bad = 'signature encoded as %s, expected %s' % (r(8), ws.hex())
                    elif r(10) is not True: bad = 'the decoded signature does not verify under the decoded key'
                    elif r(11) is not (k == 0): bad = 'the decoded signature verifies another message'
                if bad: S.violation(pp + 'round trip', arch, {'calls': calls}, 'secret key %#x: %s' % (k, bad)); return
