"""What the operations of g1pubs and g2pubs must return (concrete side of C14, C15, C16)."""
from spec import *
import ref, functools
G1P, G2P = P + 'g1pubs.', P + 'g2pubs.'
G1P = 'github.com/phoreproject/bls/g1pubs.'; G2P = 'github.com/phoreproject/bls/g2pubs.'
class SStruct1(Sort):
    "struct with one pointer field"
    def __init__(self, s): self.s = s; self.name = '{%s}' % s.name
    def mean(self, raw): return self.s.mean(raw)
    def enc(self, raw): return (self.s.enc(raw),)
    def dec(self, x):
        if x[0] is None: raise Bad('object without value')
        return self.s.dec(x[0])
    def pool(self, rng, n): return self.s.pool(rng, n)
class SList(Sort):
    "slice; elements that are one Python object become one Go object"
    def __init__(self, s): self.s = s; self.name = '[]' + s.name
    def mean(self, raw): return None if raw is None else tuple(self.s.mean(r) for r in raw)
    def enc(self, raw):
        if raw is None: return None
        memo = {}; vs = []
        for r in raw:
            k = id(r)
            if k not in memo or r is None: memo[k] = self.s.enc(r)
            vs.append(memo[k])
        return Slice(Obj(tuple(vs)), (), 0, len(vs), len(vs))
    def dec(self, x):
        if x is None: return None
        return tuple(self.s.dec(v) for v in x.obj.v[x.off:x.off + x.len])
skv = SStruct1(pfr); sk = ptr(skv)
b8 = SBytes(8)
msl = SSl([0, 1, 31, 32, 33])
DL = {1: {}, 2: {}}      # points of known discrete logarithm
@functools.lru_cache(None)
def gmul(g, k):
    c, gen = (ref.E1, ref.G1) if g == 1 else (ref.E2, ref.G2)
    p = c.mul(gen, k % R); DL[g][p] = k % R; return p
H = {1: lambda m: ref.hash1(m or b''), 2: lambda m: ref.hash2(m or b''), 'd': lambda m, d: ref.hash2d(m, d)}
@functools.lru_cache(None)
def sigof(hg, m, k): return (ref.E1 if hg == 1 else ref.E2).mul(H[hg](m), k)
@functools.lru_cache(None)
def sigofd(m, d, k): return ref.E2.mul(H['d'](m, d), k)
KEYS = [0, 1, 2, R - 1, R - 2, (R - 1) // 2, (R + 1) // 2, 1 << 64, (1 << 64) - 1, (1 << 128) - 1, 1 << 192, 1 << 254, (1 << 254) - 1, (R >> 64) << 64, 0x123456789abcdef, 3 << 200]
def keys(rng, n): return KEYS + [rng.randrange(R) for _ in range(n)] + [words_one(rng) for _ in range(3)]
def words_one(rng): return (rng.randrange(R) & ~(M64_ << (64 * rng.randrange(4)))) % R
def messages(rng):
    ms = [None, b'', b'\x00', b'\x01', b'\x00\x00', b'a', b'ab', b'hello']
    for l in (31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 96, 118, 119, 120, 127, 128, 129, 130, 183, 255, 256, 257, 1000): ms.append(rng.randbytes(l))
    for l in around(70000, -2, -1, 0, 1): ms.append(rng.randbytes(l))
    ms += [bytes(32), bytes(64), b'\xff' * 32, b'\x01' * 64]
    return ms
def longs(rng): return [rng.randbytes(l) for l in (1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 32768, 65535, 65536, 65537, 70001, 140003)]
def reps(p, so, rng):
    "one representation of a point, as raw of the projective sort"
    if p is None: return rng.choice([(None, None), (None, so.zs(rng)[2])])
    z = rng.choice(so.zs(rng))
    return (p, z)
def near(m, rng):
    "messages that differ little from m"
    m = m or b''; out = [m + b'\x00', b'\x00' + m]
    if m: out += [m[:-1], m[1:], bytes([m[0] ^ 1]) + m[1:], m[:-1] + bytes([m[-1] ^ 0x80]), m[:len(m) // 2] + bytes([m[len(m) // 2] ^ 4]) + m[len(m) // 2 + 1:]]
    if len(m) > 1: out += [m[::-1], m + m]
    if len(m) >= 64: out += [m[:64], m[:32], m[32:], m[:32] + m[33:]]
    return [x for x in dict.fromkeys(out) if x != m]
def variant(pp, kg, hg):
    kc, sc = (ref.E1, ref.E2) if kg == 1 else (ref.E2, ref.E1)
    ks, ss = (g1p, g2p) if kg == 1 else (g2p, g1p)
    ka, sa = (g1a, g2a) if kg == 1 else (g2a, g1a)
    pubv = SStruct1(ptr(ks)); pub = ptr(pubv); sigv = SStruct1(ptr(ss)); sig = ptr(sigv)
    hg_ = hg
    def Pf(n): return pp + n
    def S(n): return '(*%sSignature).%s' % (pp, n)
    def PK(n, star='*'): return '(%s%sPublicKey).%s' % (star, pp, n)
    def SK(n): return '(%sSecretKey).%s' % (pp, n)
    sem_v = lambda m, p, s: s == sc.mul(H[hg_](m), DL[kg][p])
    # ------------------------------------------------ C14
    def gen_sign(rng):
        ms = messages(rng) + [rng.randbytes(4097), rng.randbytes(70001)]; ks_ = keys(rng, 4)
        out = [((m, rng.choice(ks_)), ()) for m in ms] + [((ms[i % 8 + 5], k), ()) for i, k in enumerate(ks_)]
        return out
    spec('C14', Pf('Sign'), [msl, sk], res(sig), lambda m, k: sigof(hg_, m, k), gen=gen_sign)
    spec('C14', Pf('PrivToPub'), [sk], res(pub), lambda k: gmul(kg, k), gen=lambda rng: [((k,), ()) for k in keys(rng, 10)])
    def gen_ver(rng):
        out = []; rp, rs = (lambda p: reps(p, ks, rng)), (lambda p: reps(p, ss, rng))
        ms = messages(rng) + [rng.randbytes(4097), rng.randbytes(70001)]; K = keys(rng, 4)
        def put(m, p, s): out.append(((m, rp(p), rs(s)), ()))
        for i, m in enumerate(ms): k = K[i % len(K)]; put(m, gmul(kg, k), sigof(hg_, m, k))
        gS = (ref.G1 if hg_ == 1 else ref.G2)
        for i, m in enumerate(rng.sample(ms, 5) + [b'', b'msg']):
            k = rng.choice(K[2:]); 
            s = sigof(hg_, m, k); p = gmul(kg, k)
            for m2 in near(m, rng)[:7]: put(m2, p, s)
            for s2 in (None, sc.neg(s), sc.add(s, gS), sc.add(s, s), gS, H[hg_](m), sigof(hg_, m, k + 1), sigof(hg_, m, k * k % R)): put(m, p, s2)
            for p2 in (None, kc.neg(p), gmul(kg, 1), gmul(kg, k + 1), gmul(kg, 2 * k), gmul(kg, R - k)):
                DL[kg].setdefault(p2, R - k if p2 == kc.neg(p) else DL[kg].get(p2))
                put(m, p2, s)
            DL[kg][None] = 0
            put(m, None, None); put(m, kc.neg(p), sc.neg(s)); put(m, gmul(kg, k + 1), sc.add(s, H[hg_](m)))
        put(b'\x01', gmul(kg, 1), gS)
        return out
    DL[kg][None] = 0
    spec('C14', Pf('Verify'), [msl, pub, sig], res(boolean), sem_v, gen=gen_ver)
    if pp == G1P:
        def dom(rng): return [(rng.randbytes(32), rng.randbytes(8)) for _ in range(5)] + [(bytes(32), bytes(8)), (b'\xff' * 32, b'\xff' * 8), (bytes(32), b'\x00' * 7 + b'\x01'), (bytes(31) + b'\x01', bytes(8)), (bytes(range(32)), b'\x01' + bytes(7))]
        spec('C14', Pf('SignWithDomain'), [b32, sk, b8], res(sig), lambda m, k, d: sigofd(m, d, k), gen=lambda rng: [((m, k, d), ()) for (m, d), k in zip(dom(rng) + dom(rng), keys(rng, 8))])
        def gen_verd(rng):
            out = []; rp, rs = (lambda p: reps(p, ks, rng)), (lambda p: reps(p, ss, rng))
            K = keys(rng, 4)
            def put(m, p, s, d): out.append(((m, rp(p), rs(s), d), ()))
            fl = lambda b, i: b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
            for (m, d), k in zip(dom(rng), K): put(m, gmul(1, k), sigofd(m, d, k), d)
            for (m, d) in dom(rng)[:4]:
                k = rng.choice(K[2:]); p = gmul(1, k); s = sigofd(m, d, k)
                for i in (0, 3, 7): put(m, p, s, fl(d, i))
                for i in (0, 15, 31): put(fl(m, i), p, s, d)
                put(m[:24] + d, p, s, m[24:]); put(m, gmul(1, k + 1), s, d); put(m, p, sc.neg(s), d); put(m, p, None, d); put(m, None, s, d); put(m, None, None, d); put(m, p, sc.add(s, s), d); put(m, p, sigof(2, m, k), d)
            return out
        spec('C14', Pf('VerifyWithDomain'), [b32, pub, sig, b8], res(boolean), lambda m, p, s, d: s == sc.mul(H['d'](m, d), DL[kg][p]), gen=gen_verd)
    # ------------------------------------------------ C15
    def pts(rng, so, c, n):
        p = [x for x in so.rawpool(rng, 3)][:6]
        return p
    def sm(c, l):
        r = None
        for x in l or (): r = c.add(r, x)
        return r
    def gen_agg(so, c):
        def g(rng):
            ps = pts(rng, so, c, 4); a = ps[-1]; one = (a, so.zs(rng)[2])
            L = [None, ()] + [(reps(p, so, rng),) for p in ps] + [(reps(p, so, rng), reps(q, so, rng)) for p in ps for q in ps]
            L += [(one, one), (one, one, one), (one, reps(c.neg(a), so, rng)), (one, reps(None, so, rng), one)]
            for n in [3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 65, 130] + around(1100): L.append(tuple(reps(rng.choice(ps), so, rng) for _ in range(n)))
            L.append(tuple((a, so.zs(rng)[0]) for _ in range(5)))
            return [((l,), ()) for l in L]
        return g
    def gen_pair(so, c):
        def g(rng):
            ps = so.rawpool(rng, 3)[:8]; a = ps[-1]; out = []
            for p in ps:
                for q in ps[:5] + [p, c.neg(p)]: out.append(((reps(p, so, rng), reps(q, so, rng)), ()))
                r = reps(p, so, rng); out.append(((r, r), ((0, 1),)))
            return out
        return g
    spec('C15', Pf('AggregateSignatures'), [SList(sig)], res(sig), lambda l: sm(sc, l), gen=gen_agg(ss, sc))
    spec('C15', Pf('AggregatePublicKeys'), [SList(pub)], res(pub), lambda l: sm(kc, l), gen=gen_agg(ks, kc))
    spec('C15', S('Aggregate'), [sig, sig], recv(sig), sc.add, gen=gen_pair(ss, sc))
    spec('C15', PK('Aggregate'), [pub, pub], recv(pub), kc.add, gen=gen_pair(ks, kc))
    spec('C15', Pf('NewAggregateSignature'), [], res(sig), lambda: None, gen=lambda rng: [((), ())])
    spec('C15', Pf('NewAggregatePubkey'), [], res(pub), lambda: None, gen=lambda rng: [((), ())])
    def sumsig(ps, ms, hf):
        r = None
        for p, m in zip(ps, ms): r = sc.add(r, sc.mul(hf(m), DL[kg][p]))
        return r
    def sem_va(s, ps, ms):
        ps = ps or (); ms = tuple(m or b'' for m in ms or ())
        if len(ps) != len(ms) or len(set(ms)) != len(ms): return False
        return s == sumsig(ps, ms, H[hg_])
    def lists(rng, mk, hf, sof, dup):
        "(sig, pubs, msgs) tuples; mk(rng, n): distinct messages"
        out = []; rp = lambda p: reps(p, ks, rng); rs = lambda p: reps(p, ss, rng)
        K = [k for k in keys(rng, 6) if k]
        def put(s, ps, ms): out.append(((rs(s), ps if ps is None else tuple(rp(p) for p in ps), ms if ms is None else tuple(ms)), ()))
        add = sc.add
        def good(kk, ms): 
            r = None
            for k, m in zip(kk, ms): r = add(r, sof(m, k))
            return r
        gS = gmul(hg_, 1)
        put(None, (), ()); put(gS, (), ()); put(None, None, None)
        for n in (1, 2, 3, 4, 6):
            for rnd in range(2):
                ms = mk(rng, n); kk = [rng.choice(K) for _ in range(n)]; ps = [gmul(kg, k) for k in kk]; s = good(kk, ms)
                put(s, ps, ms)
                if rnd and n > 3: continue
                i = rng.randrange(n); j = (i + 1) % n
                put(sc.neg(s), ps, ms); put(add(s, gS), ps, ms); put(None, ps, ms)
                put(s, ps[:-1], ms); put(s, ps, ms[:-1]); put(s, ps + [gmul(kg, 5)], ms); put(s, ps, ms + mk(rng, 1)); put(s, [], ms); put(s, ps, []); put(None, ps, []); put(None, [], ms)
                put(good(kk[:-1], ms[:-1]), ps, ms[:-1]); put(good(kk[:-1], ms[:-1]), ps[:-1], ms); put(good(kk[:-1], ms[:-1]), ps, ms)
                put(good(kk[1:], ms[1:]), ps, ms); put(good(kk[:-1], ms[:-1]), ps[:-1] + [None], ms); put(good(kk[1:], ms[1:]), [None] + ps[1:], ms)
                put(s, ps + [None], ms + mk(rng, 1))
                if n > 1:
                    o = list(range(n)); rng.shuffle(o); put(s, [ps[a] for a in o], [ms[a] for a in o])
                    q = list(ps); q[i], q[j] = q[j], q[i]; put(s, q, ms)
                    q = list(ms); q[i], q[j] = q[j], q[i]; put(s, ps, q)
                    # the first/second half of the claims only
                    for a in range(n): put(good([kk[a]], [ms[a]]), ps, ms)
                    for (a, b) in [(a, b) for a in range(n) for b in range(a + 1, n)]:
                        q = list(ms); q[b] = q[a]; put(good(kk, q), ps, q)
                    # cancelling claims
                    q = list(kk); q[j] = R - q[i] if False else q[j]
                    k2 = list(kk); k2[-1] = 0; put(good(k2, ms), [gmul(kg, k) for k in k2], ms)
                    same = [kk[0]] * n; put(good(same, ms), [gmul(kg, kk[0])] * n, ms)
                    put(s, ps[::-1], ms) if ps[::-1] != ps else None
                # last element wrong only
                q = list(kk); q[-1] = (q[-1] + 1) % R; put(good(q, ms), ps, ms)
                q = list(kk); q[0] = (q[0] + 1) % R; put(good(q, ms), ps, ms)
        return out, put, good, K
    def mkm(rng, n):
        pool = [b'', b'a', b'ab', b'aa', b'aab', b'b', b'\x00', b'\x00\x00', b'\xff', b'a\x00', bytes(32), bytes(33), b'\x01' * 32, rng.randbytes(32), rng.randbytes(64), b'\x80', b'\x7f']
        return rng.sample(pool, n)
    def gen_va(rng):
        out, put, good, K = lists(rng, mkm, H[hg_], lambda m, k: sigof(hg_, m, k), True)
        def chk(ms):
            kk = [rng.choice(K) for _ in ms]; put(good(kk, ms), [gmul(kg, k) for k in kk], ms)
        big = [bytes([i]) * (i % 5 + 1) for i in range(1, 21)]
        for n in around(300, 0, 1):
            ms = [b'%d' % i for i in range(n)]; chk(ms); chk(ms[:-1] + ms[:1])
        for n in (8, 12, 13, 16, 20):
            ms = big[:n]; chk(ms); o = list(ms); rng.shuffle(o); chk(o)
            for (a, b) in ((0, n - 1), (n // 2, n - 1), (1, n // 2), (0, 1), (n - 2, n - 1)):
                q = list(ms); q[b] = q[a]; chk(q)
        for ms in ([b'', None], [None, b'a', b''], [b'a', b''], [b'', b''], [None], [b'a', b'a'], [b'ab', b'a', b'ab'], [b'a', b'ab', b'abc'], [b'abc', b'ab', b'a'], [b'\x00', b''], [b'a', b'b', b'a', b'b'], [b'c', b'b', b'a', b'b'], [bytes(32) + b'a', bytes(32) + b'b'], [b'a' + bytes(32), b'b' + bytes(32)], [bytes(64), bytes(65)], [b'x' * 100 + b'1', b'x' * 100 + b'2', b'x' * 100 + b'1'], [b'\x7f', b'\x80', b'\x7f'], [b'\x80', b'\x7f', b'\xff', b'\x80'], [b'b', b'a', b'c', b'a']):
            chk(ms)
        k = 7; m1, m2 = b'a', b'b'
        put(sc.add(sigof(hg_, m1, k), sigof(hg_, m2, R - k)), [gmul(kg, k), gmul(kg, R - k)], [m1, m2])
        put(None, [gmul(kg, k), gmul(kg, R - k)], [m1, m1]); put(None, [gmul(kg, k), gmul(kg, R - k)], [m1, m2])
        shared = rng.randbytes(16); put(sc.add(sigof(hg_, shared, k), sigof(hg_, shared, k)), [gmul(kg, k)] * 2, [shared, shared])
        return out
    spec('C15', S('VerifyAggregate'), [sig, SList(pub), SList(msl)], res(boolean), sem_va, gen=gen_va)
    sem_c = lambda s, ps, m: s == sc.mul(H[hg_](m), sum(DL[kg][p] for p in ps or ()) % R)
    def gen_c(rng, sof, args):
        out = []; rp = lambda p: reps(p, ks, rng); rs = lambda p: reps(p, ss, rng); K = [k for k in keys(rng, 4) if k]
        for m in args:
            for n in [0, 1, 2, 3, 5, 9] + around(300, 0, 1):
                kk = [rng.choice(K) for _ in range(n)]; ps = [gmul(kg, k) for k in kk]; t = sum(kk) % R
                for s in [sof(m, t)] + ([sof(m, (t + 1) % R), None, sof(m, (t - kk[0]) % R), sof(m, (t - kk[-1]) % R), sof(m, R - t)] if n and n < 4 else [gmul(hg_, 1)]): out.append((rs(s), tuple(rp(p) for p in ps), m))
                if n: out.append((rs(sof(m, t)), tuple(rp(p) for p in ps[1:]), m)); out.append((rs(sof(m, t)), tuple(rp(p) for p in ps[::-1]), m)); out.append((rs(sof(m, t)), tuple(rp(p) for p in ps) + (rp(None),), m))
            k = rng.choice(K); one = rp(gmul(kg, k)); out.append((rs(sof(m, 2 * k % R)), (one, one), m)); out.append((rs(None), (rp(gmul(kg, k)), rp(gmul(kg, R - k))), m)); out.append((rs(sof(m, k)), (one,), m))
        return out
    spec('C15', S('VerifyAggregateCommon'), [sig, SList(pub), msl], res(boolean), sem_c, gen=lambda rng: [(a, ()) for a in gen_c(rng, lambda m, k: sigof(hg_, m, k), [None, b'', b'a', rng.randbytes(32), rng.randbytes(65)])])
    if pp == G1P:
        ds = lambda rng: [bytes(8), rng.randbytes(8), b'\x00' * 7 + b'\x02']
        def gen_cd(rng):
            out = []
            for d in ds(rng):
                out += [((a[0], a[1], a[2], d), ()) for a in gen_c(rng, lambda m, k: sigofd(m, d, k), [rng.randbytes(32)])]
                a = out[-1][0]; out.append(((a[0], a[1], a[2], bytes([d[0] ^ 1]) + d[1:]), ()))
            return out
        spec('C15', S('VerifyAggregateCommonWithDomain'), [sig, SList(pub), b32, b8], res(boolean), lambda s, ps, m, d: s == sc.mul(H['d'](m, d), sum(DL[kg][p] for p in ps or ()) % R), gen=gen_cd)
        def sem_vd(s, ps, ms, d):
            ps = ps or (); ms = ms or ()
            return len(ps) == len(ms) and s == sumsig(ps, ms, lambda m: H['d'](m, d))
        mem = {}
        def mk32(rng, n):
            if 'p' not in mem: mem['p'] = [bytes(32), b'\x00' * 31 + b'\x01', b'\x01' + bytes(31), rng.randbytes(32), rng.randbytes(32), rng.randbytes(32), b'\xff' * 32, rng.randbytes(32)]
            return rng.sample(mem['p'], n)
        def gen_vd(rng):
            d = rng.randbytes(8)
            out, put, good, K = lists(rng, mk32, None, lambda m, k: sigofd(m, d, k), False)
            out = [((*a, d), al) for a, al in out]
            for a, al in out[3:20:4]: out.append(((*a[:3], bytes([d[0] ^ 1]) + d[1:]), ()))
            return out
        spec('C15', S('VerifyAggregateWithDomain'), [sig, SList(pub), SList(b32), b8], res(boolean), sem_vd, gen=gen_vd)
    # ------------------------------------------------ C16
    kn, sn = (48, 96) if kg == 1 else (96, 48)
    kcomp, scomp = (ref.comp1, ref.comp2) if kg == 1 else (ref.comp2, ref.comp1)
    kenc, senc = (enc1, enc2) if kg == 1 else (enc2, enc1)
    sg = 2 if kg == 1 else 1
    allp = lambda so: (lambda rng: [((r,), ()) for r in so.pool(rng, 10)])
    spec('C16', S('Serialize'), [sig], res(SBytes(sn)), scomp, gen=allp(ss))
    spec('C16', PK('Serialize', ''), [pubv], res(SBytes(kn)), kcomp, gen=allp(ks))
    @functools.lru_cache(None)
    def decs(b, g):
        ok, p = ref.decomp(b, g)
        return (False, p) if ok and ref.insub(p, g) else (True, ANY)
    class SOptW(SPtr):
        def dec(self, x): return 'nil' if x is None else SPtr.dec(self, x)
    spec('C16', Pf('DeserializeSignature'), [senc], [(('res', 1), err), (('res', 0), SOptW(sigv))], lambda b: decs(b, sg), gen=lambda rng: [((b,), ()) for b in senc.pool(rng, 0)])
    spec('C16', Pf('DeserializePublicKey'), [kenc], [(('res', 1), err), (('res', 0), SOptW(pubv))], lambda b: decs(b, kg), gen=lambda rng: [((b,), ()) for b in kenc.pool(rng, 0)])
    spec('C16', SK('Serialize'), [skv], res(b32), lambda k: k.to_bytes(32, 'big'), gen=lambda rng: [((k,), ()) for k in keys(rng, 10) + fr.pool(rng, 10)])
    skb = lambda rng: [((k.to_bytes(32, 'big'),), ()) for k in keys(rng, 10) + fr.pool(rng, 10)]
    spec('C16', Pf('DeserializeSecretKey'), [b32], res(sk), lambda b: int.from_bytes(b, 'big'), pre=lambda b: int.from_bytes(b, 'big') < R, gen=skb)
    spec('C16', Pf('KeyFromFQRepr'), [pfrr], res(sk), lambda v: v, pre=lambda v: v < R, gen=lambda rng: [((k,), ()) for k in keys(rng, 10) + fr.pool(rng, 10)])
    spec('C16', Pf('DeriveSecretKey'), [b32], res(sk), ref.hsk, gen=lambda rng: [((b,), ()) for b in b32.pool(rng, 20)])
    spec('C16', SK('GetFRElement'), [skv], res(pfr), lambda k: k, gen=lambda rng: [((k,), ()) for k in KEYS])
    spec('C16', S('Copy'), [sig], res(sig), lambda p: p, gen=allp(ss))
    spec('C16', PK('Copy'), [pub], res(pub), lambda p: p, gen=allp(ks))
    spec('C16', S('GetPoint'), [sig], res(ptr(ss)), lambda p: p, gen=allp(ss))
    spec('C16', PK('GetPoint'), [pub], res(ptr(ks)), lambda p: p, gen=allp(ks))
    spec('C16', Pf('NewSignatureFromG%d' % sg), [ptr(sa)], res(sig), lambda p: p, gen=allp(sa))
    spec('C16', Pf('NewPublicKeyFromG%d' % kg), [ptr(ka)], res(pub), lambda p: p, gen=allp(ka))
    spec('C16', PK('Equals', ''), [pubv, pubv], res(boolean), lambda a, b: a == b, gen=gen_pair_eq(ks, kc))
def gen_pair_eq(so, c):
    def g(rng):
        ps = so.rawpool(rng, 4); out = []
        for p in ps:
            for q in [p, c.neg(p), ps[1], None]: out.append(((reps(p, so, rng), reps(q, so, rng)), ()))
            for z in so.zs(rng): out.append((((p, z) if p else (None, z), reps(p, so, rng)), ()))
        return out
    return g
variant(G1P, 1, 2); variant(G2P, 2, 1)
