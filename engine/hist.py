"""Sequences of calls with operands that differ in one part only: a result must not depend on what was computed before for
operands that merely resemble it (same prefix, same word, same x coordinate, same length)."""
import random
from spec import *
import spec, pspec, replay, ref
def flip(b, i, m=1): return b[:i] + bytes([b[i] ^ m]) + b[i + 1:]
def nbytes(b):
    n = len(b)
    if not n: return []
    return [flip(b, i, m) for i, m in dict(((0, 1), (n - 1, 1), (n // 2, 4), (n // 4, 128), (3 * n // 4, 2))).items()] + ([flip(b, 7), flip(b, 8)] if n > 8 else []) + ([flip(b, 31), flip(b, n - 32)] if n > 32 else [])
def nint(v, bits, mod=None, rr=1, rri=1):
    w = 1 << bits
    out = [v ^ 1, v ^ 1 << bits - 5, v ^ 1 << bits // 2, v ^ 1 << 32 if bits > 64 else v + 1, v ^ 1 << 64 if bits > 64 else v - 1]
    if mod:
        m = v * rr % mod
        out += [x * rri % mod for x in (m ^ 1, m ^ 1 << bits - 5, m ^ 1 << bits // 2, m ^ 1 << 64) if x < mod] + [-v % mod]
        return [x for x in out if 0 <= x < mod]
    return [x % w for x in out]
BETA = next(b for b in (pow(g, (Q - 1) // 3, Q) for g in range(2, 50)) if b != 1)
LAM = next(l for l in (pow(g, (R - 1) // 3, R) for g in range(2, 50)) if l != 1)
def npoint(so, raw):
    c = so.c; z = raw[1] if so.proj else None; p = raw[0] if so.proj else raw
    put = lambda q, zz=None: ((q, zz or z or so.zs(random.Random(1))[2]) if so.proj else q)
    if p is None: return [put(so.gen), put(c.neg(so.gen))]
    g = 1 if c is ref.E1 else 2; dl = pspec.DL[g]; k = dl.get(p)
    bx = (lambda x: x * BETA % Q) if g == 1 else (lambda x: (x[0] * BETA % Q, x[1] * BETA % Q))
    ng, gp, en = c.neg(p), c.add(p, so.gen), (bx(p[0]), p[1])
    if k is not None:
        dl.setdefault(ng, -k % R); dl.setdefault(gp, (k + 1) % R)
        for l in (LAM, LAM * LAM % R):
            q = pspec.gmul(g, k * l % R)
            if q == en: dl[en] = k * l % R
    out = [put(ng), put(en), put(gp), put(None)]
    if so.proj:
        # the same x or z word for word with other values beside it
        zz = so.zs(random.Random(2))
        out += [put(p, zz[2]), put(p, zz[0]), put(ng, zz[2])]
        if g == 2: out += [put(p, (zz[2][0], zz[2][1])), put(ng, (0, 1))]
    return out
def enc_near(so, b):
    "encodings that share one part of the x coordinate"
    g = so.g; out = [flip(b, 0, 0x20)]
    if b[0] & 0x40 or not b[0] & 0x80: return out + nbytes(b)
    rng = random.Random(b)
    for part in range(2):
        for k in range(1, 200):
            if g == 2: c = bytearray(b); c[(95 if part else 47) - (k % 3)] ^= 1 + k % 255; c = bytes(c)
            else: c = bytearray(b); c[(47 if part else 1 + k % 3)] ^= 1 + k % 255; c = bytes(c)
            if c not in out and ref.decomp(c, g)[0]: out += [c, flip(c, 0, 0x20)]; break
    return out + nbytes(b)[:4]
def nears(so, raw):
    "values that differ from raw in one part"
    if raw is None and not isinstance(so.s if isinstance(so, SPtr) else so, (SPt, pspec.SStruct1)): return []
    if isinstance(so, SPtr) or isinstance(so, pspec.SStruct1): return nears(so.s, raw)
    if isinstance(so, SEnc): return enc_near(so, raw)
    if isinstance(so, SPt): return npoint(so, raw)
    if isinstance(so, SFq): return nint(raw, 381, Q, RQ, RQI)
    if isinstance(so, SFr): return nint(raw, 255, R, RR, RRI)
    if isinstance(so, SRepr): return nint(raw, 64 * so.w)
    if isinstance(so, (SFq2, SFq6, SFq12)):
        out = []
        def leaf(v, f, top):
            if isinstance(v, int): return [f(x) for x in (nint(v, 381, Q, RQ, RQI)[:7:3] if top == 2 else nint(v, 381, Q, RQ, RQI)[1:7:5])]
            r = []
            for i, x in enumerate(v): r += leaf(x, lambda y, i=i, v=v, f=f: f(v[:i] + (y,) + v[i + 1:]), top)
            return r
        n = 2 if isinstance(so, SFq2) else 12
        out = leaf(raw, lambda x: x, n)
        if n == 2: out += [(raw[1], raw[0]), (raw[0], -raw[1] % Q), (-raw[0] % Q, raw[1])]
        if isinstance(so, SFq12): out = out[::2] + [(raw[1], raw[0]), ref.conj12(raw)]
        return out
    if isinstance(so, pspec.SList):
        if not raw: return []
        out = []
        for i in {0, len(raw) - 1, len(raw) // 2}:
            for x in nears(so.s, raw[i])[:3]: out.append(raw[:i] + (x,) + raw[i + 1:])
        if len(raw) > 1: out += [(raw[1], raw[0]) + raw[2:], raw[:-1], raw[1:], raw + raw[-1:]]
        return out
    if isinstance(so, SSl): return [] if raw is None else pspec.near(raw, random.Random(1)) + nbytes(raw)[3:]
    if isinstance(so, (SBytes, SSer)): return nbytes(raw) if isinstance(so, SBytes) else []
    if isinstance(so, SBig): return [raw ^ 1, raw ^ 1 << 64, raw ^ 1 << 250] if raw >= 0 else []
    if so.name in ('u64',): return nint(raw, 64)
    if so.name in ('idx', 'shift', 'pow'): return [x for x in so.vals if abs(x - raw) < 70 and x != raw][:4]
    return []
def seqs(s, rng, cap, nbase):
    c = [x[0] for x in spec.candidates(s, rng, None, 60 if not s.gen else None) if not x[1]]
    if not c: return []
    def sem(raws):
        ms = [so.mean(r) for so, r in zip(s.args, raws)]
        if s.pre and not s.pre(*ms): raise ValueError
        return s.sem(*ms)
    # bases of every outcome, preferring long and random operands
    bases = []; outc = set()
    for raws in rng.sample(c, min(len(c), 14)):
        try: e = sem(raws)
        except Exception: continue
        k = e if isinstance(e, bool) else e[0] if isinstance(e, tuple) and isinstance(e[0], bool) else type(e)
        rich = sum(len(nears(so, r)) for so, r in zip(s.args, raws))
        if rich: bases.append((k in outc, -rich, len(bases), raws)); outc.add(k)
    bases = [b[3] for b in sorted(bases)[:nbase]]; out = []
    for n, b in enumerate(bases):
        alts = []
        for i, so in enumerate(s.args):
            for x in nears(so, b[i]):
                if x != b[i]: alts.append(b[:i] + (x,) + b[i + 1:])
        k = -(-cap // len(bases))
        if len(alts) > k: alts = rng.sample(alts, k)
        for a in alts:
            try: sem(a)
            except Exception: continue      # outside the domain of the specification
            out.append([b, a, b] if n % 2 == 0 else [a, b, a])
    return out
def case(prog, s, seq):
    e = replay.Enc(prog); keep = []; calls = []; f = prog.raw[s.fn]
    for raws in seq:
        vs = [so.enc(r) for so, r in zip(s.args, raws)]; keep.append(vs)
        calls.append({'fn': s.fn, 'args': [e(t, v) for t, v in zip(f['ptypes'], vs)]})
    return {'calls': calls}
def run(S, fns, full):
    jobs = []
    import run as R_
    for fn in fns:
        for arch in S.ctx.w:
            if arch != 'amd64' and not full or fn not in S.ctx.w[arch].p.raw or fn not in spec.SPECS: continue
            S.driver(arch, R_.pkgof(fn)).build_quiet(S); jobs.append((fn, arch))
    global CX
    CX = S
    old, S.violations = S.violations, []
    R_.gather(S, one, jobs); S.violations = old + S.violations
HEAVY = ('C11',)
def one(job):
    fn, arch = job; S = CX; s = spec.SPECS[fn]
    S.violations = []; S.notes = []; S.concrete = 0
    prog = S.ctx.w[arch].p; rng = random.Random('%d history %s' % (SEED_, fn))
    deep = 1 if S.tier == 'quick' else 6
    import run as R_
    try:
        ss = seqs(s, rng, (6 if s.prop in HEAVY else 24) * deep, 2 * deep)
        if not ss: return S.violations, S.notes, S.concrete
        outs = S.driver(arch, R_.pkgof(fn)).run([case(prog, s, q) for q in ss], timeout=200)
        for q, o in zip(ss, outs):
            if o.get('missing') or not o.get('outs'): continue
            S.concrete += len(q)
            for i, (raws, x) in enumerate(zip(q, o['outs'])):
                m = spec.judge(prog, s, raws, {'outs': [x]})
                if m and not S.only_crash:
                    S.violation(fn, arch, case(prog, s, q), '%s(%s)%s %s' % (fn.replace(P, ''), ', '.join(spec.show(r) for r in raws), ' after %s' % '; '.join('(%s)' % ', '.join(spec.show(r) for r in b) for b in q[:i]) if i else '', m))
                    return S.violations, S.notes, S.concrete
    except Exception as e:
        import traceback
        S.notes.append('sequences of %s not run: %s: %s %s' % (fn, type(e).__name__, e, traceback.format_exc()[-300:].replace('\n', ' / ')))
    return S.violations, S.notes, S.concrete
SEED_ = int(__import__('os').environ.get('VERIF_SEED', '1') or 1)
