"""C18: operations on untrusted input never crash and stop.

Each layer is executed symbolically over the layer below by contract, and every path must end without a panic, with
exactly one of value and error where an error can be returned:
 decoding       every byte string                                   (here)
 hashing        every content of messages of the listed lengths      (harness of C13)
 verification   every key, signature, message, list shape            (harness of C14, C15)
 pairing        a pairing value always exists: no line value is zero (here, on the formulas C11 shows the code computes)
 contracts used square roots, subgroup test, group operations, maps, Miller loop, final exponentiation (C06, C07, C08, C11, C12 re-run)
"""
from codec import *
import spec as SM, pspec, deps, ob_c11, ob_c12, ob_c13, ob_c14, ob_c15, random
from ringops import RH
LEVEL = 'model_checking'; SCENES = False
OUTSIDE = ['message lengths and list shapes as listed; scalars obtained from 32 bytes that are not below r give a key without value, which is not used further',
           'the square-root search of hashing with a domain stops after finitely many steps for every start (a run of q failures is impossible); its length is bounded only by the run of non-squares']
ASSUME = ['the square-root, subgroup, group, map and pairing contracts are those decided by C06, C07, C08, C11, C12 (re-run here)', 'F_q^12 is a field']
N_ = {1: 48, 2: 96}
def model(pr):
    v = TH.check(TH.pcs(pr.pc))
    return v[1] if v[0] == 'sat' else None
def decode_ob(ctx, arch, fn, n, kind, tag=''):
    name = '%s never crashes [%s]' % (fn.split('/')[-1].replace(P, ''), arch)
    def go(ctx):
        h = Codec(ctx, arch); bs = [z3.BitVec('b%d' % i, 8) for i in range(n)]; models = []; np = 0
        g = 1 if 'G1' in fn else 2
        if kind == 'raw': ov, _ = h.point(g, False)
        mk = h.mark(); inp = tuple(BV(b) for b in bs)
        if kind == 'sk':
            # the integer of the bytes, below r or not
            def tofr(ex, a):
                e = bv.simp(z3.Concat(*[tow(w, 64) for w in reversed(ex.load(a[0]))]))
                return ex.new((ex.new(ob_c13.FRV(e)),)) if ex.decide(bv.mkb(z3.ULT(e, z3.BitVecVal(R, 256)))) else None
            h.ex.contracts[P + 'FRReprToFR'] = tofr
        def body(ex):
            h.reset(mk)
            if kind == 'raw':
                q = ex.new(ov); ex.call(fn, (q, inp)); return None
            r = ex.call(fn, (inp,))
            if kind == 'sk': return None if r is not None else 'no key object'
            v, e = r
            if (v is None) == (e is None): return 'neither a value nor an error' if v is None else 'a value and an error'
            if v is None: return None
            w = ex.load(v)
            if kind == 'obj' and w[0] is None: return 'an object without value'
            return None
        for pr in h.ex.explore(body, 600):
            np += 1
            why = 'panic: %s in %s' % (pr.panic.msg, pr.panic.where) if pr.panic else pr.val
            if why:
                m = model(pr)
                if m is not None: models.append((fn, (model_bytes(m, bs),) if kind != 'raw' else (None, model_bytes(m, bs)), (), arch))
                return Rec(name, 'refuted' if models else 'open', why, models=models)
        return Rec(name, 'proved', '%d paths' % np)
    return Ob(name, go, [fn], 'every %d-byte string' % n, weight=8, timeout=300)
# ---- verification and hashing: the bodies of C14, C15, C13 with only crashes judged
def msgs_of(m):
    "messages of a model by name"
    out = {}
    for d in m.decls():
        a, _, k = d.name().rpartition('_')
        if a and k.isdigit() and a[0] in 'md' and (a == 'm' or a == 'd' or a[1:].isdigit()):
            out.setdefault(a, {})[int(k)] = m[d].as_long()
    return {a: bytes(x.get(i, 0x55) for i in range(max(x) + 1)) for a, x in out.items()}
def rec(name, pr, why):
    r = Rec(name, 'refuted', why)
    m = model(pr); r.msgs = msgs_of(m) if m is not None else {}
    return r
def quiet14(ctx, arch, name, body, judge):
    h = ob_c14.Proto(ctx, arch); np = 0; h.ex.feasible = h.feasible; h.pp = {'g1pubs': pspec.G1P, 'g2pubs': pspec.G2P}.get(name.split()[0])
    def th(ex): h.reset(); return body(h, ex)
    for pr in h.ex.explore(th, 400):
        np += 1
        if pr.panic: return rec(name, pr, 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
    return Rec(name, 'proved', '%d paths' % np)
def quiet13(ctx, arch, name, body, judge):
    h = ob_c13.Hash(ctx, arch); mk = h.mark(); np = 0
    def th(ex): h.reset(mk); h.hash0(); body(h, ex)
    for pr in h.ex.explore(th, 200):
        np += 1
        if pr.panic: return rec(name, pr, 'panic: %s in %s' % (pr.panic.msg, pr.panic.where))
    return Rec(name, 'proved', '%d paths' % np)
def wrap(o, mods):
    f = o.fn
    def go(ctx):
        keep = [(m, getattr(m, a)) for m, a, _ in mods]
        for m, a, v in mods: setattr(m, a, v)
        try: return f(ctx)
        finally:
            for (m, a, _), (_, v) in zip(mods, keep): setattr(m, a, v)
    o.fn = go; return o
# ---- pairing values exist
def lines(ctx):
    recs = []; ring = RH(ctx, next(iter(ctx.w)), 'fq2').ring
    v = ring.var; X, Y, Z, x, y = v('X'), v('Y'), v('Z'), v('x'), v('y')
    nz = lambda t: ring.bnot(ring.eq(t, 0))
    # products of non-zero elements: the formulas' leading coefficients as explicit products
    (X3, Y3, Z3), l = ob_c11.dblf(X, Y, Z)
    ok = ring.prove([], ring.eq(l[0], 2 * Y * Z * Z * Z), hyps=False)[0] == 'unsat' and ring.prove([], ring.eq(Z3, 2 * Y * Z), hyps=False)[0] == 'unsat'
    recs.append(Rec('tangent lines: the coefficient of y_P is 2 Y Z^3, the next Z is 2 Y Z', 'proved' if ok else 'open'))
    (X3, Y3, Z3), l = ob_c11.addf(X, Y, Z, x, y)
    ok = ring.prove([], ring.eq(l[0], 2 * Z * (x * Z * Z - X)), hyps=False)[0] == 'unsat' and ring.prove([], ring.eq(Z3, l[0]), hyps=False)[0] == 'unsat'
    recs.append(Rec('chords: the coefficient of y_P is the next Z, 2 Z (x Z^2 - X)', 'proved' if ok else 'open'))
    # no exceptional step on the prime-order subgroup: integers
    m = 1; bad = []
    for k, t in ob_c11.STEPS:
        if k == 'd':
            if 2 * m % R == 0: bad.append((k, t))
            m = 2 * m
        else:
            if (m - 1) % R == 0 or (m + 1) % R == 0: bad.append((k, t))
            m = m + 1
    import solve
    r = solve.run('(set-logic QF_LIA)\n(declare-const k Int)\n(assert (and (> k 1) (<= k %d) (or (= (mod k %d) 0) (= (mod (- k 1) %d) 0) (= (mod (+ k 1) %d) 0))))' % (m, R, R, R), 20, ['k'])
    recs.append(Rec('no partial multiple of a point of order r is infinity or plus or minus the point', 'proved' if not bad and r[0] == 'unsat' else 'open'))
    odd = R % 2 == 1 and noroot()
    recs.append(Rec('no point has y = 0', 'proved' if odd else 'open'))
    return recs
def list_fns():
    out = []
    for pp in (pspec.G1P, pspec.G2P):
        out += [pp + x for x in ('Verify', 'VerifyWithDomain', 'AggregateSignatures', 'AggregatePublicKeys', 'DeserializeSignature', 'DeserializePublicKey', 'DeserializeSecretKey', 'DeriveSecretKey', 'Sign', 'SignWithDomain')]
        out += ['(*%sSignature).%s' % (pp, x) for x in ('VerifyAggregate', 'VerifyAggregateWithDomain', 'VerifyAggregateCommon', 'VerifyAggregateCommonWithDomain', 'Aggregate', 'Serialize')]
        out += ['(*%sPublicKey).Aggregate' % pp, '(%sPublicKey).Serialize' % pp]
    out += [P + x for x in ('DecompressG1', 'DecompressG2', 'DecompressG1Unchecked', 'DecompressG2Unchecked', 'HashG1', 'HashG2', 'HashG2WithDomain', 'HashSecretKey', 'Pairing', 'CompareTwoPairings', 'FinalExponentiation', 'CompressG1', 'CompressG2')]
    out += ['(*%sG%dAffine).%s' % (P, g, x) for g in (1, 2) for x in ('SetRawBytes', 'SerializeBytes')]
    return out
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        raw = ctx.w[arch].p.raw
        for g in (1, 2):
            for fn, kind in ((P + 'DecompressG%d' % g, 'pt'), (P + 'DecompressG%dUnchecked' % g, 'pt'), ('(*%sG%dAffine).SetRawBytes' % (P, g), 'raw')):
                if fn in raw: obs.append(decode_ob(ctx, arch, fn, N_[g] * (2 if kind == 'raw' else 1), kind))
        for pp, k in ((pspec.G1P, 1), (pspec.G2P, 2)):
            for fn, n, kind in ((pp + 'DeserializePublicKey', N_[k], 'obj'), (pp + 'DeserializeSignature', N_[3 - k], 'obj'), (pp + 'DeserializeSecretKey', 32, 'sk')):
                if fn in raw: obs.append(decode_ob(ctx, arch, fn, n, kind))
        for o in ob_c14.obs_for(ctx, arch): obs.append(wrap(o, [(ob_c14, 'runob', quiet14)]))
        for o in ob_c15.obs_for(ctx, arch): obs.append(wrap(o, [(ob_c15, 'runob', quiet14)]))
        for o in ob_c13.obs_for(ctx, arch): obs.append(wrap(o, [(ob_c13, 'run', quiet13)]))
    obs.append(Ob('line values are never zero', lines, [P + 'Pairing'], 'every point of order r', weight=3))
    for o in ob_c11.obligations(ctx): obs.append(o)
    obs += deps.obs(ctx, 'sqrt', 'sub', 'maps', 'group')
    for o in obs: o.specs = []
    return obs
# ------------------------------------------------ concrete side
def crash(o):
    if o.get('timeout'): return 'did not return within its time limit'
    if o.get('missing') or not o.get('outs'): return None
    for x in o['outs']:
        if 'panic' in x: return 'panicked: ' + x['panic']
    return None
def cands(fn, s, rng, msgs, full):
    "argument tuples for one operation"
    last = fn.split(').')[-1].split('.')[-1]; out = []
    if s.gen and not last.startswith(('Verify', 'Aggregate', 'Deserialize')): out += s.gen(rng) if full else s.gen(rng)[:60]
    for i, so in enumerate(s.args): pass
    def ptvals(so):
        b = so
        while hasattr(b, 's'): b = b.s
        g = b.gen; c = b.c; z = b.zs(rng)
        # decoded points carry z = 1 and the standard infinity; sums of such carry other representations
        return [(None, None), (g, z[0]), (c.mul(g, rng.randrange(R)), z[0]), (c.neg(g), z[0]), (c.mul(g, 5), z[2]), (None, z[2])]
    base = lambda so: so.s.name if isinstance(so, SPtr) else so.name
    if last.startswith(('Verify', 'Aggregate')):
        pools = []
        islist = [isinstance(so, pspec.SList) for so in s.args]
        vals = []
        for so, L in zip(s.args, islist):
            e = so.s if L else so
            if isinstance(e, SSl): v = [None, b'', b'a', rng.randbytes(32), rng.randbytes(65), b'a'] + msgs
            elif isinstance(e, SBytes): v = [bytes(e.n), rng.randbytes(e.n), b'\xff' * e.n] + [m for m in msgs if len(m) == e.n]
            else: v = ptvals(e)
            vals.append(v)
        def pick(so, L, v, n, mode):
            if not L: return v[mode % len(v)] if mode < 6 else rng.choice(v)
            if n is None: return None
            if mode == 0: return tuple(v[0] for _ in range(n))
            if mode == 1: return tuple(v[min(1, len(v) - 1)] for _ in range(n))
            return tuple(rng.choice(v) for _ in range(n))
        nl = sum(islist); shapes = list(itertools.product([None, 0, 1, 2, 3] if nl > 1 else [None, 0, 1, 2, 3, 5, 9], repeat=nl)) or [()]
        big = [17, 33, 65, 130] + around(1100, 0, 1)
        if nl == 1: shapes += [(n,) for n in big]
        if nl == 2: shapes += [(n, n) for n in [4, 5, 8, 13] + big] + [(1, 5), (5, 1), (0, 9), (9, 0), (4, 3), (3, 4)]
        for sh in shapes:
            for mode in range(0, 8 if full or nl < 2 else 6) if max([x or 0 for x in sh] + [0]) < 20 else (4,):
                it = iter(sh); a = []
                for so, L, v in zip(s.args, islist, vals): a.append(pick(so, L, v, next(it) if L else 0, mode))
                out.append((tuple(a), ()))
        if nl == 0:
            for t in itertools.islice(itertools.product(*[v[:7] for v in vals]), 400): out.append((t, ()))
        if nl and any(islist) and msgs:
            for m in msgs:
                for n in (1, 2, 3):
                    a = [tuple([m] * n) if L and isinstance(so.s, (SSl, SBytes)) else tuple(rng.choice(v) for _ in range(n)) if L else m if isinstance(so, SSl) else rng.choice(v) for so, L, v in zip(s.args, islist, vals)]
                    if all(not isinstance(getattr(so, 's', so), SBytes) or True for so in s.args): out.append((tuple(a), ()))
        if s.gen: 
            g = s.gen(rng); out += g if full else rng.sample(g, min(40, len(g)))
        return out
    if last.startswith('Deserialize') and s.gen: return s.gen(rng)
    if not s.gen: out += SM.candidates(s, rng, None, 700 if full else 300)
    if s.args and all(isinstance(so, SSl) for so in s.args): out += [((m,), ()) for m in msgs]
    return out
def concrete(S, rest, rng):
    S.only_crash = True
    ctx = S.ctx; full = bool(rest)
    msgs = []
    for r in rest:
        for m in getattr(r, 'msgs', {}).values():
            if m not in msgs and len(msgs) < 12: msgs.append(m)
    import run as R_
    jobs = []
    for r in rest:
        for (fn, raws, al, arch) in r.models:
            s = SPECS.get(fn)
            if s and 'SetRawBytes' in fn: raws = (s.args[0].pool(rng, 1)[1], raws[1])
            if s: jobs.append((fn, arch, [(raws, al)]))
    for fn in list_fns():
        s = SPECS.get(fn)
        if s is None: continue
        for arch in ctx.w:
            if fn not in ctx.w[arch].p.raw: continue
            r2 = random.Random('%d %s' % (SEED, fn)); c = cands(fn, s, r2, msgs, full)
            if arch != 'amd64' and not full: c = c[::3]
            for k in range(0, len(c), 150): jobs.append((fn, arch, c[k:k + 150]))
    for arch in ctx.w:
        for pk in {R_.pkgof(j[0]) for j in jobs if j[1] == arch}: S.driver(arch, pk).build_quiet(S)
    global CX
    CX = S
    import run as R_
    R_.gather(S, one, jobs); v = S.violations; S.violations = []
    seen = set()
    for x in v:
        if x['what'] not in seen: S.violations.append(x); seen.add(x['what'])
def one(job):
    fn, arch, c = job; S = CX
    S.violations = []; S.notes = []; S.concrete = 0
    try: S.run_spec(SPECS[fn], arch, c, limit=1)
    except Exception as e: S.notes.append('candidates of %s not run: %s: %s' % (fn, type(e).__name__, e))
    return S.violations, S.notes, S.concrete
