"""Sequences of calls on the real code: results must stay what they were whatever is done to other objects later, and
must not depend on what was called before."""
import random
from spec import *
import spec, replay
def deref(so): return so.s if isinstance(so, SPtr) else so
def mutators():
    "in-place operations by the sort they change"
    out = {}
    for fn, s in spec.SPECS.items():
        if len(s.outs) == 1 and s.outs[0][0] == ('post', 0) and fn.startswith('(*') and isinstance(s.args[0], SPtr):
            out.setdefault(s.args[0].s.name, []).append(s)
    return out
# constructors that assemble an object from the parts they are given keep those parts
WRAPS = {P + 'NewFQ12'}
class Scene:
    def __init__(self, prog): self.p = prog; self.calls = []; self.checks = []; self.desc = []; self.e = replay.Enc(prog)
    def new(self, t, so, raw):
        "an object for an argument of Go type t; returns the JSON argument referring to it and the reference itself"
        ty = self.p.types[t]; s = ty['s']
        val = so.enc(raw); e = self.e
        u = self.p.under(t)
        if val is None: return e(t, None), None
        if u['k'] == 'ptr':
            self.calls.append({'fn': '@new', 'args': [s, e(t, val)]}); i = len(self.calls) - 1
            return {'ref': [i, 0]}, (i, 0)
        if '*' + s in self.ptrs:
            self.calls.append({'fn': '@new', 'args': ['*' + s, {'p': 100000 + len(self.calls), 'v': e(t, val)}]}); i = len(self.calls) - 1
            return {'ref': [i, 0, 1]}, (i, 0)
        return e(t, val), None
def build(prog, pkg):
    "pointer types the driver knows"
    st = set()
    for fn in prog.raw:
        if not replay.opname(fn, pkg): continue
        for t in prog.raw[fn]['ptypes'] + prog.raw[fn]['results']:
            s0 = prog.types[t]['s']
            if s0.startswith('*'): st.add(s0)
            elif not any(x in s0 for x in ('func', 'struct', 'error')): st.add('*' + s0)
    return st
def scenes(prog, s, muts, rng, cands, ptrs, nmut):
    "scenes for one specification"
    f = prog.raw[s.fn]; out = []
    pt, rt = f['ptypes'], f['results']
    outsl = [(wh, k, so, (pt if wh == 'post' else rt)[k]) for ((wh, k), so) in s.outs]
    def setup(raws):
        sc = Scene(prog); sc.ptrs = ptrs; args = []; refs = []
        for t, so, r in zip(pt, s.args, raws):
            a, ref = sc.new(t, so, r); args.append(a); refs.append(ref)
        sc.calls.append({'fn': s.fn, 'args': args}); n = len(sc.calls) - 1
        exp = s.sem(*[so.mean(r) for so, r in zip(s.args, raws)])
        if len(s.outs) == 1: exp = (exp,)
        return sc, refs, n, exp, args
    def outref(n, refs, wh, k): return (n, k) if wh == 'res' else refs[k]
    def mutate(sc, m, ref):
        mt = prog.raw[m.fn]['ptypes']; args = [{'ref': list(ref)}]
        c = spec.candidates(m, random.Random(5), None, 30); raws = rng.choice(c[3:20])[0]
        for t, so, r in list(zip(mt, m.args, raws))[1:]:
            a, _ = sc.new(t, so, r); args.append(a)
        sc.calls.append({'fn': m.fn, 'args': args}); sc.desc.append(m.fn)
    def peek(sc, ref, t, so, want, what):
        sc.calls.append({'fn': '@peek', 'args': list(ref)}); sc.checks.append((len(sc.calls) - 1, t, so, want, what))
    mod = {k for wh, k, so, t in outsl if wh == 'post'} | set(s.mut)
    for raws, al in cands:
        if al or s.fn in WRAPS: continue
        ms = [so.mean(r) for so, r in zip(s.args, raws)]
        try: probe = setup(raws)
        except Exception: continue
        # A: change the result, look at the arguments and the constants
        for (wh, k, so, t), ex in zip(outsl, probe[3]):
            if ex is ANY or (isinstance(ex, str) and ex == 'nil') or isinstance(ex, bool): continue
            if not prog.types[t]['s'].startswith('*'): continue
            ml = [m for m in muts.get(deref(so).name, []) if replay.opname(m.fn, f_pkg(s.fn)) and m.fn in prog.raw]
            for m in rng.sample(ml, min(nmut, len(ml))):
                sc, refs, n, exp, args = setup(raws); r = outref(n, refs, wh, k)
                if r is None: continue
                mutate(sc, m, r)
                for i, (t2, so2, want) in enumerate(zip(pt, s.args, ms)):
                    if i in mod or refs[i] is None: continue
                    peek(sc, refs[i], t2, so2, want, 'argument %d after the result was changed by %s' % (i, m.fn.replace(P, '')))
                sc.title = 'A'; out.append((sc, raws))
        # B: change an argument, look at the results
        for i, (t2, so2) in enumerate(zip(pt, s.args)):
            if i in mod: continue
            ml = [m for m in muts.get(deref(so2).name, []) if replay.opname(m.fn, f_pkg(s.fn)) and m.fn in prog.raw]
            for m in rng.sample(ml, min(nmut, len(ml))):
                sc, refs, n, exp, args = setup(raws)
                if refs[i] is None: continue
                mutate(sc, m, refs[i])
                for (wh, k, so, t), ex in zip(outsl, exp):
                    r = outref(n, refs, wh, k)
                    if ex is ANY or r is None: continue
                    peek(sc, r, t, so, ex, 'result after argument %d was changed by %s' % (i, m.fn.replace(P, '')))
                sc.title = 'B'; out.append((sc, raws))
    # D: the same call again on the same objects after one of them was changed in place
    for raws, al in cands:
        if al: continue
        ms = [so.mean(r) for so, r in zip(s.args, raws)]
        for i, (t2, so2) in enumerate(zip(pt, s.args)):
            ml = [m for m in muts.get(deref(so2).name, []) if replay.opname(m.fn, f_pkg(s.fn)) and m.fn in prog.raw]
            for m in rng.sample(ml, min(nmut, len(ml))):
                try: sc, refs, n, exp, args = setup(raws)
                except Exception: continue
                if refs[i] is None or i in mod: continue
                c = [x for x in spec.candidates(m, random.Random(5), None, 30)[3:20] if not x[1]]
                if not c: continue
                mr = rng.choice(c)[0]; a2 = [{'ref': list(refs[i])}]; mt = prog.raw[m.fn]['ptypes']
                for t, so, r in list(zip(mt, m.args, mr))[1:]: a2.append(sc.new(t, so, r)[0])
                try: new = m.sem(ms[i], *[so.mean(r) for so, r in list(zip(m.args, mr))[1:]])
                except Exception: continue
                if len(m.outs) != 1 or new is ANY or new is None: continue
                try:
                    if s.pre and not s.pre(*(ms[:i] + [new] + ms[i + 1:])): continue
                    if m.pre and not m.pre(ms[i], *[so.mean(r) for so, r in list(zip(m.args, mr))[1:]]): continue
                    exp2 = s.sem(*(ms[:i] + [new] + ms[i + 1:]))
                except Exception: continue          # outside the domain of the specification
                if len(s.outs) == 1: exp2 = (exp2,)
                sc.calls.append({'fn': m.fn, 'args': a2}); sc.calls.append({'fn': s.fn, 'args': args}); n2 = len(sc.calls) - 1
                for (wh, k, so, t), e1, e2 in zip(outsl, exp, exp2):
                    if wh != 'res': continue
                    if e2 is not ANY: peek(sc, (n2, k), t, so, e2, 'result of the same call after argument %d was changed by %s' % (i, m.fn.replace(P, '')))
                sc.title = 'D'; out.append((sc, raws))
    # C: other calls in between
    cs = [c for c in cands if not c[1]]
    for raws, al in cs[:4]:
        try: sc, refs, n, exp, args = setup(raws)
        except Exception: continue
        for raws2, _ in rng.sample(cs, min(3, len(cs))):
            a2 = [sc.new(t, so, r)[0] for t, so, r in zip(pt, s.args, raws2)]; sc.calls.append({'fn': s.fn, 'args': a2})
        for (wh, k, so, t), ex in zip(outsl, exp):
            r = outref(n, refs, wh, k)
            if ex is ANY or r is None: continue
            peek(sc, r, t, so, ex, 'result after later calls')
        refs3 = []; a3 = []
        for t, so, r in zip(pt, s.args, raws): a, rf = sc.new(t, so, r); a3.append(a); refs3.append(rf)
        sc.calls.append({'fn': s.fn, 'args': a3}); n3 = len(sc.calls) - 1
        for (wh, k, so, t), ex in zip(outsl, exp):
            r = (n3, k) if wh == 'res' else refs3[k]
            if ex is ANY or r is None: continue
            peek(sc, r, t, so, ex, 'result of the same call after other calls')
        sc.title = 'C'; out.append((sc, raws))
    return out
def f_pkg(fn):
    fn = fn.lstrip('(*'); i = fn.rfind('/')
    return fn[:i + 1] + fn[i + 1:].split('.')[0]
def judge(prog, sc, o):
    if o.get('timeout'): return 'did not return within its time limit'
    if o.get('missing') or not o.get('outs'): return None
    for x in o['outs']:
        if x.get('missing') or x.get('bad'): return None
        if 'panic' in x: return 'panicked: ' + x['panic']
    for (i, t, so, want, what) in sc.checks:
        d = replay.Dec(prog); j = o['outs'][i]['res'][0]
        # value-typed objects were created behind a pointer
        if not isinstance(so, (SPtr, SList_)) and isinstance(j, dict) and 'v' in j and prog.types[t]['k'] != 'ptr' and prog.under(t)['k'] != 'ptr': j = j['v']
        try: got = so.dec(d(t, j))
        except Bad as b: return '%s: %s' % (what, b)
        if not spec.close(want, got): return '%s: %s instead of %s' % (what, show(got), show(want))
    w = [k for k in o.get('gwhich') or () if k.split('.')[-1][:1].isupper()]      # the package's own scratch may change
    if o.get('gchanged') and w: return 'package-level values changed: %s' % w
    return None
class SList_: pass
def run(S, fns, full, per=3, nmut=2):
    "scenes for the given specification names on every architecture"
    jobs = []
    for fn in fns:
        for arch in S.ctx.w:
            if arch != 'amd64' and not full: continue
            if fn in S.ctx.w[arch].p.raw:
                S.driver(arch, f_pkg(fn)).build_quiet(S); jobs.append((fn, arch))
    global CX
    CX = (S, mutators(), per, nmut)
    import run as R_
    old, S.violations = S.violations, []
    R_.gather(S, one, jobs); S.violations = old + S.violations
def one(job):
    fn, arch = job; S, muts, per, nmut = CX
    S.violations = []; S.notes = []; S.concrete = 0
    rng = random.Random('scene %s' % fn)
    prog = S.ctx.w[arch].p; s = spec.SPECS[fn]
    try:
        c = [x for x in spec.candidates(s, random.Random('c %s' % fn), None, 40) if not x[1]]
        c = c[:2] + rng.sample(c, min(len(c), per * 4))
        ptrs = build(prog, f_pkg(fn))
        ss = scenes(prog, s, muts, rng, c[:per + 2] + c[-per:], ptrs, nmut)
        outs = S.driver(arch, f_pkg(fn)).run([{'calls': sc.calls, 'globals': True} for sc, raws in ss], timeout=200)
        for (sc, raws), o in zip(ss, outs):
            if o.get('missing'): break
            for x in o.get('outs') or ():
                if x.get('bad') or x.get('missing'): S.notes.append('scene of %s not run: %s' % (fn, x)); break
            S.concrete += 1
            m = judge(prog, sc, o)
            if m:
                S.violation(fn, arch, {'calls': sc.calls, 'globals': True}, '%s(%s): %s' % (fn.replace(P, ''), ', '.join(spec.show(r) for r in raws), m)); break
    except Exception as e:
        import traceback
        S.notes.append('scenes of %s not run: %s: %s %s' % (fn, type(e).__name__, e, traceback.format_exc()[-300:].replace('\n', ' / ')))
    return S.violations, S.notes, S.concrete
