"""Obligations about the extension tower on formal ring elements."""
from frame import *
from spec import *
from ring import *
import ref, functools
for nm in ('frob6', 'frob12'):
    pass
@functools.lru_cache(None)
def gamma(k, d): return ref.e2(ref.XI, (Q ** k - 1) // d)
def frob6(a, k):
    k %= 6; g = gamma(k, 3)
    return (frob2(a[0], k), ref.m2(frob2(a[1], k), g), ref.m2(frob2(a[2], k), ref.m2(g, g)))
def frob2(a, k): return a if k % 2 == 0 else (a[0], -a[1] % Q)
def frob12(a, k):
    k %= 12; g = gamma(k, 6)
    return (frob6(a[0], k), tuple(ref.m2(x, g) for x in frob6(a[1], k)))
SEM = {'(*FQ6).FrobeniusMapAssign': frob6, '(*FQ12).FrobeniusMapAssign': frob12}
ORDER = ['fq', 'fq2', 'fq6', 'fq12']
class RH:
    def __init__(self, ctx, arch, lv, tmo=30):
        self.ring = Ring(tmo=tmo); self.lv = lv
        self.ex = ctx.exec(arch)
        if lv == 'fq12': pass
        if lv in ('fq', 'fq2', 'fq6'): self.ex.contracts.update(self.ring.contracts(lv))
        self.ex.feasible = self.ring.feasible
    def build(self, so, name, val=None):
        "(engine value, meaning); val: fixed value for integers"
        ex, ring, lv = self.ex, self.ring, self.lv
        if isinstance(so, SPtr):
            v, m = self.build(so.s, name, val); return ex.new(v, 'arg ' + name), m
        n = so.name
        if n == lv:
            t = ring.var(name); return ring.mkel(t, lv), t
        if n == 'fq2':
            (a, x), (b, y) = self.build(fq, name + '0'), self.build(fq, name + '1'); return (a, b), (x, y)
        if n == 'fq6':
            r = [self.build(fq2, name + str(i)) for i in range(3)]
            return tuple(z[0] for z in r), tuple(z[1] for z in r)
        if n == 'fq12':
            r = [self.build(fq6, name + str(i)) for i in range(2)]
            return tuple(ex.new(z[0], 'arg %s.c%d' % (name, i)) for i, z in enumerate(r)), tuple(z[1] for z in r)
        if n in ('g1p', 'g2p'):
            r = [self.build(so.f, name + c) for c in 'xyz']
            return tuple(z[0] for z in r), tuple(z[1] for z in r)
        if n in ('g1a', 'g2a'):
            r = [self.build(so.f, name + c) for c in 'xy']
            return tuple(z[0] for z in r) + (bool(val),), tuple(z[1] for z in r) + (bool(val),)
        if val is not None: return val, val
        raise Unsupported('argument sort ' + n)
    def read(self, so, v):
        ex, ring, lv = self.ex, self.ring, self.lv
        if isinstance(so, SPtr):
            if v is None: return None
            return self.read(so.s, ex.load(v))
        n = so.name
        if isinstance(v, RE) or n == lv: return ring.lift(v, n if isinstance(v, RE) and v.lv == n else lv)
        if n == 'fq': return ring.lift(v, 'fq')
        if n == 'fq2':
            return (ring.lift(v[0], 'fq'), ring.lift(v[1], 'fq'))
        if n == 'fq6': return tuple(self.read(fq2, x) for x in v)
        if n == 'fq12': return tuple(self.read(fq6, ex.load(x)) for x in v)
        if n in ('g1p', 'g2p'): return tuple(self.read(so.f, x) for x in v)
        if n in ('g1a', 'g2a'): return tuple(self.read(so.f, x) for x in v[:2]) + (v[2],)
        return v
    def same(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            r = True
            for a, b in zip(x, y): r = self.ring.band(r, self.same(a, b))
            return r
        if isinstance(x, bool) or isinstance(y, bool): return x is y
        return self.ring.eq(x, y)
    def flat(self, x, y):
        if isinstance(x, tuple):
            for a, b in zip(x, y): yield from self.flat(a, b)
        else: yield x, y
    def value(self, model, m):
        "concrete raw value of a meaning under a model"
        if isinstance(m, tuple): return tuple(self.value(model, x) for x in m)
        if isinstance(m, N): return model.get(m.a) or 0 if m.op == 'v' else m.a
        return m
def prove_same(h, pc, x, y, facts=True):
    "each component equal on this path"
    g = True
    for a, b in h.flat(x, y): g = h.ring.band(g, h.ring.eq(a, b))
    if h.ring.prove([], g, hyps=False, tmo=10)[0] == 'unsat': return ('unsat', None)
    for a, b in h.flat(x, y):
        g = h.ring.eq(a, b)
        r = h.ring.prove([], g, hyps=False)
        if r[0] == 'unsat': continue
        if facts:
            ok = False
            for t, n in h.ring.invs:           # a = b * (t*n) with t*n = 1
                if h.ring.prove([], h.ring.eq(a, b * t * n), hyps=False)[0] == 'unsat' or h.ring.prove([], h.ring.eq(a * t * n, b), hyps=False)[0] == 'unsat': ok = True; break
            if ok: continue
        if h.lv == 'fq':
            r = h.ring.prove(pc, g)
            if r[0] == 'unsat': continue
        return r
    return ('unsat', None)
def shortname(fn): return fn.replace(P, '')
def ring_op(fn, arch, lv, alias=(), ints=None, goal=None, sem=None):
    """symbolic run of a specification; ints: position -> fixed integer;
    goal(h, ms, outs) -> list of (label, x, y) or formulas; default: the specification's function on terms"""
    def go(ctx):
        s = SPECS[fn]; short = shortname(fn)
        tag = '%s [%s, %s]%s%s' % (short, lv, arch, ' same object' if alias else '', ' ' + str(ints) if ints else '')
        h = RH(ctx, arch, lv)
        def body(ex):
            h.ring.invs = []
            vals, ms = [], []
            for i, so in enumerate(s.args):
                hit = [x for x, y in alias if y == i]
                if hit: vals.append(vals[hit[0]]); ms.append(ms[hit[0]]); continue
                # the same variables on every path
                if i not in cache: 
                    v, m = h.build(so, 'x%d' % i, (ints or {}).get(i)); cache[i] = m
                else:
                    nv = h.ring.nv; v, m = rebuild(h, so, cache[i])
                vals.append(v); ms.append(m)
            r = ex.call(fn, tuple(vals))
            rs = r if len(ctx.w[arch].p.raw[fn]['results']) != 1 else (r,)
            outs = [h.read(so, (vals if wh == 'post' else rs)[k]) for (wh, k), so in s.outs]
            mod = [k for (wh, k), so in s.outs if wh == 'post']
            keep = []
            for i, so in enumerate(s.args):
                if i in mod or any(i in al and set(al) & set(mod) for al in alias): continue
                if isinstance(so, SPtr) or so.name == 'fq12': keep.append((i, h.read(so, vals[i]), ms[i]))
            return ms, outs, keep, list(h.ring.invs)
        cache = {}
        npaths = 0; bad = None
        for pr in h.ex.explore(body, 64):
            npaths += 1
            if pr.panic:
                if h.ring.prove(pr.pc, False)[0] == 'unsat': continue
                bad = ('panic: ' + pr.panic.msg, ('sat', None), None); break
            ms, outs, keep, h.ring.invs = pr.val
            gs = (goal or default_goal)(h, s, sem or SEM.get(short) or s.sem, ms, outs)
            gs += [('operand %d unchanged' % i, x, y) for i, x, y in keep]
            for g in gs:
                if len(g) == 2: r = h.ring.prove(pr.pc, g[1])
                else:
                    if g[1] is None: r = ('sat', None)
                    else: r = prove_same(h, pr.pc, g[1], g[2])
                if r[0] != 'unsat': bad = (g[0], r, ms); break
            if bad: break
        models = []
        if bad and bad[2] and bad[1][0] == 'sat' and bad[1][1] and lv == 'fq':
            try: models = [(fn, tuple(h.value(bad[1][1], m) for m in bad[2]), alias, arch)]
            except Exception: pass
        ok = bad is None and npaths > 0
        return Rec(tag, 'proved' if ok else 'refuted' if bad and bad[1][0] == 'sat' else 'open', '%d paths' % npaths if ok else '%s: %s' % (bad[0], bad[1][0]) if bad else 'no path', models=models)
    return go
def rebuild(h, so, m):
    "engine value for an existing meaning"
    ex = h.ex
    if isinstance(so, SPtr): return ex.new(rebuild(h, so.s, m)[0], 'arg'), m
    n = so.name
    if n == h.lv: return h.ring.mkel(m, h.lv), m
    if n == 'fq2': return tuple(rebuild(h, fq, x)[0] for x in m), m
    if n == 'fq6': return tuple(rebuild(h, fq2, x)[0] for x in m), m
    if n == 'fq12': return tuple(ex.new(rebuild(h, fq6, x)[0], 'arg c%d' % i) for i, x in enumerate(m)), m
    if n in ('g1p', 'g2p'): return tuple(rebuild(h, so.f, x)[0] for x in m), m
    if n in ('g1a', 'g2a'): return tuple(rebuild(h, so.f, x)[0] for x in m[:2]) + (m[2],), m
    return m, m
def default_goal(h, s, sem, ms, outs):
    nm = s.fn.split('.')[-1]
    if nm == 'IsZero' or nm in ('Equals', 'Equal'):
        z = tuple_zero(ms[0]) if nm == 'IsZero' else ms[1]
        e = h.same(ms[0], z); o = outs[0]
        if not isinstance(o, (bool, RBool)): return [('boolean result', None, None)]
        if isinstance(o, bool) and isinstance(e, bool): return [('iff', o == e)]
        return [('iff', e if o is True else h.ring.bnot(e) if o is False else h.ring.eqv(None, o, e))]
    if nm == 'InverseAssign':
        o, ok = outs[0], outs[1]
        one = {'FQ2': ref.I2, 'FQ6': ref.I6, 'FQ12': ref.I12}[s.fn.split(').')[0].split('.')[-1]]
        mul = {'FQ2': ref.m2, 'FQ6': mulabs6(h), 'FQ12': mulabs12(h)}[s.fn.split(').')[0].split('.')[-1]]
        if h.lv == 'fq2': one = (1, 0, 0) if len(ms[0]) == 3 else one
        if h.lv == 'fq6': one = (1, 0)
        if ok is True: return [('product with the operand is one', mul(o, ms[0]), one)]
        if ok is False: return []        # see the separate goal on refusal
        return [('flag', None, None)]
    if nm == 'DivAssign':
        if not h.ring.invs: return []
        mul = ref.m2 if h.lv == 'fq' else lambda a, b: a * b
        return [('quotient times divisor', mul(outs[0], ms[1]), ms[0])]
    e = sem(*ms)
    if len(s.outs) == 1: e = (e,)
    return [('output %d' % i, o, x) for i, (o, x) in enumerate(zip(outs, e)) if x is not ANY]
def tuple_zero(m): return tuple(tuple_zero(x) for x in m) if isinstance(m, tuple) else 0
def mulabs6(h):
    if h.lv == 'fq': return ref.mul6
    xi = h.ring.c(1) + h.ring.sym('U')
    def f(a, b):
        r = [0] * 5
        for i in range(3):
            for j in range(3): r[i + j] = r[i + j] + a[i] * b[j]
        return (r[0] + xi * r[3], r[1] + xi * r[4], r[2])
    return f
def mulabs12(h):
    if h.lv != 'fq6': return ref.mul12
    V = h.ring.sym('V')
    return lambda a, b: (a[0] * b[0] + V * a[1] * b[1], a[0] * b[1] + a[1] * b[0])
