"""Obligations for the two prime fields: every operation on internal (Montgomery) values, all operands symbolic."""
from frame import *
from spec import *
from pk import Pk, Packed
from lin import Lin, LBool, CmpInt
KM = {6: 1 << 384, 4: 1 << 256}
MOD = {6: Q, 4: R}
def shortname(fn): return fn.split(').')[-1].replace(P, '')
class H:
    "one run: symbolic operands for a specification"
    def __init__(self, ctx, arch, n):
        self.n = n; self.m = MOD[n]; self.pk = Pk(); self.lt = self.pk.lt; self.canon = {}
        self.ex = ctx.exec(arch); self.ex.contracts.update(self.pk.contracts())
        self.ex.feasible = self.lt.feasible
    def tocanon(self, V):
        "the canonical integer of an internal value (fresh, in [0,m))"
        lt = self.lt
        if type(V) is int: return V * pow(KM[self.n], -1, self.m) % self.m
        k = V.key()
        if k not in self.canon:
            t = lt.var('t', 0, self.m - 1); self.canon[k] = t
            (a, _), = t.t.items(); lt.rules.setdefault(self.m, {})[a.id] = lt.lift(lt.scale(V, pow(KM[self.n], -1, self.m)))
            # zero has the canonical integer zero, and only zero
            z = lt.eq0(V); tz = lt.eq0(t)
            lt.cons.append(lt.bor(lt.bnot(z), tz)); lt.cons.append(lt.bor(lt.bnot(tz), z))
        return self.canon[k]
    def arg(self, so, name):
        "(engine value, value of the integer)"
        pk, lt, ex = self.pk, self.lt, self.ex
        if isinstance(so, SPtr):
            v, x = self.arg(so.s, name); return ex.new(v, 'arg ' + name), x
        if so.name == 'fq': x = lt.var(name, 0, Q - 1); return (Packed(pk, x, 6),), x
        if so.name == 'fr': x = lt.var(name, 0, R - 1); return (ex.new(Packed(pk, x, 4), 'arg ' + name),), x
        if isinstance(so, SRepr): x = lt.var(name, 0, (1 << 64 * so.w) - 1); return Packed(pk, x, so.w), x
        raise Unsupported('argument sort ' + so.name)
    def val(self, so, v):
        ex = self.ex
        if isinstance(so, SPtr):
            if v is None: return None
            return self.val(so.s, ex.load(v))
        if so.name == 'fq': return self.pk.pv(ex.proj(v, 0))
        if so.name == 'fr': return self.pk.pv(ex.load(ex.proj(v, 0)))
        if isinstance(so, SRepr): return self.pk.pv(v)
        return v
ORC = object()
def goalsof(h, nm, a, out):
    "list of (label, kind, expression[, modulus])"
    lt, m, K = h.lt, h.m, KM[h.n]
    add, sub, sc, mul = lt.add, lt.sub, lt.scale, lt.mul
    def fld(o, k, e):
        return [('smaller than the modulus', 'ge', sub(m - 1, o)), ('not negative', 'ge', lt.lift(o)), ('exact', 'cong', sub(sc(o, k), e), m)]
    o = out[0] if out else None
    if nm == 'AddAssign': return fld(o, 1, add(a[0], a[1]))
    if nm == 'SubAssign': return fld(o, 1, sub(a[0], a[1]))
    if nm == 'NegAssign': return fld(o, 1, sc(a[0], -1))
    if nm == 'DoubleAssign': return fld(o, 1, sc(a[0], 2))
    if nm == 'MulAssign': return fld(o, K, mul(a[0], a[1]))
    if nm == 'SquareAssign': return fld(o, K, mul(a[0], a[0]))
    if nm == 'DivAssign': return fld(o, K, mul(a[0], h.invs[a[1].key()]))
    if nm == 'ToRepr': return fld(o, K, a[0])
    if nm in ('FQReprToFQ', 'FRReprToFR'):
        if o is None: return [('rejected only when not below the modulus', 'ge', sub(a[0], m))]
        if nm == 'FRReprToFR': return [('accepted only when below the modulus', 'ge', sub(m - 1, a[0]))] + fld(o, 1, sc(a[0], K))
        return [('smaller than the modulus', 'ge', sub(m - 1, o)), ('exact', 'congif', sub(o, sc(a[0], K)), m, lt.ge(sub(m - 1, a[0])))]
    if nm == 'Copy': return [('same value', 'eq', sub(o, a[0]))]
    if nm == 'IsZero': return [('iff zero', 'iff', o, lt.eq0(lt.lift(a[0])))]
    if nm == 'Equals': return [('iff equal', 'iff', o, lt.eq0(sub(a[0], a[1])))]
    if nm == 'IsValid': return [('true', 'iff', o, True)]
    if nm == 'Cmp': return [('sign of the difference of the integers', 'sign', o, sub(h.tocanon(a[0]), h.tocanon(a[1])))]
    if nm == 'Parity': return [('larger than its negative', 'iff', o, lt.ge(sub(sc(h.tocanon(a[0]), 2), m + 1)))]
    if nm == 'Bytes':
        s = 0
        for b in o: s = add(sc(s, 256) if not (type(s) is int and s == 0) else 0, b)
        return [('big-endian canonical integer', 'eq', sub(s, h.tocanon(a[0])))]
    raise Unsupported('no goal for ' + nm)
def toreprc(h, byptr):
    def f(ex, a):
        x = a[0]
        v = ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x
        V = h.pk.pv(ex.proj(v, 0)) if h.n == 6 else h.pk.pv(ex.load(ex.proj(v, 0)))
        t = h.pk.mk(h.tocanon(V), h.n)
        return ex.new(t) if h.n == 4 else t
    return f
def negc(h):
    "contract of NegAssign, also on the canonical integers"
    def f(ex, a):
        lt = h.lt; p = a[0]; v = ex.load(p)
        q = Ptr(p.obj, p.path + (0,)) if h.n == 6 else ex.proj(v, 0)
        V = h.pk.pv(ex.load(q))
        if type(V) is int: ex.store(q, words(-V % h.m, h.n), 'contract'); return
        z = lt.eq0(V)
        if ex.decide(z): return
        W = lt.sub(h.m, V); t = h.tocanon(V)
        lt.cons.append(lt.ge(lt.sub(t, 1)))      # V is not zero on this path (path-local fact, V fixed per path)
        h.canon[lt.lift(W).key()] = lt.sub(h.m, t)
        q2 = q if h.n == 6 else ex.new(None)
        ex.store(q2, h.pk.mk(W, h.n), 'contract')
        if h.n == 4: ex.store(p, (q2,), 'contract')
    return f
def invc(h):
    def f(ex, a):
        lt = h.lt; v = a[0]
        V = h.pk.pv(ex.proj(v, 0)) if h.n == 6 else h.pk.pv(ex.load(ex.proj(v, 0)))
        z = lt.eq0(lt.lift(V))
        if ex.decide(z): 
            h.invs[lt.lift(V).key()] = 0
            return ((words(0, 6),), False) if h.n == 6 else None
        i = lt.var('inv', 0, h.m - 1); h.invs[lt.lift(V).key()] = i
        return ((Packed(h.pk, i, 6),), True) if h.n == 6 else ex.new((ex.new(Packed(h.pk, i, 4)),))
    return f
def judge_goal(h, pc, g):
    lt = h.lt
    if g[1] == 'ge': return lt.prove(pc, lt.ge(g[2]))
    if g[1] == 'eq': return lt.prove(pc, lt.eq0(lt.lift(g[2])))
    if g[1] == 'cong': return h.pk.cong(pc, g[2], g[3])
    if g[1] == 'congif':
        if g[4] is False: return ('unsat', None)
        pc2 = pc + ([(g[4], True)] if g[4] is not True else [])
        if solve.run(lt.text(pc2), 10)[0] == 'unsat': return ('unsat', None)
        return h.pk.cong(pc2, g[2], g[3])
    if g[1] == 'iff':
        x, y = g[2], g[3]
        if not isinstance(x, (bool, LBool)): return ('unknown', 'not a boolean')
        return lt.prove(pc, lt.eq(None, x, y) if isinstance(x, LBool) or isinstance(y, LBool) else x == y)
    if g[1] == 'sign':
        x, d = g[2], lt.lift(g[3])
        if type(x) is int:
            return lt.prove(pc, lt.eq0(d) if x == 0 else lt.ge(lt.sub(d, 1)) if x == 1 else lt.ge(lt.sub(-1, d)) if x == -1 else False)
        if isinstance(x, CmpInt):
            e = lt.lift(x.d)
            s = lt.band(lt.eq(None, lt.ge(e), lt.ge(d)) if isinstance(lt.ge(e), LBool) or isinstance(lt.ge(d), LBool) else lt.ge(e) == lt.ge(d),
                        lt.eq(None, lt.eq0(e), lt.eq0(d)) if isinstance(lt.eq0(e), LBool) or isinstance(lt.eq0(d), LBool) else lt.eq0(e) == lt.eq0(d))
            return lt.prove(pc, s)
        return ('unknown', 'comparison result not recognised')
def field_op(fn, arch, n, alias=(), cuse=()):
    "all operands of one specified field operation; cuse: method names replaced by their contracts"
    def go(ctx):
        s = SPECS[fn]; nm = shortname(fn)
        tag = '%s [%s]%s' % (fn.replace(P, ''), arch, ' same object' if alias else '')
        st = {}
        def fresh():
            h = H(ctx, arch, n); h.invs = {}; h.lt.tmo = 25
            T = {6: 'FQ', 4: 'FR'}[n]
            for k in cuse:
                for r in ('(%s%s).%s', '(*%s%s).%s'):
                    f = r % (P, T, k)
                    h.ex.contracts[f] = {'ToRepr': toreprc, 'NegAssign': lambda h, b: negc(h), 'Inverse': lambda h, b: invc(h)}[k](h, r)
            h.ex.contracts.update(bytesc(h))
            return h
        h = fresh()
        def body(ex):
            vals = []; xs = []
            for i, so in enumerate(s.args):
                if alias and i == alias[0][1]: vals.append(vals[alias[0][0]]); xs.append(xs[alias[0][0]]); continue
                key = ('arg', i)
                v, x = h.arg(so, 'x%d' % i)
                vals.append(v); xs.append(x)
            st['xs'] = xs
            r = ex.call(fn, tuple(vals))
            rs = r if len(ctx.w[arch].p.raw[fn]['results']) != 1 else (r,)
            out = [h.val(so, (vals if wh == 'post' else rs)[k]) for (wh, k), so in s.outs]
            keep = []
            mod = [k for (wh, k), so in s.outs if wh == 'post']
            for i, so in enumerate(s.args):
                if i in mod or any(i in al and (set(al) & set(mod)) for al in alias): continue
                if isinstance(so, SPtr) or so.name == 'fr': keep.append(('operand %d unchanged' % i, 'eq', h.lt.sub(h.val(so, vals[i]), xs[i])))
            return xs, out, keep
        recs = []; npaths = 0; bad = None
        for pr in h.ex.explore(body, 200):
            npaths += 1
            if pr.panic:
                if solve.run(h.lt.text(pr.pc), 10)[0] == 'unsat': continue
                bad = ('panic: %s' % pr.panic.msg, None); break
            xs, out, keep = pr.val
            for g in goalsof(h, nm, xs, out) + keep:
                if type(g[2]) is int and g[1] in ('ge', 'eq'):
                    ok = g[2] >= 0 if g[1] == 'ge' else g[2] == 0
                    v = ('unsat', None) if ok else ('sat', {}) if solve.run(h.lt.text(pr.pc), 10)[0] != 'unsat' else ('unsat', None)
                else: v = judge_goal(h, pr.pc, g)
                if v[0] != 'unsat': bad = (g[0] + (': differs' if v[0] == 'sat' else ': no answer'), v, xs); break
            if bad: break
        models = []
        if bad and len(bad) > 2 and bad[1][0] == 'sat' and bad[1][1]:
            raws = []
            for so, x in zip(s.args, bad[2]):
                v = h.lt.value(bad[1][1], x)
                b = so.s if isinstance(so, SPtr) else so
                raws.append(v * RQI % Q if b.name == 'fq' else v * RRI % R if b.name == 'fr' else v)
            models = [(fn, tuple(raws), alias, arch)]
        ok = bad is None and npaths > 0
        return Rec(tag, 'proved' if ok else 'refuted' if models else 'open', '%d paths' % npaths if ok else bad[0] if bad else 'no path', models=models)
    return go
def bytesc(h):
    def f(ex, a):
        lt = h.lt; x = a[0]
        V = h.pk.pv(ex.load(x) if isinstance(x, (Ptr, PtrIte)) else x)
        if type(V) is int: return tuple(V.to_bytes(8 * h.n, 'big'))
        out = []
        for k in range(8 * h.n - 1, -1, -1):
            out.append(lt.named(lt.sub(lt.floor(V, 8 * k), lt.scale(lt.floor(V, 8 * k + 8), 256)), 255))
        return tuple(out)
    t = {6: 'FQRepr', 4: 'FRRepr'}[h.n]
    return {'(%s%s).Bytes' % (P, t): f, '(*%s%s).Bytes' % (P, t): f}
PLAIN = {'AddAssign', 'SubAssign', 'NegAssign', 'DoubleAssign', 'MulAssign', 'SquareAssign', 'ToRepr', 'FQReprToFQ', 'FRReprToFR', 'Copy', 'IsZero', 'Equals', 'IsValid'}
USES = {'DivAssign': ('Inverse',), 'Cmp': ('ToRepr',), 'Parity': ('ToRepr', 'NegAssign'), 'Bytes': ('ToRepr',)}
def field_obs(ctx, prop, n, only=None):
    obs = []
    T = {6: 'FQ', 4: 'FR'}[n]
    for arch in ctx.w:
        for fn, s in SPECS.items():
            if s.prop != prop: continue
            nm = shortname(fn)
            if nm not in PLAIN and nm not in USES or only and nm not in only: continue
            if ('%s%s)' % (P, T)) not in fn and 'Repr' not in nm: continue
            if not ctx.w[arch].p.exists(fn): continue
            cu = USES.get(nm, ())
            w = 10 if nm in ('MulAssign', 'SquareAssign') else 3
            obs.append(Ob('%s [%s]' % (fn.replace(P, ''), arch), field_op(fn, arch, n, (), cu), [fn], 'all canonical operands (internal words symbolic)', weight=w))
            if len(s.args) == 2 and isinstance(s.args[0], SPtr) and isinstance(s.args[1], SPtr):
                obs.append(Ob('%s [%s] same object' % (fn.replace(P, ''), arch), field_op(fn, arch, n, ((0, 1),), cu), [fn], 'receiver and operand the same object', weight=w))
    return obs
