"""C17: frames. Every exported operation is executed on objects whose data is unconstrained (each comparison of data is a
free boolean, so both outcomes are followed); the addresses it stores to and the memory its results reach are collected
on every path, and the solver decides that no path can store outside what the call owns (its own allocations; the
receiver of an in-place operation), that no result reaches package-level values or arguments, and that the explored
paths are all there are. Calls of other exported operations are replaced by the frame this property gives them, so the
frames support each other along the (acyclic) call graph."""
import z3, random, os
from fieldops import *
import spec as SM, solve, intr
LEVEL = 'model_checking'
OUTSIDE = ['lists of 0 to 3 elements, byte slices of the listed lengths with spare capacity behind them',
           'data-dependent loops until their state repeats (then every further turn behaves alike), else %d turns' % 6,
           'the memory behind math/big values and hash states is the library\'s own']
ASSUME = ['library functions by their documentation: they write only to their receivers and the buffers given to them, and are deterministic',
          'receivers and arguments are well-formed objects (no nil coefficients); calls that panic are followed up to the panic']
EXEMPT = {'NewFQ12': 'assembles an element from the halves it is given', 'GetFRElement': 'exposes the scalar of the key', 'NewBitIterator': 'iterates over the words it is given'}
TURNS = 6
class Pruned(Infeasible): pass
# ---------------------------------------------------------------- unconstrained data
class Top(Sym):
    __slots__ = ()
    @property
    def th(self): return TH
    def __repr__(self): return '*'
class TopB(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    @property
    def th(self): return TH
TOP = Top()
class TopTh:
    n = 0
    def fresh(self): self.n += 1; return TopB(z3.Bool('d%d' % self.n))
    def b(self, c): return z3.BoolVal(c) if isinstance(c, bool) else c.e
    def mk(self, e):
        e = z3.simplify(e)
        return True if z3.is_true(e) else False if z3.is_false(e) else TopB(e)
    def bin(self, ex, op, x, y, w, u, yw):
        if isinstance(x, (bool, TopB)) and isinstance(y, (bool, TopB)):
            p, q = self.b(x), self.b(y)
            return self.mk({'==': lambda: p == q, '!=': lambda: p != q, '^': lambda: z3.Xor(p, q), '&': lambda: z3.And(p, q), '|': lambda: z3.Or(p, q)}[op]())
        if op in ('==', '!=', '<', '<=', '>', '>='): return self.fresh()
        return TOP
    def un(self, ex, op, x, w, u):
        if op == '!': return self.bnot(x)
        return TOP
    def conv(self, ex, x, aw, au, bw, bu): return TOP
    def eq(self, ex, x, y):
        if isinstance(x, (bool, TopB)) and isinstance(y, (bool, TopB)): return self.mk(self.b(x) == self.b(y))
        return self.fresh()
    def bnot(self, c): return self.mk(z3.Not(c.e))
    def band(self, a, b): return self.mk(z3.And(self.b(a), self.b(b)))
    def ite(self, ex, c, a, b):
        if isinstance(a, (bool, TopB)) and isinstance(b, (bool, TopB)): return self.fresh()
        if type(a) is int and type(b) is int and max(abs(a), abs(b)) < 1 << 12: raise MergeFail()
        if isinstance(a, (int, Top)) and isinstance(b, (int, Top)): return TOP
        raise MergeFail()
    def select(self, ex, vals, i):
        if all(v == vals[0] for v in vals[1:]) and not isinstance(vals[0], (Top, TopB)): return vals[0]
        r = vals[-1]
        if all(isinstance(v, (int, Top)) for v in vals): return TOP
        for v in vals[:-1]: r = ex.ite(self.fresh(), v, r)
        return r
    def inrange(self, i, n): return True
    def eqconst(self, i, k): return self.fresh()
    def add64(self, ex, x, y, c, w): return (TOP, TOP)
    sub64 = mul64 = lambda self, ex, *a: (TOP, TOP)
    def lz(self, ex, x, w): return TOP
    def tobigint(self, x, signed): return TOP
    def big(self, ex, op, a):
        if op == 'bytes': return ex.mkslice_of((TOP,) * ([0, 31, 48][0 if ex.decide(self.fresh()) else 1 if ex.decide(self.fresh()) else 2]))
        return TOP
TH = TopTh()
# ---------------------------------------------------------------- objects
def havoc(ex, v, seen, todo):
    "the same shape with unconstrained data; objects met are put on todo"
    t = type(v)
    if t is bool or t is TopB: return TH.fresh()
    if t is int or t is Top: return TOP
    if t is tuple: return tuple(havoc(ex, x, seen, todo) for x in v)
    for o in objs(v):
        if id(o) not in seen: seen[id(o)] = o; todo.append(o)
    return v
def objs(v):
    "objects a value refers to directly"
    t = type(v)
    if t is Ptr: return [v.obj]
    if t is PtrIte: return objs(v.a) + objs(v.b)
    if t is IdxPtr: return objs(v.base)
    if t is Slice: return [v.obj]
    if t is tuple: return [o for x in v for o in objs(x)]
    if t is Iface: return objs(v.v) if not isinstance(v.v, Obj) else [v.v]
    if t is dict: return [o for x in v.values() for o in objs(x)]
    if t is Closure: return [o for x in v.b for o in objs(x)]
    return []
def reach(v):
    "all objects reachable from a value"
    seen = {}; todo = list(objs(v))
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen[id(o)] = o; todo += objs(o.v)
    return seen
def flat_ints(v):
    t = type(v)
    if t is tuple: return all(flat_ints(x) for x in v)
    return t is int or t is Top
def widen(a, b):
    if type(a) is tuple: return tuple(widen(x, y) for x, y in zip(a, b))
    return a if type(a) is type(b) and a == b else TOP
def known_(v):
    t = type(v)
    if t is tuple: return all(known_(x) for x in v)
    if t is Ptr: return known_(v.obj.v)
    return t in (int, bool, bytes)
def base(fn): return fn.split(').')[-1] if ').' in fn else fn.rsplit('.', 1)[-1]
def exported(prog, fn):
    b = base(fn)
    if 'phoreproject/bls' not in fn or '$' in fn or '#' in fn or not b[:1].isupper() or fn.endswith('.init'): return False
    if 'sortable' in fn: return False
    return fn in prog.raw and (not prog.raw[fn].get('external'))
def inplace(prog, fn):
    "operations on their receiver: methods without result, or named so"
    if ').' not in fn: return False
    return not prog.raw[fn]['results'] or base(fn).endswith('Assign') or base(fn) in ('Next', 'SetRawBytes')
class FR_:
    "executor whose data is unconstrained"
    def __init__(self, ctx, arch, me):
        self.ctx = ctx; self.arch = arch; self.me = me
        ex = self.ex = ctx.exec(arch, {}, merge=True, max_steps=3000000)
        p = self.p = ex.p
        ex.contracts = {k: self.prim(v) for k, v in ex.contracts.items()}
        ex.sha = lambda ex, vals: (TOP,) * 32
        ex.intr = dict(ex.intr)
        ex.intr['crypto/sha256.New'] = lambda ex, a: Iface(self.hash_, ex.new((), 'hash').obj)
        ex.contracts['crypto/rand.Int'] = self.randint
        def setstring(ex, a, orig=ex.intr[intr.B + 'SetString']):
            if type(a[1]) is bytes and type(a[2]) is int: return orig(ex, a)
            return (None, False) if ex.decide(TH.fresh()) else (intr.bigset(ex, a[0], TOP), True)
        ex.intr[intr.B + 'SetString'] = setstring
        for nm in ('io.ReadFull',): ex.contracts[nm] = self.readfull
        ex.intr['fmt.Sprintf'] = ex.intr['fmt.Sprint'] = lambda ex, a: b'?'
        for fn in p.raw:
            if fn != me and exported(p, fn) and base(fn) not in EXEMPT and not base(fn).startswith('New') and base(fn) not in ('Copy', 'G2AffineToPrepared', 'MillerLoop') and self.same(fn) != self.same(me):
                ex.contracts[fn] = self.frame(fn)
        if p.arch == 'amd64':
            for fn, f in p.raw.items():
                if 'phoreproject' in fn and f.get('external') and fn not in ex.contracts: ex.contracts[fn] = self.frame(fn)
        ex.loophook = self.hook; self.heads = {}
        def merge(f, e, b, c, orig=ex.try_merge):
            "no merging of a branch that may leave a loop"
            if f.ipdom is None: f.ipdom = ipdoms(f)
            for body in headers(f).values():
                if b in body and f.ipdom[b] not in body: return None
            n = TH.n; r = orig(f, e, b, c)
            if r is None: TH.n = n
            return r
        ex.try_merge = merge
    def same(self, fn): return fn.replace('(*', '(')
    def prim(self, f):
        def g(ex, a):
            try: return f(ex, a)
            except Unsupported: return None
        return lambda ex, a, f=f: self.result_of(f, ex, a)
    def result_of(self, f, ex, a):
        flat = [w for x in a for w in (x if type(x) is tuple else (x,))]
        if all(type(w) is int for w in flat): return f(ex, a)
        r = f(ex, tuple(tuple(0 for _ in x) if type(x) is tuple else 0 for x in a))
        return self.tops(r)
    def tops(self, r): return tuple(self.tops(x) for x in r) if type(r) is tuple else TOP
    def hash_(self, ex, v, meth, args):
        if meth == 'Write':
            self.touch(v, 'hash.Write'); return (ex.ulen(args[0]), None)
        if meth == 'Reset': self.touch(v, 'hash.Reset'); return None
        if meth == 'Size': return 32
        if meth == 'BlockSize': return 64
        if meth == 'Sum': return ex.builtin('append', (args[0], ex.mkslice_of((TOP,) * 32)), ex.p.ptypes['[]byte'], 'hash.Sum')
        raise Unsupported('hash method ' + meth)
    def touch(self, o, where):
        if o.born != self.ex.epoch: self.ex.events.append(Event('store', o, (), where))
    def err(self): return Iface('verif.error', None)
    def randint(self, ex, a):
        if ex.decide(TH.fresh()): return (None, self.err())
        return (ex.new(TOP, 'big'), None)
    def readfull(self, ex, a):
        s = a[1]
        for k in range(ex.ulen(s)): ex.store(Ptr(s.obj, s.path + (s.off + k,)), TOP, 'io.ReadFull')
        return (ex.ulen(s), self.err() if ex.decide(TH.fresh()) else None)
    def reader(self, ex, v, meth, args):
        if meth != 'Read': raise Unsupported('method %s of the source' % meth)
        s = args[0]
        for k in range(ex.ulen(s)): ex.store(Ptr(s.obj, s.path + (s.off + k,)), TOP, 'Read')
        if ex.decide(TH.fresh()): return (0, self.err())
        return (ex.ulen(s), None)
    # ---- values of a type
    def fresh(self, t, mk, n=2):
        "an object of type t; mk allocates"
        p = self.p; ty = p.types[t]; s = ty['s']
        if s == 'math/big.Int': return TOP
        u = p.under(t); k = u['k']
        if k == 'basic':
            if 'int' in u: return TOP
            if u['name'] in ('bool', 'untyped bool'): return TH.fresh()
            if u['name'] in ('string', 'untyped string'): return b'12'
            raise Unsupported('value of type ' + s)
        if k == 'struct': return tuple(self.fresh(f, mk, n) for f in u['f'])
        if k == 'array': return tuple(self.fresh(u['e'], mk, n) for _ in range(u['n']))
        if k == 'ptr': return mk(self.fresh(u['e'], mk, n))
        if k == 'slice':
            e = p.under(u['e'])
            if e.get('k') == 'array' and e['n'] == 3: n = 68      # line coefficients
            if n is None: return None
            cap = n + 40 if e.get('int') == 8 else n + 2
            q = mk(tuple(self.fresh(u['e'], mk, 2) for _ in range(cap)))
            return Slice(q.obj, (), 0, n, cap)
        if k == 'iface':
            if s == 'error': return None
            if s == 'hash.Hash': return Iface(self.hash_, mk(()).obj)
            if s == 'io.Reader': return Iface(self.reader, 'source')
        raise Unsupported('value of type ' + s)
    def results(self, ex, fn):
        f = self.p.raw[fn]; rt = f['results']; out = []
        iserr = rt and self.p.types[rt[-1]]['s'] == 'error'
        bad = iserr and ex.decide(TH.fresh())
        mayn = self.nilres(fn)
        for i, t in enumerate(rt):
            if iserr and i == len(rt) - 1: out.append(self.err() if bad else None); continue
            v = self.fresh(t, lambda v: ex.new(v))
            if self.p.under(t)['k'] == 'ptr' and (bad and ex.decide(TH.fresh()) or not iserr and i in mayn and ex.decide(TH.fresh())): v = None
            out.append(v)
        return None if not out else out[0] if len(out) == 1 else tuple(out)
    def nilres(self, fn, depth=0):
        "results that some return instruction (or the call it forwards) sets to nil"
        out = set()
        for b in self.p.raw[fn].get('blocks') or ():
            for i in b['i']:
                if i['o'] == 'ret':
                    for k, x in enumerate(i['x']):
                        if isinstance(x, dict) and (x.get('zero') or 'nil' in x) and 'b' not in x and 'i' not in x: out.add(k)
        return out
    def frame(self, fn):
        "what this property says about a call of fn"
        ip = inplace(self.p, fn); words = 'FQRepr).' in fn or 'FRRepr).' in fn
        def f(ex, a):
            if words and known_(a):
                # words known to the program (loop constants): the operation itself is run
                c = ex.contracts.pop(fn)
                try: return ex.call(fn, a)
                finally: ex.contracts[fn] = c
            self.used.add(fn)
            if ip:
                r = reach(a[0]); seen = dict(r)
                if type(a[0]) not in (Ptr, PtrIte, tuple): raise Unsupported('receiver %r' % (a[0],)) if a[0] is not None else GoPanic('nil dereference', fn)
                for o in r.values():
                    if o.born != ex.epoch: ex.events.append(Event('store', o, (), fn))
                    if o.tag and (o.tag.startswith('global:') or o.tag.startswith('reach:')): continue
                    ex.setobj(o, havoc(ex, o.v, seen, []))
            elif a and a[0] is None and ').' in fn: raise GoPanic('nil dereference', fn)
            return self.results(ex, fn)
        return f
    # ---- loops: a state met before (on any path through the same entry) behaves alike
    def hook(self, ex, f, e, b, prev):
        fr = self.heads.get(id(e))
        if fr is None or fr[0] is not e: fr = self.heads[id(e)] = (e, {})
        fr = fr[1]
        if prev not in headers(f)[b]: fr[b] = [(tuple(ex.prefix[:ex.di]), ex.steps, b, f.name), Obj.count, len(ex.pc), 0, {}]
        st = fr.get(b)
        if st is None: return
        # turns that depend on data are counted; after a few the counters are forgotten
        if len(ex.pc) > st[2]: st[3] += 1; st[2] = len(ex.pc)
        ph = f.blocks[b].phis
        if st[3] > TURNS and ph is not None:
            for s in ph[0]:
                if type(e[s]) is int: e[s] = TOP
        if st[3] > TURNS:
            # and known words that the turns change
            last = st[4]; now = {q: o for q, o in reach(tuple(e)).items() if o.born == ex.epoch and flat_ints(o.v)}
            for q, o in now.items():
                if q in last and last[q][1] != o.v: ex.setobj(o, widen(last[q][1], o.v))
            st[4] = {q: (o, o.v) for q, o in now.items()}
        if ex.di < len(ex.prefix) or ex.in_region: return
        c = self.canon(e, st[1])
        seen = self.states.setdefault(st[0], set())
        if c in seen: raise Pruned()
        seen.add(c)
    def canon(self, e, old):
        num = {}; out = []; todo = []
        def c(v):
            t = type(v)
            if t is int or t is bytes or t is bool or v is None: return v
            if t is Top: return '*'
            if t is TopB: return '?'
            if t is tuple: return tuple([c(x) for x in v])
            if t is Ptr: return ('p', ref(v.obj), v.path)
            if t is PtrIte: return ('pi', c(v.a), c(v.b))
            if t is IdxPtr: return ('x', c(v.base), v.off, v.n, v.tail)
            if t is Slice: return ('s', ref(v.obj), v.path, v.off, v.len, v.cap)
            if t is Iface: return ('i', str(v.t) if not callable(v.t) else '', ref(v.v) if isinstance(v.v, Obj) else c(v.v))
            if t is dict: return tuple([(c(k), c(x)) for k, x in v.items()])
            if t is Fn: return ('f', v.name)
            if t is Closure: return ('c', v.name, c(tuple(v.b)))
            if t is list: return tuple([c(x) for x in v])
            return str(type(v))
        def ref(o):
            if id(o) not in num: num[id(o)] = ('o', o.sn) if o.sn <= old else len(num); todo.append(o)
            return num[id(o)]
        out.append(tuple([c(x) for x in e]))
        k = 0
        while k < len(todo):
            o = todo[k]; k += 1
            if o.born != 0: out.append(c(o.v))
        return tuple(out)
def obligation(fn, arch, nlist, alias):
    "alias: pairs of parameter positions that hold the same object"
    def go(ctx):
        name = '%s [%s]%s%s' % (fn.replace(P, ''), arch, ' lists of %d' % nlist if nlist is not None else '', ' arguments %s one object' % (alias,) if alias else '')
        h = FR_(ctx, arch, fn); ex = h.ex; p = h.p; f = p.raw[fn]
        ip = inplace(p, fn); exempt = base(fn) in EXEMPT; b0 = base(fn)
        h.used = set(); h.states = {}
        paths = []; bad = []
        def body(ex):
            h.heads = {}; TH.n = 0; Obj.count = 1 << 40; ex.steps = 0
            ep = ex.epoch; ex.epoch = -7
            args = []
            def mk(v, i):
                return ex.new(v, 'argument %d' % i)
            for i, t in enumerate(f['ptypes']):
                same = [x for x, y in alias if y == i]
                if same: args.append(args[same[0]]); continue
                args.append(h.fresh(t, lambda v, i=i: mk(v, i), nlist if nlist is not None else 2))
            ex.epoch = ep; ex.allocs = []
            res = []
            own = reach(args[0]) if ip and args else {}
            try: r = ex.call(fn, tuple(args))
            except Pruned: return ('cut', own, None)
            except GoPanic: return ('panic', own, None)
            # what results and the changed receiver reach
            rr = reach(r if type(r) is tuple else (r,))
            after = reach(args[0]) if ip and args else {}
            others = {}
            for i, a in enumerate(args):
                if i == 0 and ip: continue
                for q, o in reach(a).items():
                    if q not in own: others[q] = o
            leak = []
            for q, o in rr.items():
                if exempt: continue
                if o.tag and (o.tag.startswith('global:') or o.tag.startswith('reach:')): leak.append((o, 'the result refers to package-level ' + o.tag))
                elif o.born != ex.epoch and not (ip and q in own): leak.append((o, 'the result refers to memory of %s' % o.tag))
                elif ip and q in own: leak.append((o, 'the result refers to memory of the receiver'))
            for q, o in after.items():
                if q in own or exempt: continue
                if o.tag and (o.tag.startswith('global:') or o.tag.startswith('reach:')): leak.append((o, 'the receiver refers to package-level ' + o.tag))
                elif o.born != ex.epoch: leak.append((o, 'the receiver refers to memory of %s' % o.tag))
            return ('ret', own, leak)
        rs = ex.explore(body, 600)
        reached = z3.BoolVal(False); badq = []; why = []
        A = z3.Int('address'); ids = {}
        for pr in rs:
            pc = z3.And(*[c.e if pol else z3.Not(c.e) for c, pol in pr.pc if isinstance(c, TopB)])
            if any(not isinstance(c, TopB) for c, pol in pr.pc): return Rec(name, 'open', 'a decision that is not on data')
            reached = z3.Or(reached, pc)
            if pr.panic or pr.val is None: continue
            kind, own, leak = pr.val
            num = lambda o: ids.setdefault(id(o), len(ids))
            ev = {}
            for e in pr.events: ev.setdefault(id(e.obj), e)
            if ev:
                allowed = [num(e.obj) for q, e in ev.items() if q in own]
                badq.append(z3.And(pc, z3.Or(*[A == num(e.obj) for e in ev.values()]), *[A != k for k in allowed]))
                for q, e in ev.items():
                    if q not in own: why.append('store to %s at %s' % (e.obj.tag or 'older memory', e.where))
            for o, w in leak or ():
                badq.append(z3.And(pc, A == num(o))); why.append(w)
        def ask(e):
            s = z3.Solver(); s.add(e)
            return solve.run(s.to_smt2().replace('(check-sat)', ''), 30)[0]
        v1 = ask(z3.Or(*badq)) if badq else ask(z3.BoolVal(False))
        v2 = ask(z3.Not(reached))
        if v1 == 'unsat' and v2 == 'unsat': return Rec(name, 'proved', '%d paths, %d frames used' % (len(rs), len(h.used)))
        if v2 != 'unsat': return Rec(name, 'open', 'paths not exhausted: %s' % v2)
        return Rec(name, 'refuted' if v1 == 'sat' else 'open', '; '.join(dict.fromkeys(why))[:300])
    return go
def specnames(fn):
    out = [fn]
    for a, b in (('(*', '('), ('(', '(*')):
        if fn.startswith(a) and not (a == '(' and fn.startswith('(*')): out.append(b + fn[len(a):])
    return [x for x in out if x in SM.SPECS]
# the specifications of all properties serve as sources of arguments
import importlib
for k_ in range(1, 20):
    if k_ != 17: importlib.import_module('ob_c%02d' % k_)
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        p = ctx.w[arch].p
        for fn in sorted(p.raw):
            if not exported(p, fn): continue
            if fn.startswith('(*') and '(' + fn[2:] in p.raw: continue       # the compiler's wrapper of a method on values
            pt = [p.types[t]['s'] for t in p.raw[fn]['ptypes']]
            hasl = any(s.startswith('[]') for s in pt)
            for n in ((0, 1, 2, 3) if hasl and ctx.tier != 'quick' else (0, 2) if hasl else (None,)):
                al = [()]
                for i in range(len(pt)):
                    for j in range(i + 1, len(pt)):
                        if pt[i] == pt[j] and pt[i].startswith('*'): al.append(((i, j),))
                for a in al:
                    obs.append(Ob('frame of %s [%s]' % (fn.replace(P, ''), arch), obligation(fn, arch, n, a), specnames(fn), 'all data; ' + ('lists of %d' % n if hasl else 'any state of the objects'), weight=5 if any(x in fn for x in ('Verify', 'Miller', 'Hash', 'Final', 'SWU', 'Rand', 'Clear')) else 1, timeout=300))
    return obs
def specs(ctx): return [f for f, s in SM.SPECS.items()]
# ---------------------------------------------------------------- the real code
def sorts_by_type(prog):
    out = {}
    for fn, s in SM.SPECS.items():
        if fn not in prog.raw: continue
        for t, so in zip(prog.raw[fn]['ptypes'], s.args):
            if so.name.lstrip('*') != 'err': out.setdefault(prog.types[t]['s'], so)
    return out
HAND = {'string': [b'12', b'0', b'ff', b'-1'], 'uint': [10, 16], 'hash.Hash': [{'hash': '00'}, {'hash': '0102'}]}
def gen_(prog, t, rng, by, e, k):
    "the k-th value of a type, as JSON"
    s = prog.types[t]['s']; u = prog.under(t)
    if s in HAND:
        x = HAND[s][k % len(HAND[s])]; return x if isinstance(x, dict) else e(t, x)
    if s in by:
        p = by[s].pool(rng, 12); return e(t, by[s].enc(p[k if k < len(p) else rng.randrange(len(p))]))
    kk = u['k']
    if kk == 'ptr': return {'p': rng.randrange(1 << 40), 'v': gen_(prog, u['e'], rng, by, e, k)}
    if kk == 'slice':
        n = [0, 1, 2, 3][k % 4]
        if prog.under(u['e']).get('k') == 'array': n = 68
        return {'l': [gen_(prog, u['e'], rng, by, e, (k >> 2) + i) for i in range(n)]}
    if kk == 'struct': return [gen_(prog, f, rng, by, e, k) for f in u['f']]
    if kk == 'array' and prog.under(u['e']).get('int') != 8: return [gen_(prog, u['e'], rng, by, e, k + i) for i in range(u['n'])]
    if kk == 'basic' and u.get('name') == 'bool': return k % 3 == 2
    if kk == 'basic' and 'int' in u: return str([0, 1, 5, 200][k % 4])
    raise Unsupported('value of ' + s)
def plain(prog, fn, rng, n, by):
    "arguments for a function without a specification"
    pt = prog.raw[fn]['ptypes']; out = []
    for k in range(n if pt else 1): 
        e = replay.Enc(prog); out.append([gen_(prog, t, rng, by, e, k) for t in pt])
    return out
SKIP = []
HEAVY = ('Pairing', 'Miller', 'Verify', 'FinalExp', 'Hash', 'Rand', 'SWU', 'Sign', 'Optimised', 'Prepared')
def calls(prog, pkg, rng, many, few):
    import replay, scen
    globals()['replay'] = replay
    by = sorts_by_type(prog); out = []
    for fn in sorted(prog.raw):
        if not exported(prog, fn) or not replay.opname(fn, pkg): continue
        if fn.startswith('(*') and '(' + fn[2:] in prog.raw: continue
        f = prog.raw[fn]; k = 24 if fn in many else few
        if any(x in fn for x in HEAVY): k = min(k, 10 if fn in many else 3)
        args = []
        try:
            sn = [x for x in specnames(fn) if x == fn or opn(prog, x, pkg)]
            if sn:
                s = SM.SPECS[sn[0]]; fn2 = sn[0]
                c = [x for x in SM.candidates(s, random.Random('frame %s' % fn), None, 40) if not x[1]]
                h = len(c) // 2
                c = c[:k // 3] + c[h:h + k // 3] + rng.sample(c, min(len(c), k - 2 * (k // 3)))
                args = [SM.mkcase(prog, s, raws, ())['calls'][0]['args'] for raws, al in c]
            else: fn2 = fn; args = plain(prog, fn, rng, min(k, 8), by)
        except Exception as e:
            args = []; SKIP.append('%s: %s' % (fn, e))
        pt = [prog.types[t]['s'] for t in f['ptypes']]
        ro = [i for i, t in enumerate(pt) if not (i == 0 and inplace(prog, fn)) and t not in ('io.Reader', 'hash.Hash')]
        for a in args: out.append({'fn': fn2, 'args': a, 'ro': ro, 'free': base(fn) in EXEMPT})
    return out
def mutlist(prog, pkg):
    "in-place operations by the type they change"
    import replay
    out = {}
    for fn, s in SM.SPECS.items():
        if fn not in prog.raw or not fn.startswith('(*') or not inplace(prog, fn) or not replay.opname(fn, pkg): continue
        try:
            c = [x for x in SM.candidates(s, random.Random(5), None, 30) if not x[1]]
            a = SM.mkcase(prog, s, c[len(c) // 2][0], ())['calls'][0]['args']
        except Exception: continue
        out.setdefault(prog.types[prog.raw[fn]['ptypes'][0]]['s'], []).append({'fn': fn, 'args': a})
    return [{'type': t, 'calls': sorted(c, key=lambda x: random.Random(x['fn']).random())[:6]} for t, c in sorted(out.items())]
def opn(prog, fn, pkg):
    import replay
    return fn in prog.raw and replay.opname(fn, pkg)
def framecase(S, arch, pkg, cs, par, race=False):
    "runs one list of calls; returns what breaks the property"
    import replay
    prog = S.ctx.w[arch].p
    drv = S.driver(arch, pkg) if not race else replay.Driver(prog, pkg, S.scratch, race=True)
    o = drv.run([{'frame': True, 'calls': cs, 'par': par, 'tmo': 100000, 'muts': mutlist(prog, pkg) if not race else []}], timeout=130)[0]
    bad = []
    if o.get('timeout'): S.notes.append('calls of %s on %s did not finish' % (pkg, arch)); return bad
    if not o.get('outs'): S.notes.append('calls of %s not run: %s' % (pkg, str(o)[:300])); return bad
    def nm(i): return cs[i]['fn'].replace(P, '')
    for i, x in enumerate(o['outs']):
        if x.get('missing') or x.get('bad'): S.notes.append('%s: %s' % (nm(i), x.get('bad') or 'not in the driver')); continue
        S.concrete += 1
        if x.get('globals'): bad.append(([i], 'changed package-level %s' % ', '.join(x['globals'])))
        if x.get('indep'): bad.append(([i], x['indep'][:500]))
        if x.get('spare'): bad.append(([i], 'wrote to the memory behind a slice it was given'))
        if 'pre' not in x: continue
        for k in cs[i]['ro']:
            if x['pre'][k] != x['post'][k]: bad.append(([i], 'changed its argument %d from %s to %s' % (k, str(x['pre'][k])[:200], str(x['post'][k])[:200])))
    for i, a, b in o['hist']: bad.append((None, '%s returned %s, and after other calls %s' % (nm(i), a[:200], b[:200])))
    for i, a, b in o['again']: bad.append((None, '%s returned %s, and when called again %s' % (nm(i), a[:200], b[:200])))
    for i, a, b in o['par']: bad.append((None, '%s returned %s, and concurrently with other calls %s' % (nm(i), a[:200], b[:200])))
    if o.get('globals') and not bad: bad.append((None, 'package-level %s changed' % ', '.join(o['globals'])))
    if race:
        for part in drv.races.split('WARNING: DATA RACE')[1:]:
            if 'phoreproject/bls' in part and 'math/big' not in part.split('Goroutine')[0].split('Previous')[0]:
                w = [l.strip() for l in part.splitlines() if 'phoreproject' in l and '(' in l and 'verif' not in l and 'TestVerif' not in l][:4]
                if w: bad.append((None, 'concurrent calls race: ' + ' / '.join(w)[:400])); break
    return bad
PKGS = [P[:-1], P[:-1] + '/g1pubs', P[:-1] + '/g2pubs']
def group(job):
    arch, pkg, many, few, par, race = job; S = GR
    S.violations = []; S.notes = []; S.concrete = 0
    try:
        prog = S.ctx.w[arch].p
        cs = calls(prog, pkg, random.Random('frames'), many, few)
        if many or os.environ.get('VERIF_TIMES'): S.notes += ['no arguments for ' + x for x in SKIP]
        for ix, msg in framecase(S, arch, pkg, cs, par, race)[:5]:
            cc = [cs[i] for i in ix] if ix else cs
            S.violation('frames', arch, {'frame': True, 'calls': cc, 'par': par, 'muts': mutlist(prog, pkg)}, '%s%s' % (cs[ix[0]]['fn'].replace(P, '') + ' ' if ix else '', msg))
    except Exception as e:
        import traceback
        S.notes.append('frames of %s on %s not run: %s %s' % (pkg, arch, e, traceback.format_exc()[-300:].replace('\n', ' / ')))
    return S.violations, S.notes, S.concrete
def concrete(S, rest, rng):
    global GR
    GR = S
    openfn = set(); unknown = False
    for r in rest:
        hit = [fn for w in S.ctx.w.values() for fn in w.p.raw if exported(w.p, fn) and (r.name.startswith(fn.replace(P, '') + ' [') or r.name == 'frame of %s [%s]' % (fn.replace(P, ''), w.p.arch))]
        if hit: openfn |= set(hit)
        else: unknown = True
    # callers of what is open, through code that is not exported
    archs = [a for a in S.ctx.w if a == 'amd64' or S.open_archs and a in S.open_archs and rest]
    jobs = []
    for a in archs:
        for pkg in PKGS:
            if pkg not in S.ctx.w[a].p.pkgs: continue
            S.driver(a, pkg).build_quiet(S)
            jobs.append((a, pkg, openfn, 8 if unknown else 4 if rest else 2, 8 if rest else 2, False))
    if rest and 'amd64' in archs:
        jobs += [('amd64', pkg, openfn, 2, 8, True) for pkg in PKGS]
    import run as R_
    R_.gather(S, group, jobs, 6)
    if rest and not S.violations:
        import scen
        fns = [f for f in SM.SPECS if unknown or any(f in specnames(o) for o in openfn)]
        scen.run(S, [f for f in fns if f in ables(S)], bool(S.open_archs and '386' in S.open_archs and len(fns) < 12), per=3 if len(fns) < 40 else 1, nmut=6 if len(fns) < 12 else 2)
def ables(S):
    import run
    return run.scen_able(S)
