"""Symbolic executor for go/ssa programs dumped by ssadump.

Values
  bool            Python bool or a symbolic boolean (instance of Sym)
  integer         Python int in the range of its type, or a Sym
  struct, array   tuple of values, or an abstract value (instance of Abs)
  pointer         None (nil), Ptr, PtrIte
  slice           None (nil) or Slice
  string          bytes
  interface       None (nil) or Iface
  function        Fn / Closure
  tuple           Python tuple
Memory is a set of Obj cells holding immutable values; every write is journaled so that it can be rolled back.
"""
import json, sys
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    "the encoding does not cover this construct (never evidence of a violation)"
class GoPanic(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg); self.msg = msg; self.where = where
class Infeasible(Exception): pass
class MergeFail(Exception): pass
class Bound(Exception):
    "an unwinding bound was hit"

class Sym:
    "symbolic scalar or boolean; .th is its theory"
    __slots__ = ()
    th = None
class Abs:
    "abstract aggregate value standing for a whole struct/array"
    __slots__ = ()
    def proj(self, ex, i): raise Unsupported('projection of %r' % (self,))
    def upd(self, ex, i, v): raise Unsupported('update inside %r' % (self,))

class Obj:
    __slots__ = ('v', 'tag', 'born', 'ty', 'site', 'sn')
    count = 0
    def __init__(self, v, tag=None, born=0, ty=None, site=None):
        self.v = v; self.tag = tag; self.born = born; self.ty = ty; self.site = site
        Obj.count += 1; self.sn = Obj.count
    def __repr__(self): return '<Obj %s>' % (self.tag or hex(id(self)))
class SStr:
    "string with symbolic bytes"
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __iter__(self): return iter(self.b)
    def __len__(self): return len(self.b)
    def __getitem__(self, i): return self.b[i]
def mkstr(b): return bytes(b) if all(type(x) is int for x in b) else SStr(tuple(b))
class SymKey:
    "symbolic key of a map"
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
def symkey(k):
    if isinstance(k, (Sym, Abs, SStr)): return True
    return isinstance(k, tuple) and any(symkey(x) for x in k)
class Ptr:
    __slots__ = ('obj', 'path')
    def __init__(self, obj, path=()):
        self.obj = obj; self.path = path
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj is o.obj and self.path == o.path
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((id(self.obj), self.path))
    def __repr__(self): return 'Ptr(%r,%r)' % (self.obj, self.path)
class PtrIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class IdxPtr:
    "pointer to element number i (symbolic) of an array at base; n elements starting at off"
    __slots__ = ('base', 'i', 'off', 'n', 'tail')
    def __init__(self, base, i, off, n, tail=()):
        self.base = base; self.i = i; self.off = off; self.n = n; self.tail = tail
class Slice:
    __slots__ = ('obj', 'path', 'off', 'len', 'cap')
    def __init__(self, obj, path, off, ln, cap):
        self.obj = obj; self.path = path; self.off = off; self.len = ln; self.cap = cap
class Iface:
    __slots__ = ('t', 'v')
    def __init__(self, t, v): self.t = t; self.v = v
class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
class Closure:
    __slots__ = ('name', 'b')
    def __init__(self, name, b): self.name = name; self.b = b
class Builtin:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name

class Ty: pass

class Block:
    __slots__ = ('code', 'term', 's', 'phis', 'preds', 'n')
class Func:
    pass

IDX_LIMIT = 4096

class Program:
    def __init__(self, path):
        with open(path) as f: j = json.load(f)
        self.arch = j['arch']
        self.types = j['types']
        self.raw = {f['name']: f for f in j['funcs']}
        self.pkgs = {p['path']: p for p in j['pkgs']}
        self.funcs = {}
        self.zero_cache = {}
        self.globals = {}
        for p in j['pkgs']:
            for g in p['globals']:
                self.globals[g['n']] = g['t']
        self.ptypes = {}
        for i, t in enumerate(self.types):
            self.ptypes[t['s']] = i
    def exists(self, name): return name in self.raw
    def under(self, t):
        ty = self.types[t]
        while ty['k'] == 'named': ty = self.types[ty['u']]
        return ty
    def zero(self, t):
        if t in self.zero_cache: return self.zero_cache[t]
        ty = self.under(t); k = ty['k']
        if k == 'basic':
            n = ty['name']
            if 'int' in ty: z = 0
            elif n in ('bool', 'untyped bool'): z = False
            elif n in ('string', 'untyped string'): z = b''
            elif 'float' in n: z = 0.0
            else: z = None
        elif k == 'struct': z = tuple(self.zero(f) for f in ty['f'])
        elif k == 'array': z = (self.zero(ty['e']),) * ty['n']
        elif k == 'tuple': z = tuple(self.zero(f) for f in ty['f'])
        else: z = None
        self.zero_cache[t] = z
        return z
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = Compiler(self, self.raw[name]).compile()
        return f

def intinfo(ty):
    return ty.get('int'), ty.get('uns')

class Compiler:
    def __init__(self, prog, raw):
        self.p = prog; self.raw = raw; self.slots = {}; self.consts = []
    def slot(self, v):
        s = self.slots.get(v)
        if s is None: s = self.slots[v] = len(self.slots)
        return s
    def const(self, v):
        self.consts.append(v); return 'K[%d]' % (len(self.consts) - 1)
    def val(self, v):
        if v is None: return 'None'
        if isinstance(v, str): return 'e[%d]' % self.slot(v)
        if 'fn' in v: return self.const(Fn(v['fn']))
        if 'g' in v: return 'ex.gptr(%r)' % v['g']
        if 'bi' in v: return self.const(Builtin(v['bi']))
        if v.get('zero'):
            z = self.p.zero(v['t'])
            if z is None or isinstance(z, (int, bool)): return repr(z)
            return self.const(z)
        if 'b' in v: return repr(v['b'])
        if 'i' in v:
            ty = self.p.under(v['t'])
            if 'int' not in ty: return self.const(float(int(v['i'])) if 'float' in ty.get('name', '') else int(v['i']))
            return repr(int(v['i']))
        if 'str' in v:
            import base64
            return self.const(base64.b64decode(v['str']) if v['str'] else b'')
        return self.const(('float', v.get('fl')))
    def compile(self):
        r = self.raw; f = Func()
        f.name = r['name']; f.raw = r; f.external = bool(r.get('external'))
        f.pkg = r.get('pkg')
        f.nresults = len(r['results'])
        f.results = r['results']
        f.ptypes = r['ptypes']
        if f.external:
            return f
        f.params = [self.slot(x) for x in r['params']]
        f.freevars = [self.slot(x) for x in r['freevars']]
        f.blocks = []
        src = []
        metas = []
        for bi, b in enumerate(r['blocks']):
            lines = []; phis = []; term = None
            for ins in b['i']:
                o = ins['o']
                if o == 'phi':
                    phis.append((self.slot(ins['r']), [self.val(x) for x in ins['x']], ins['t']))
                    continue
                if o in ('if', 'jump', 'ret', 'panic'):
                    term = o
                    if o == 'if': lines.append('return ' + self.val(ins['x']))
                    elif o == 'jump': lines.append('return None')
                    elif o == 'ret':
                        xs = [self.val(x) for x in ins['x']]
                        if len(xs) == 1: lines.append('return ' + xs[0])
                        else: lines.append('return (%s)' % (''.join(x + ',' for x in xs)))
                    else: lines.append('ex.gopanic(%s, %r)' % (self.val(ins['x']), r['name'] + ':' + str(ins.get('ln'))))
                    continue
                self.ins(ins, lines)
            metas.append((term, b['s'], b['p'], phis))
            src.append('def b%d(ex, e):\n%s' % (bi, ''.join('  %s\n' % l for l in lines) or '  pass\n'))
        # phi evaluation
        for bi, (term, ss, ps, phis) in enumerate(metas):
            if not phis: continue
            out = ['def p%d(ex, e, prev):' % bi]
            if len(ps) == 0: ps = []
            for k, pr in enumerate(ps):
                out.append('  %s prev == %d:' % ('if' if k == 0 else 'elif', pr))
                out.append('    return (%s)' % ''.join(ph[1][k] + ',' for ph in phis))
            out.append('  raise KeyError(prev)')
            src.append('\n'.join(out) + '\n')
        ns = {'K': self.consts, 'Ptr': Ptr, 'M64': (1 << 64) - 1}
        code = compile('\n'.join(src), '<ssa %s>' % r['name'], 'exec')
        exec(code, ns)
        for bi, (term, ss, ps, phis) in enumerate(metas):
            b = Block(); b.code = ns['b%d' % bi]; b.term = term; b.s = ss; b.preds = ps; b.n = bi
            b.phis = ([ph[0] for ph in phis], ns['p%d' % bi], [ph[2] for ph in phis]) if phis else None
            f.blocks.append(b)
        f.nslots = len(self.slots)
        f.ipdom = None
        return f

    def ins(self, i, L):
        o = i['o']; p = self.p
        r = 'e[%d]' % self.slot(i['r']) if 'r' in i else None
        V = self.val
        where = repr(self.raw['name'] + ':' + str(i.get('ln')))
        if o == 'alloc':
            L.append('%s = ex.alloc(%d, %s)' % (r, i['e'], where))
        elif o == 'load':
            L.append('%s = ex.load(%s)' % (r, V(i['x'])))
        elif o == 'store':
            L.append('ex.store(%s, %s, %s)' % (V(i['x']), V(i['v']), where))
        elif o == 'faddr':
            L.append('_p = %s' % V(i['x']))
            L.append('%s = Ptr(_p.obj, _p.path + (%d,)) if type(_p) is Ptr else ex.faddr(_p, %d)' % (r, i['i'], i['i']))
        elif o == 'field':
            L.append('_p = %s' % V(i['x']))
            L.append('%s = _p[%d] if type(_p) is tuple else ex.proj(_p, %d)' % (r, i['i'], i['i']))
        elif o == 'iaddr':
            L.append('%s = ex.iaddr(%s, %s, %d)' % (r, V(i['x']), V(i['i']), i['xt']))
        elif o == 'index':
            L.append('%s = ex.index(%s, %s)' % (r, V(i['x']), V(i['i'])))
        elif o == 'bin':
            self.bin(i, r, L)
        elif o == 'un':
            ty = p.under(i['xt'])
            L.append('%s = ex.unop(%r, %s, %r, %r)' % (r, i['op'], V(i['x']), ty.get('int'), ty.get('uns')))
        elif o == 'chtype':
            L.append('%s = %s' % (r, V(i['x'])))
        elif o == 'conv':
            a = p.under(i['xt']); b = p.under(i['t'])
            if 'int' in a and 'int' in b:
                L.append('%s = ex.conv(%s, %r, %r, %r, %r)' % (r, V(i['x']), a['int'], a['uns'], b['int'], b['uns']))
            else:
                L.append('%s = ex.conv2(%s, %d, %d)' % (r, V(i['x']), i['xt'], i['t']))
        elif o == 'mkiface':
            L.append('%s = ex.mkiface(%d, %s)' % (r, i['xt'], V(i['x'])))
        elif o == 'mkclosure':
            L.append('%s = ex.mkclosure(%r, (%s))' % (r, i['f']['fn'], ''.join(V(x) + ',' for x in i['b'])))
        elif o == 'mkslice':
            L.append('%s = ex.mkslice(%d, %s, %s, %s)' % (r, p.under(i['t'])['e'], V(i['len']), V(i['cap']), where))
        elif o == 'mkmap':
            L.append('%s = ex.mkmap(%s)' % (r, where))
        elif o == 'slice':
            L.append('%s = ex.slice(%s, %d, %s, %s, %s)' % (r, V(i['x']), i['xt'], V(i['lo']), V(i['hi']), V(i['max'])))
        elif o == 'lookup':
            L.append('%s = ex.lookup(%s, %s, %d, %d, %r)' % (r, V(i['x']), V(i['i']), i['xt'], i['t'], bool(i.get('commaok'))))
        elif o == 'mapupd':
            L.append('ex.mapupd(%s, %s, %s, %s)' % (V(i['x']), V(i['k']), V(i['v']), where))
        elif o == 'range':
            L.append('%s = ex.range(%s)' % (r, V(i['x'])))
        elif o == 'next':
            L.append('%s = ex.next(%s, %r, %d)' % (r, V(i['x']), bool(i.get('str')), i['t']))
        elif o == 'extract':
            L.append('%s = %s[%d]' % (r, V(i['x']), i['i']))
        elif o == 'tassert':
            L.append('%s = ex.tassert(%s, %d, %r)' % (r, V(i['x']), i['at'], bool(i.get('commaok'))))
        elif o == 'call':
            c = i['call']
            args = '(%s)' % ''.join(V(x) + ',' for x in c['args'])
            if 'invoke' in c:
                s = 'ex.invoke(%s, %r, %s, %s)' % (V(c['recv']), c['invoke'], args, where)
            else:
                fv = c['f']
                if isinstance(fv, dict) and 'fn' in fv: s = 'ex.call(%r, %s)' % (fv['fn'], args)
                elif isinstance(fv, dict) and 'bi' in fv:
                    ats = []
                    s = 'ex.builtin(%r, %s, %d, %s)' % (fv['bi'], args, i['t'], where)
                else: s = 'ex.callv(%s, %s)' % (V(fv), args)
            L.append('%s = %s' % (r, s))
        elif o == 'defer':
            c = i['call']
            args = '(%s)' % ''.join(V(x) + ',' for x in c['args'])
            if 'invoke' in c:
                s = 'ex.invoke(%s, %r, a, %s)' % ('rv', c['invoke'], where)
                L.append('ex.defer(lambda a=%s, rv=%s: %s)' % (args, V(c['recv']), s))
            else:
                fv = c['f']
                if isinstance(fv, dict) and 'fn' in fv: L.append('ex.defer(lambda a=%s: ex.call(%r, a))' % (args, fv['fn']))
                elif isinstance(fv, dict) and 'bi' in fv: L.append('ex.unsupported("defer builtin")')
                else: L.append('ex.defer(lambda a=%s, fv=%s: ex.callv(fv, a))' % (args, V(fv)))
        elif o == 'rundefers':
            L.append('ex.rundefers()')
        elif o == 's2ap':
            L.append('%s = ex.s2ap(%s, %d)' % (r, V(i['x']), i['t']))
        else:
            L.append('ex.unsupported(%r)' % o)

    def bin(self, i, r, L):
        V = self.val; op = i['op']; x = V(i['x']); y = V(i['y'])
        ty = self.p.under(i['xt']); w, u = intinfo(ty)
        if w and op in ('+', '-', '*', '&', '|', '^', '&^', '==', '!=', '<', '<=', '>', '>=', '<<', '>>', '/', '%'):
            L.append('_x = %s; _y = %s' % (x, y))
            if u and op in ('+', '-', '*'):
                fast = '(_x %s _y) & %d' % (op, (1 << w) - 1)
            elif op in ('&', '|', '^'):
                fast = '_x %s _y' % op
            elif op in ('==', '!=', '<', '<=', '>', '>='):
                fast = '_x %s _y' % op
            else: fast = None
            yw, yu = intinfo(self.p.under(i['yt']))
            if fast:
                L.append('%s = %s if type(_x) is int and type(_y) is int else ex.bin(%r, _x, _y, %r, %r, %r, %r)' % (r, fast, op, w, u, yw, yu))
            else:
                L.append('%s = ex.bin(%r, _x, _y, %r, %r, %r, %r)' % (r, op, w, u, yw, yu))
        else:
            L.append('%s = ex.bin(%r, %s, %s, %r, %r, None, None)' % (r, op, x, y, w, u))

def wrap(v, w, uns):
    v &= (1 << w) - 1
    if not uns and v >> (w - 1): v -= 1 << w
    return v

def cbin(op, x, y, w, u):
    if op == '+': return wrap(x + y, w, u)
    if op == '-': return wrap(x - y, w, u)
    if op == '*': return wrap(x * y, w, u)
    if op == '&': return wrap(x & y, w, u)
    if op == '|': return wrap(x | y, w, u)
    if op == '^': return wrap(x ^ y, w, u)
    if op == '&^': return wrap(x & ~y, w, u)
    if op == '<<': return wrap(x << y, w, u) if y < 4096 else 0
    if op == '>>': return x >> min(y, 4096)
    if op in ('/', '%'):
        if y == 0: raise GoPanic('integer divide by zero')
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return wrap(q if op == '/' else x - q * y, w, u)
    if op == '==': return x == y
    if op == '!=': return x != y
    if op == '<': return x < y
    if op == '<=': return x <= y
    if op == '>': return x > y
    if op == '>=': return x >= y
    raise Unsupported('binop ' + op)

SIZES = [0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096]

class Event:
    __slots__ = ('kind', 'obj', 'path', 'where')
    def __init__(self, kind, obj, path, where): self.kind = kind; self.obj = obj; self.path = path; self.where = where
    def __repr__(self): return '%s %s%s at %s' % (self.kind, self.obj.tag, list(self.path), self.where)

class PathResult:
    pass

class Exec:
    """One executor = one program + contracts. Use explore() to enumerate the paths of a harness."""
    def __init__(self, prog, contracts=None, intrinsics=None, max_steps=20000000, merge=False):
        self.p = prog
        self.contracts = dict(contracts or {})
        self.intr = dict(intrinsics or {})
        self.gobjs = {}
        self.journal = []
        self.pc = []
        self.events = []
        self.epoch = 1
        self.prefix = []; self.di = 0; self.alts = []
        self.in_region = 0
        self.merge = merge
        self.stack = []
        self.defers = []
        self.feasible = None       # callable(pc)->bool
        self.fnlog = set()         # functions executed
        self.steps = 0
        self.max_steps = max_steps
        self.forks = 0
        self.loop_bound = 0        # bound on symbolic iterations (0: none)
        self.merge_fns = None
        self.loophook = None       # called on entering a loop header
        self.allocs = []           # objects created on this path, in order
    # ---------------------------------------------------------------- memory
    def gptr(self, name):
        o = self.gobjs.get(name)
        if o is None:
            t = self.p.globals.get(name)
            if t is None: raise Unsupported('global ' + name)
            o = self.gobjs[name] = Obj(self.p.zero(t), 'global:' + name, 0, t)
        return Ptr(o, ())
    def alloc(self, t, where=None):
        o = Obj(self.p.zero(t), None, self.epoch, t, where); self.allocs.append(o)
        return Ptr(o, ())
    def new(self, v, tag=None, ty=None):
        o = Obj(v, tag, self.epoch, ty); self.allocs.append(o)
        return Ptr(o, ())
    def load(self, p):
        if type(p) is Ptr:
            v = p.obj.v
            for i in p.path:
                v = v[i] if type(v) is tuple else self.proj(v, i)
            return v
        if p is None: raise GoPanic('nil dereference', self.where())
        if type(p) is PtrIte:
            return self.ite(p.c, self.load(p.a), self.load(p.b))
        if type(p) is IdxPtr:
            arr = self.load(p.base)
            vals = [self.getpath(arr[p.off + k], p.tail) for k in range(p.n)]
            return p.i.th.select(self, vals, p.i)
        raise Unsupported('load from %r' % (p,))
    def getpath(self, v, path):
        for i in path: v = v[i] if type(v) is tuple else self.proj(v, i)
        return v
    def proj(self, v, i):
        if type(v) is tuple: return v[i]
        if isinstance(v, Abs): return v.proj(self, i)
        if v is None: raise GoPanic('nil dereference', self.where())
        raise Unsupported('project %r' % (v,))
    def upd(self, v, path, k, new):
        if k == len(path): return new
        i = path[k]
        if type(v) is tuple:
            return v[:i] + (self.upd(v[i], path, k + 1, new),) + v[i + 1:]
        if isinstance(v, Abs):
            return v.upd(self, i, self.upd(v.proj(self, i), path, k + 1, new) if k + 1 < len(path) else new)
        raise Unsupported('update %r' % (v,))
    def setobj(self, obj, v):
        self.journal.append((obj, obj.v))
        obj.v = v
    def store(self, p, v, where=None):
        if type(p) is Ptr:
            obj = p.obj
            if obj.born != self.epoch: self.events.append(Event('store', obj, p.path, where))
            self.setobj(obj, self.upd(obj.v, p.path, 0, v) if p.path else v)
            return
        if p is None: raise GoPanic('nil dereference', where)
        if type(p) is PtrIte:
            a = self.load(p.a); b = self.load(p.b)
            self.store(p.a, self.ite(p.c, v, a), where)
            # when a and b are the same cell the first store has changed b
            b2 = self.load(p.b)
            self.store(p.b, self.ite(p.c, b2, v), where)
            return
        if type(p) is IdxPtr:
            arr = self.load(p.base)
            for k in range(p.n):
                old = self.getpath(arr[p.off + k], p.tail)
                c = p.i.th.eqconst(p.i, k)
                q = Ptr(p.base.obj, p.base.path + (p.off + k,) + p.tail)
                self.store(q, self.ite(c, v, old), where)
            return
        raise Unsupported('store to %r' % (p,))
    def faddr(self, p, i):
        if p is None: raise GoPanic('nil dereference', self.where())
        if type(p) is Ptr: return Ptr(p.obj, p.path + (i,))
        if type(p) is PtrIte: return PtrIte(p.c, self.faddr(p.a, i), self.faddr(p.b, i))
        if type(p) is IdxPtr: return IdxPtr(p.base, p.i, p.off, p.n, p.tail + (i,))
        raise Unsupported('faddr %r' % (p,))
    def iaddr(self, x, i, xt):
        if type(x) is Slice:
            if type(i) is int:
                if not 0 <= i < x.len: raise GoPanic('index out of range [%d] with length %d' % (i, x.len), self.where())
                return Ptr(x.obj, x.path + (x.off + i,))
            self.bounds(i, x.len)
            return IdxPtr(Ptr(x.obj, x.path), i, x.off, x.len)
        if x is None:
            if self.p.under(xt)['k'] == 'slice': raise GoPanic('index out of range with length 0', self.where())
            raise GoPanic('nil dereference', self.where())
        if type(x) is Ptr:
            n = self.p.under(self.p.under(xt)['e'])['n']
            if type(i) is int:
                if not 0 <= i < n: raise GoPanic('index out of range [%d] with length %d' % (i, n), self.where())
                return Ptr(x.obj, x.path + (i,))
            self.bounds(i, n)
            return IdxPtr(x, i, 0, n)
        if type(x) is PtrIte:
            return PtrIte(x.c, self.iaddr(x.a, i, xt), self.iaddr(x.b, i, xt))
        raise Unsupported('iaddr %r' % (x,))
    def bounds(self, i, n):
        c = i.th.inrange(i, n)
        if c is True: return
        if c is False or not self.decide(c): raise GoPanic('index out of range (length %d)' % n, self.where())
    def index(self, x, i):
        if type(x) is bytes or type(x) is tuple or type(x) is SStr:
            if type(i) is int:
                if not 0 <= i < len(x): raise GoPanic('index out of range', self.where())
                return x[i]
            self.bounds(i, len(x))
            return i.th.select(self, list(x), i)
        if isinstance(x, Abs): return x.proj(self, i)
        raise Unsupported('index %r' % (x,))
    # ---------------------------------------------------------------- scalars
    def bin(self, op, x, y, w, u, yw, yu):
        tx = type(x); ty = type(y)
        if tx is int and ty is int:
            if op in ('<<', '>>') and y < 0: raise GoPanic('negative shift')
            return cbin(op, x, y, w, u)
        if isinstance(x, Sym):
            return x.th.bin(self, op, x, y, w, u, yw)
        if isinstance(y, Sym):
            return y.th.bin(self, op, x, y, w, u, yw)
        if op in ('==', '!='):
            r = self.valeq(x, y)
            if op == '==': return r
            return self.bnot(r)
        if tx is SStr or ty is SStr:
            a, b = tuple(x), tuple(y)
            if op == '+': return mkstr(a + b)
            c = 0
            for u_, v_ in zip(a, b):
                if type(u_) is int and type(v_) is int:
                    if u_ != v_: c = -1 if u_ < v_ else 1
                elif not self.decide(self.bin('==', u_, v_, 8, True, 8, True)):
                    c = -1 if self.decide(self.bin('<', u_, v_, 8, True, 8, True)) else 1
                if c: break
            c = c or (len(a) > len(b)) - (len(a) < len(b))
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        if tx is bytes and ty is bytes:
            if op == '+': return x + y
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if tx is float or ty is float:
            if op == '+': return x + y
            if op == '*': return x * y
            if op == '-': return x - y
            if op == '/': return x / y
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if tx is bool and ty is bool:
            return {'&': x and y, '|': x or y, '^': x != y}[op]
        raise Unsupported('bin %s %r %r' % (op, x, y))
    def valeq(self, x, y):
        if isinstance(x, (Sym, Abs)): return x.th.eq(self, x, y)
        if isinstance(y, (Sym, Abs)): return y.th.eq(self, y, x)
        if type(x) is SStr or type(y) is SStr:
            if len(x) != len(y): return False
            x, y = tuple(x), tuple(y)
        if type(x) is tuple and type(y) is tuple:
            r = True; bad = None
            for a, b in zip(x, y):
                try: c = self.valeq(a, b)
                except Unsupported as e: bad = e; continue        # another component may differ for sure
                if c is False: return False
                if bad is None: r = self.band(r, c)
                if r is False: return False
            if bad is not None: raise bad
            return r
        if type(x) is PtrIte: return self.ite(x.c, self.valeq(x.a, y), self.valeq(x.b, y))
        if type(y) is PtrIte: return self.valeq(y, x)
        if x is None or y is None: return x is None and y is None
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x.t != y.t: return False
            return self.valeq(x.v, y.v)
        if isinstance(x, Iface) or isinstance(y, Iface):
            if isinstance(y, Iface): x, y = y, x
            return self.valeq(x.v, y)
        return x == y
    def bnot(self, c):
        if c is True: return False
        if c is False: return True
        return c.th.bnot(c)
    def band(self, a, b):
        if a is False or b is False: return False
        if a is True: return b
        if b is True: return a
        return a.th.band(a, b)
    def bor(self, a, b):
        return self.bnot(self.band(self.bnot(a), self.bnot(b)))
    def unop(self, op, x, w, u):
        if isinstance(x, Sym): return x.th.un(self, op, x, w, u)
        if op == '!': return not x
        if op == '-':
            return wrap(-x, w, u) if w else -x
        if op == '^': return wrap(~x, w, u)
        raise Unsupported('un ' + op)
    def conv(self, x, aw, au, bw, bu):
        if type(x) is int:
            return wrap(x, bw, bu)
        if isinstance(x, Sym): return x.th.conv(self, x, aw, au, bw, bu)
        raise Unsupported('conv %r' % (x,))
    def conv2(self, x, a, b):
        ta = self.p.under(a); tb = self.p.under(b)
        if ta['k'] == 'slice' and tb.get('name') == 'string':
            vals = self.slice_vals(x)
            if all(type(v) is int for v in vals): return bytes(vals)
            return SStr(tuple(vals))
        if ta.get('name') in ('string', 'untyped string') and tb['k'] == 'slice':
            return self.mkslice_of(tuple(x))
        if 'int' in ta and tb.get('name') == 'string':
            return chr(x).encode()
        if 'int' in ta and 'float' in tb.get('name', ''): return float(x)
        if 'int' in tb and 'float' in ta.get('name', ''): return wrap(int(x), tb['int'], tb['uns'])
        if ta['k'] == tb['k']: return x
        if tb.get('name') == 'unsafe.Pointer' or ta.get('name') == 'unsafe.Pointer': raise Unsupported('unsafe')
        raise Unsupported('convert %s to %s' % (ta['s'], tb['s']))
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        ta = type(a); tb = type(b)
        if ta is int and tb is int and a == b: return a
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if ta is Ptr and tb is Ptr and a == b: return a
        if ta is bytes and tb is bytes and a == b: return a
        if (ta in (Ptr, PtrIte) or a is None) and (tb in (Ptr, PtrIte) or b is None):
            return PtrIte(c, a, b)
        if ta is Slice and tb is Slice:
            if a.obj is b.obj and a.path == b.path and a.off == b.off and a.len == b.len and a.cap == b.cap: return a
            raise MergeFail()
        if isinstance(a, (Sym, Abs)):
            r = a.th.ite(self, c, a, b)
        elif isinstance(b, (Sym, Abs)):
            r = b.th.ite(self, c, a, b)
        elif ta in (int, bool) and tb in (int, bool):
            r = c.th.ite(self, c, a, b)
        else: raise MergeFail()
        return r
    # ---------------------------------------------------------------- control
    def where(self):
        return self.stack[-1] if self.stack else None
    def gopanic(self, v, where):
        msg = v.v if isinstance(v, Iface) else v
        raise GoPanic('panic: %r' % (msg,), where)
    def unsupported(self, what): raise Unsupported(what)
    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        self.pc.append((c, True))
        if self.feasible and not self.feasible(self): raise Infeasible()
    def decide(self, c):
        if c is True or c is False: return c
        for (d, pol) in self.pc:
            if d is c: return pol
        if self.in_region: raise MergeFail()
        if self.di < len(self.prefix):
            d = self.prefix[self.di]; self.di += 1
            self.pc.append((c, d))
            return d
        # fresh decision
        d = True
        both = True
        if self.feasible:
            self.pc.append((c, True)); ft = self.feasible(self); self.pc.pop()
            self.pc.append((c, False)); ff = self.feasible(self); self.pc.pop()
            if not ft and not ff: raise Infeasible()
            both = ft and ff; d = ft
        if both:
            self.alts.append(self.prefix[:self.di] + [False])
            self.forks += 1
        self.prefix = self.prefix[:self.di] + [d]; self.di += 1
        self.pc.append((c, d))
        return d
    def choose(self, n, name='choice'):
        "nondeterministic choice in the environment (harness level)"
        for k in range(n - 1):
            if self.decide(Choice(name, k)): return k
        return n - 1
    def call(self, name, args):
        c = self.contracts.get(name)
        if c is not None:
            return c(self, args)
        f = self.p.funcs.get(name)
        if f is None:
            if name not in self.p.raw: raise Unsupported('unknown function ' + name)
            f = self.p.func(name)
        it = self.intr.get(name)
        if it is not None: return it(self, args)
        if f.external: raise Unsupported('no body: ' + name)
        return self.run(f, args, ())
    def callv(self, fv, args):
        if isinstance(fv, Fn): return self.call(fv.name, args)
        if isinstance(fv, Closure):
            c = self.contracts.get(fv.name)
            if c is not None: return c(self, args, fv.b)
            return self.run(self.p.func(fv.name), args, fv.b)
        if fv is None: raise GoPanic('nil function call', self.where())
        if callable(fv): return fv(self, args)
        raise Unsupported('call of %r' % (fv,))
    def mkclosure(self, name, b): return Closure(name, b)
    def invoke(self, recv, meth, args, where):
        if recv is None: raise GoPanic('nil interface method call', where)
        if not isinstance(recv, Iface): raise Unsupported('invoke on %r' % (recv,))
        if callable(recv.t):   # environment object
            return recv.t(self, recv.v, meth, args)
        ts = self.p.types[recv.t]['s'] if isinstance(recv.t, int) else recv.t
        name = '(%s).%s' % (ts, meth)
        if name in self.contracts or name in self.intr or name in self.p.raw:
            return self.call(name, (recv.v,) + tuple(args))
        raise Unsupported('method ' + name)
    def defer(self, th):
        self.defers[-1].append(th)
    def rundefers(self):
        d = self.defers[-1]
        while d: d.pop()()
    def mkiface(self, t, v):
        return Iface(t, v)
    def tassert(self, x, at, ok):
        ty = self.p.under(at)
        good = x is not None and (ty['k'] == 'iface' or x.t == at)
        if x is not None and ty['k'] == 'iface' and ok: raise Unsupported('interface type assertion')
        v = (x if ty['k'] == 'iface' else x.v) if good else self.p.zero(at)
        if ok: return (v, good)
        if not good: raise GoPanic('interface conversion', self.where())
        return v
    def run(self, f, args, fvs):
        e = [None] * f.nslots
        for s, a in zip(f.params, args): e[s] = a
        for s, a in zip(f.freevars, fvs): e[s] = a
        self.fnlog.add(f.name)
        self.stack.append(f.name)
        self.defers.append([])
        if len(self.stack) > 400: raise Bound('recursion depth in ' + f.name)
        try:
            r = self.region(f, e, 0, None, -1)
            return r[1]
        finally:
            self.stack.pop(); self.defers.pop()
    def region(self, f, e, b, prev, stop):
        "runs from block b; returns ('ret', value) or ('stop', prev) when about to enter block stop"
        blocks = f.blocks
        counts = None
        while True:
            if b == stop: return ('stop', prev)
            blk = blocks[b]
            ph = blk.phis
            if ph is not None:
                vals = ph[1](self, e, prev)
                for s, v in zip(ph[0], vals): e[s] = v
            if self.loophook is not None and b in headers(f): self.loophook(self, f, e, b, prev)
            self.steps += 1
            if self.steps > self.max_steps: raise Bound('step bound in ' + f.name)
            t = blk.code(self, e)
            term = blk.term
            if term == 'jump':
                prev = b; b = blk.s[0]
            elif term == 'if':
                if t is True: prev = b; b = blk.s[0]
                elif t is False: prev = b; b = blk.s[1]
                else:
                    r = None
                    if self.merge and (self.merge_fns is None or f.name in self.merge_fns):
                        r = self.try_merge(f, e, b, t)
                    if r is not None:
                        if r[0] == 'ret': return r
                        _, b, prev = r
                        # phis of b were computed by the merge
                        if b == stop: raise MergeFail()
                        blk = blocks[b]
                        if self.loophook is not None and b in headers(f): self.loophook(self, f, e, b, prev)
                        self.steps += 1
                        t = blk.code(self, e)
                        # continue with terminator of the joined block
                        r2 = self.after(f, e, b, t, blk)
                        if r2[0] == 'ret': return r2
                        prev, b = r2[1], r2[2]
                        continue
                    if self.loop_bound:
                        if counts is None: counts = {}
                        counts[b] = counts.get(b, 0) + 1
                        if counts[b] > self.loop_bound: raise Bound('%d symbolic iterations in %s' % (self.loop_bound, f.name))
                    d = self.decide(t)
                    prev = b; b = blk.s[0] if d else blk.s[1]
            elif term == 'ret':
                return ('ret', t)
            else:
                raise Unsupported('block without terminator')
    def after(self, f, e, b, t, blk):
        term = blk.term
        if term == 'jump': return ('go', b, blk.s[0])
        if term == 'ret': return ('ret', t)
        if t is True: return ('go', b, blk.s[0])
        if t is False: return ('go', b, blk.s[1])
        r = self.try_merge(f, e, b, t)
        if r is None:
            d = self.decide(t)
            return ('go', b, blk.s[0] if d else blk.s[1])
        if r[0] == 'ret': return r
        _, nb, prev = r
        blk2 = f.blocks[nb]
        if self.loophook is not None and nb in headers(f): self.loophook(self, f, e, nb, prev)
        t2 = blk2.code(self, e)
        return self.after(f, e, nb, t2, blk2)
    def try_merge(self, f, e, b, c):
        if f.ipdom is None: f.ipdom = ipdoms(f)
        j = f.ipdom[b]
        mark = len(self.journal)
        pcn = len(self.pc)
        e0 = list(e)
        self.in_region += 1
        outs = []
        evs0 = len(self.events)
        try:
            for k in (0, 1):
                ek = e if k == 0 else list(e0)
                if k == 1: pass
                self.pc.append((c, k == 0))
                r = self.region(f, ek, f.blocks[b].s[k], b, j)
                del self.pc[pcn:]
                wr = {}
                for (o, old) in self.journal[mark:]:
                    wr.setdefault(id(o), (o, old))
                fin = {i: (o, o.v, old) for i, (o, old) in wr.items()}
                # roll back
                for (o, old) in reversed(self.journal[mark:]): o.v = old
                del self.journal[mark:]
                outs.append((r, ek, fin))
                if k == 0: e_after0 = list(e); e[:] = e0
            (ra, ea, fa), (rb, eb, fb) = (outs[0][0], e_after0, outs[0][2]), outs[1]
            if ra[0] != rb[0]: raise MergeFail()
            merged = []
            for i in dict.fromkeys([*fa, *fb]):
                o = (fa.get(i) or fb.get(i))[0]
                va = fa[i][1] if i in fa else o.v
                vb = fb[i][1] if i in fb else o.v
                merged.append((o, self.ite(c, va, vb)))
            if ra[0] == 'ret':
                val = self.ite(c, ra[1], rb[1]) if ra[1] is not None or rb[1] is not None else None
                for o, v in merged: self.setobj(o, v)
                return ('ret', val)
            ph = f.blocks[j].phis
            if ph is not None:
                pa = ph[1](self, ea, ra[1]); pb = ph[1](self, eb, rb[1])
                vals = [self.ite(c, x, y) for x, y in zip(pa, pb)]
            for i in range(len(e)):
                # a value computed on one side only is not used after the join
                e[i] = ea[i] if ea[i] is eb[i] else None
            if ph is not None:
                for s, v in zip(ph[0], vals): e[s] = v
            for o, v in merged: self.setobj(o, v)
            return ('join', j, ra[1])
        except (MergeFail, GoPanic, Infeasible):
            for (o, old) in reversed(self.journal[mark:]): o.v = old
            del self.journal[mark:]
            del self.pc[pcn:]
            del self.events[evs0:]
            e[:] = e0
            if self.in_region > 1: raise MergeFail()
            return None
        finally:
            self.in_region -= 1
    # ---------------------------------------------------------------- slices, maps, builtins
    def mkslice(self, et, n, cap, where=None):
        if type(n) is not int or type(cap) is not int: raise Unsupported('make with symbolic length')
        if n < 0 or cap < n: raise GoPanic('makeslice: len out of range', where)
        o = Obj((self.p.zero(et),) * cap, None, self.epoch, None, where)
        return Slice(o, (), 0, n, cap)
    def mkslice_of(self, vals, tag=None, cap=None):
        vals = tuple(vals); n = len(vals)
        o = Obj(vals, tag, self.epoch)
        return Slice(o, (), 0, n, n)
    def slice_vals(self, s):
        if s is None: return ()
        if type(s) is bytes or type(s) is SStr: return tuple(s)
        if not isinstance(s, Slice): raise Unsupported('slice %r' % (s,))
        return self.getpath(s.obj.v, s.path)[s.off:s.off + s.len]
    def fix(self, k, top):
        "case split of a symbolic bound"
        if k is None or type(k) is int: return k
        if not self.decide(k.th.inrange(k, top + 1)): raise GoPanic('slice bounds out of range', self.where())
        for v in range(top):
            if self.decide(k.th.eqconst(k, v)): return v
        return top
    def slice(self, x, xt, lo, hi, mx):
        ty = self.p.under(xt)
        if any(k is not None and type(k) is not int for k in (lo, hi, mx)):
            top = len(x) if type(x) in (bytes, SStr) else self.p.under(ty['e'])['n'] if ty['k'] == 'ptr' else 0 if x is None else x.cap
            if type(top) is not int or top > 300: raise Unsupported('symbolic slice bound')
            lo, hi, mx = [self.fix(k, top) for k in (lo, hi, mx)]
        if type(x) is bytes or type(x) is SStr:
            h = len(x) if hi is None else hi; l = lo or 0
            if not 0 <= l <= h <= len(x): raise GoPanic('slice bounds out of range', self.where())
            return x[l:h] if type(x) is bytes else mkstr(tuple(x)[l:h])
        if ty['k'] == 'ptr':
            if x is None: raise GoPanic('nil dereference', self.where())
            if type(x) is not Ptr: raise Unsupported('slice of %r' % (x,))
            n = self.p.under(ty['e'])['n']
            obj, path, off, ln, cap = x.obj, x.path, 0, n, n
        elif x is None:
            obj, path, off, ln, cap = None, (), 0, 0, 0
        else:
            obj, path, off, ln, cap = x.obj, x.path, x.off, x.len, x.cap
        l = 0 if lo is None else lo
        h = ln if hi is None else hi
        m = cap if mx is None else mx
        if not (0 <= l <= h <= m <= cap): raise GoPanic('slice bounds out of range [%d:%d] cap %d' % (l, h, cap), self.where())
        if obj is None: return None
        return Slice(obj, path, off + l, h - l, m - l)
    def mkmap(self, where=None):
        return Ptr(Obj({}, None, self.epoch, None, where), ())
    def hk(self, k):
        if isinstance(k, (int, bool, bytes)): return k
        if isinstance(k, tuple): return tuple(self.hk(x) for x in k)
        if isinstance(k, Ptr): return k
        raise Unsupported('map key %r' % (k,))
    def mapkey(self, m, k):
        "the key under which a map holds k, and whether it does; symbolic keys are compared with every key of the map"
        d = m.obj.v
        if not symkey(k):
            h = self.hk(k)
            if h in d: return h, True
            if not any(type(x) is SymKey for x in d): return h, False
        else: h = SymKey(k)
        for x in d:
            if type(x) is not SymKey and not symkey(k): continue
            if self.decide(self.valeq(x.k if type(x) is SymKey else x, k)): return x, True
        return h, False
    def lookup(self, m, k, xt, t, ok):
        if type(m) is bytes or type(m) is SStr: return self.index(m, k)
        et = self.p.under(xt)['e']
        z = self.p.zero(et)
        if m is None: return (z, False) if ok else z
        h, hit = self.mapkey(m, k); v = m.obj.v[h] if hit else z
        return (v, hit) if ok else v
    def mapupd(self, m, k, v, where):
        if m is None: raise GoPanic('assignment to nil map', where)
        h = self.mapkey(m, k)[0]
        d = dict(m.obj.v); d[h] = v
        if m.obj.born != self.epoch: self.events.append(Event('store', m.obj, (), where))
        self.setobj(m.obj, d)
    def range(self, x):
        if type(x) is bytes:
            return [0, [(i, c) for i, c in enumerate(x)]]
        if x is None: return [0, []]
        if type(x) is SStr: raise Unsupported('runes of a symbolic string')
        if isinstance(x, Ptr) and isinstance(x.obj.v, dict): return [0, [(k.k if type(k) is SymKey else k, v) for k, v in x.obj.v.items()]]
        raise Unsupported('range over %r' % (x,))
    def next(self, it, s, t):
        i, items = it
        if i >= len(items): return (False,) + tuple(self.p.zero(x) if self.p.under(x).get('k') != 'other' else None for x in self.p.under(t)['f'][1:])
        it[0] += 1
        k, v = items[i]
        return (True, k, v)
    def s2ap(self, s, t):
        n = self.p.under(self.p.under(t)['e'])['n']
        if s is None or s.len < n: raise GoPanic('slice to array pointer: length', self.where())
        raise Unsupported('slice to array pointer')
    def ulen(self, x):
        if x is None: return 0
        if isinstance(x, Slice): return x.len
        if isinstance(x, (bytes, tuple, SStr)): return len(x)
        if isinstance(x, Ptr):
            v = self.load(x)
            return len(v)
        raise Unsupported('len of %r' % (x,))
    def builtin(self, name, args, t, where):
        if name == 'len': return self.ulen(args[0])
        if name == 'cap':
            x = args[0]
            if x is None: return 0
            if isinstance(x, Slice): return x.cap
            return self.ulen(x)
        if name == 'append':
            s, y = args[0], args[1] if len(args) > 1 else None
            vals = self.slice_vals(y)
            if not vals: return s
            n = s.len if s else 0; cap = s.cap if s else 0
            if n + len(vals) <= cap:
                for k, v in enumerate(vals):
                    self.store(Ptr(s.obj, s.path + (s.off + n + k,)), v, where)
                return Slice(s.obj, s.path, s.off, n + len(vals), cap)
            need = n + len(vals)
            nc = cap * 2 if cap < 256 else cap + (cap + 768) // 4
            if need > 2 * cap: nc = need
            et = self.p.under(t)['e']
            if self.p.under(et).get('int') == 8:
                for z in SIZES:
                    if z >= nc: nc = z; break
            old = self.slice_vals(s)
            o = Obj(tuple(old) + tuple(vals) + (self.p.zero(et),) * (nc - need), None, self.epoch, None, where)
            return Slice(o, (), 0, need, nc)
        if name == 'copy':
            d, s = args
            vals = self.slice_vals(s)
            n = min(self.ulen(d), len(vals))
            for k in range(n):
                self.store(Ptr(d.obj, d.path + (d.off + k,)), vals[k], where)
            return n
        if name == 'delete':
            m, k = args
            if m is not None:
                h = self.mapkey(m, k)[0]; d = dict(m.obj.v); d.pop(h, None); self.setobj(m.obj, d)
            return None
        if name in ('print', 'println'): return None
        if name in ('min', 'max') and all(type(a) is int for a in args): return min(args) if name == 'min' else max(args)
        if name == 'ssa:wrapnilchk':
            if args[0] is None: raise GoPanic('nil dereference', where)
            return args[0]
        if name == 'panic': self.gopanic(args[0], where)
        raise Unsupported('builtin ' + name)
    # ---------------------------------------------------------------- driving
    def rollback(self, mark=0):
        for (o, old) in reversed(self.journal[mark:]): o.v = old
        del self.journal[mark:]
    def explore(self, thunk, max_paths=2000):
        """Runs thunk(ex) along every path. Returns a list of PathResult."""
        out = []
        base_prefix = []
        pending = [base_prefix]
        self.explored_all = True
        while pending:
            if len(out) >= max_paths:
                self.explored_all = False
                raise Bound('more than %d paths' % max_paths)
            self.prefix = pending.pop(); self.di = 0; self.alts = []
            self.pc = []; self.events = []; self.stack = []; self.defers = [[]]; self.in_region = 0
            self.epoch += 1; self.allocs = []
            mark = len(self.journal)
            r = PathResult(); r.panic = None; r.val = None; r.infeasible = False
            try:
                r.val = thunk(self)
            except GoPanic as p:
                r.panic = p
            except Infeasible:
                r.infeasible = True
            finally:
                self.rollback(mark)
            r.pc = list(self.pc); r.events = list(self.events); r.decisions = list(self.prefix[:self.di])
            pending.extend(self.alts)
            if not r.infeasible: out.append(r)
        return out

class ChoiceTh:
    def bnot(self, c): raise Unsupported('negated choice')
class Choice(Sym):
    __slots__ = ('name', 'k')
    th = ChoiceTh()
    def __init__(self, name, k): self.name = name; self.k = k
    def __repr__(self): return 'choice(%s=%d)' % (self.name, self.k)

def ipdoms(f):
    "immediate post-dominators; -2 stands for the virtual exit"
    n = len(f.blocks); EXIT = n
    succ = [list(b.s) if b.s else [EXIT] for b in f.blocks] + [[]]
    for i, b in enumerate(f.blocks):
        if b.term in ('ret', 'panic'): succ[i] = [EXIT]
    pd = [set(range(n + 1)) for _ in range(n + 1)]
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            ss = succ[i]
            new = set.intersection(*[pd[s] for s in ss]) | {i} if ss else {i}
            if new != pd[i]: pd[i] = new; ch = True
    res = []
    for i in range(n):
        cand = pd[i] - {i}
        best = None
        for c in cand:
            if all(c == d or d in pd[c] for d in cand): best = c
        res.append(-2 if best is None or best == EXIT else best)
    return res

def headers(f):
    "loop headers with their natural loop bodies"
    h = getattr(f, 'loops', None)
    if h is None:
        n = len(f.blocks); dom = [set(range(n)) for _ in range(n)]; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                ps = f.blocks[i].preds
                new = (set.intersection(*[dom[p] for p in ps]) if ps else set()) | {i}
                if new != dom[i]: dom[i] = new; ch = True
        h = {}
        for i in range(n):
            for s in f.blocks[i].s:
                if s in dom[i]:
                    body = h.setdefault(s, {s}); st = [i]
                    while st:
                        k = st.pop()
                        if k not in body: body.add(k); st += f.blocks[k].preds
        f.loops = h
    return h
