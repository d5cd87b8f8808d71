"""Runs concrete cases against the real compiled code (in-package test supplied through an overlay)."""
import os, json, subprocess, re, tempfile
from core import *
from prog import REPO, GOENV, VERIF
from intr import P
ROOT = P[:-1]
PKGDIR = {ROOT: '.', ROOT + '/g1pubs': './g1pubs', ROOT + '/g2pubs': './g2pubs'}

def gotype(s, pkg, imports):
    def sub(m):
        path, name = m.group(1), m.group(2)
        if path == pkg: return name
        imports.add(path); return path.rsplit('/', 1)[-1] + '.' + name
    return re.sub(r'((?:[\w.\-]+/)*[\w\-]+)\.(\w+)', sub, s)
def opname(fn, pkg):
    "expression naming function fn inside package pkg, or None"
    if '$' in fn or fn.endswith('.init') or '#' in fn: return None
    m = re.match(r'^\((\*?)([^)]+)\)\.(\w+)$', fn)
    if m:
        pk, ty = m.group(2).rsplit('.', 1)
        return '(%s%s).%s' % (m.group(1), ty, m.group(3)) if pk == pkg else None
    pk, name = fn.rsplit('.', 1)
    return name if pk == pkg and re.match(r'^\w+$', name) else None

class Driver:
    "one compiled driver (package, architecture)"
    def __init__(self, prog, pkg, scratch, race=False):
        self.race = race; self.races = ''
        self.prog = prog; self.pkg = pkg; self.arch = prog.arch
        self.dir = os.path.join(scratch, 'drv_%s%s_%s' % (prog.arch, 'race' if race else '', pkg.rsplit('/', 1)[-1]))
        os.makedirs(self.dir, exist_ok=True)
        self.bin = None
    def build(self):
        if self.bin: return
        imports = set(); ops = []; gl = []; ty = []
        for fn in sorted(self.prog.raw):
            o = opname(fn, self.pkg)
            if o: ops.append('\t%s: %s,' % (json.dumps(fn), o))
        for g in sorted(self.prog.globals):
            pk, name = g.rsplit('.', 1)
            if pk == self.pkg and '$' not in name and name != '_': gl.append('\t%s: &%s,' % (json.dumps(name), name))
        seen = set()
        for fn in sorted(self.prog.raw):
            if not opname(fn, self.pkg): continue
            for t in self.prog.raw[fn]['ptypes'] + self.prog.raw[fn]['results']:
                s0 = self.prog.types[t]['s']
                for s in (s0, '*' + s0):
                    if s in seen or s.startswith('**'): continue
                    seen.add(s)
                    g = gotype(s, self.pkg, imports)
                    if 'func' in g or 'struct' in g or 'error' in g: continue
                    ty.append('\t%s: reflect.TypeOf((*%s)(nil)).Elem(),' % (json.dumps(s), g))
        std = {'bytes', 'crypto/sha256', 'encoding/hex', 'encoding/json', 'errors', 'fmt', 'hash', 'io', 'math/big', 'os', 'reflect', 'runtime/debug', 'sort', 'sync', 'testing', 'time', 'unsafe'}
        t = open(os.path.join(VERIF, 'engine', 'replay.go.tmpl')).read()
        name = self.prog.pkgs[self.pkg].get('name') or self.pkg.rsplit('/', 1)[-1]
        t = t.replace('@PKG@', name).replace('@OPS@', '\n'.join(ops)).replace('@GLOBALS@', '\n'.join(gl)).replace('@TYPES@', '\n'.join(ty))
        t = t.replace('@IMPORTS@', '\n'.join('\t"%s"' % i for i in sorted(imports - std)))
        src = os.path.join(self.dir, 'zz_verif_replay_test.go'); open(src, 'w').write(t)
        ov = os.path.join(self.dir, 'ov.json')
        rep = {os.path.join(REPO, PKGDIR[self.pkg], 'zz_verif_replay_test.go'): src}
        # the repository's own tests are not part of the driver
        d = os.path.join(REPO, PKGDIR[self.pkg])
        for f in os.listdir(d):
            if f.endswith('_test.go'): rep[os.path.join(d, f)] = ''
        json.dump({'Replace': rep}, open(ov, 'w'))
        env = dict(GOENV, GOARCH=self.arch, CGO_ENABLED='1' if self.race else '0')
        out = os.path.join(self.dir, 'drv')
        r = subprocess.run(['go', 'test', '-c'] + ['-race'] * self.race + [ '-vet=off', '-overlay', ov, '-o', out, PKGDIR[self.pkg]], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out): raise Unsupported('driver does not build: ' + (r.stderr + r.stdout)[-1500:])
        self.bin = out
    def build_quiet(self, S):
        try: self.build()
        except Unsupported as e: S.notes.append(str(e))
    def run(self, cases, timeout=300):
        "cases: list of dicts {calls:[{fn,args}], globals?, tmo?}; returns the list of outputs"
        self.build()
        fd, inp = tempfile.mkstemp(dir=self.dir); os.close(fd)
        with open(inp, 'w') as f:
            for c in cases: f.write(json.dumps(c) + '\n')
        out = inp + '.out'
        env = dict(os.environ, VERIF_CASES=inp, VERIF_OUT=out)
        if self.race: env['GORACE'] = 'halt_on_error=0 exitcode=0 log_path=' + inp + '.race'
        try:
            r = subprocess.run([self.bin, '-test.run', 'TestVerifReplay', '-test.timeout', '%ds' % timeout], cwd=self.dir, env=env, capture_output=True, text=True, timeout=timeout + 20)
            tail = r.stdout[-500:] + r.stderr[-500:]
        except subprocess.TimeoutExpired:
            tail = 'timeout'
        res = []
        try:
            for l in open(out):
                try: res.append(json.loads(l))
                except ValueError: break
        except FileNotFoundError: pass
        self.tail = tail
        if self.race:
            import glob
            self.races = ''.join(open(x, errors='replace').read() for x in sorted(glob.glob(inp + '.race.*')))
        for _ in range(len(cases) - len(res)): res.append({'missing': True, 'tail': tail})
        return res

# ------------------------------------------------------------------ engine values <-> JSON
class Enc:
    "engine value -> JSON, by type"
    def __init__(self, prog): self.p = prog; self.ids = {}
    def __call__(self, t, v):
        if hasattr(v, 'j'): return v.j
        ty = self.p.types[t] if isinstance(t, int) else self.p.types[self.p.ptypes[t]]
        s = ty['s']
        while ty['k'] == 'named':
            if s == 'math/big.Int': return {'big': str(v if type(v) is int else 0)}
            ty = self.p.types[ty['u']]
        k = ty['k']
        if k == 'basic':
            if isinstance(v, bool): return v
            if isinstance(v, int): return str(v)
            if isinstance(v, bytes): return {'s': v.hex()}
            raise Unsupported('encode %r' % (v,))
        if k == 'struct': return [self(f, x) for f, x in zip(ty['f'], v)]
        if k == 'array':
            if self.p.under(ty['e']).get('int') == 8: return bytes(v).hex()
            return [self(ty['e'], x) for x in v]
        if k == 'ptr':
            if v is None: return None
            if isinstance(v, dict): return v
            key = (id(v.obj), v.path)
            if key in self.ids: return {'p': self.ids[key][0]}
            self.ids[key] = (len(self.ids) + 1, v)
            x = v.obj.v
            for i in v.path: x = x[i]
            return {'p': self.ids[key][0], 'v': self(ty['e'], x)}
        if k == 'slice':
            if v is None: return None
            if isinstance(v, dict): return v
            vals = v.obj.v
            for i in v.path: vals = vals[i]
            vals = vals[v.off:v.off + v.len]
            if self.p.under(ty['e']).get('int') == 8: return {'h': bytes(vals).hex()}
            return {'l': [self(ty['e'], x) for x in vals]}
        if k == 'iface':
            if v is None or isinstance(v, dict): return v
        raise Unsupported('encode %s' % s)
class Dec:
    "JSON -> engine value"
    def __init__(self, prog): self.p = prog; self.objs = {}
    def __call__(self, t, j):
        ty = self.p.types[t] if isinstance(t, int) else self.p.types[self.p.ptypes[t]]
        s = ty['s']
        while ty['k'] == 'named':
            if s == 'math/big.Int': return int(j['big'])
            ty = self.p.types[ty['u']]
        k = ty['k']
        if k == 'basic':
            if isinstance(j, bool): return j
            if isinstance(j, str): return int(j)
            if isinstance(j, dict): return bytes.fromhex(j['s'])
        if k == 'struct': return tuple(self(f, x) for f, x in zip(ty['f'], j))
        if k == 'array':
            if isinstance(j, str): return tuple(bytes.fromhex(j))
            return tuple(self(ty['e'], x) for x in j)
        if k == 'ptr':
            if j is None: return None
            key = (j['p'], s)
            if 'v' in j:
                o = Obj(None); self.objs[key] = o; o.v = self(ty['e'], j['v'])
                return Ptr(o)
            return Ptr(self.objs[key])
        if k == 'slice':
            if j is None: return None
            vals = tuple(bytes.fromhex(j['h'])) if 'h' in j else tuple(self(ty['e'], x) for x in j['l'])
            return Slice(Obj(vals), (), 0, len(vals), len(vals))
        return j
