"""Loads /repo's current source: SSA of both architectures, package initialisers run concretely."""
import os, subprocess, sys, time, json
from core import *
import intr
from intr import P, Q, R, words, val
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GOENV = dict(os.environ, HOME=os.environ.get('HOME', '/root'), GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOFLAGS_='')
GOBIN = '/opt/veriftools/go1.27.3/bin'
if os.path.isdir(GOBIN): GOENV['PATH'] = GOBIN + ':' + GOENV.get('PATH', '')
BODIES = 'encoding/binary,sort,bytes,math/bits,slices,cmp,internal/byteorder,internal/bytealg'
PKGS = ['github.com/phoreproject/bls', 'github.com/phoreproject/bls/g1pubs', 'github.com/phoreproject/bls/g2pubs']

def build_tool(out=None):
    out = out or os.path.join(VERIF, 'build', 'ssadump')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(VERIF, 'ssadump'), env=GOENV, check=True)
        os.rename(tmp, out)
    return out
def dump(arch, scratch):
    out = os.path.join(scratch, 'ssa_%s.json' % arch)
    r = subprocess.run([build_tool(), '-dir', REPO, '-arch', arch, '-out', out, '-bodies', BODIES, './...'], env=GOENV, capture_output=True, text=True)
    if r.returncode != 0: raise Unsupported('ssadump %s: %s' % (arch, r.stderr[-2000:]))
    return Program(out)

class World:
    "one architecture: program plus initialised globals"
    def __init__(self, prog):
        self.p = prog
        ex = Exec(prog, dict(intr.PRIM) if prog.arch == 'amd64' else {}, intr.INTR)
        ex.epoch = 0
        self.base = ex
        for pk in PKGS:
            f = pk + '.init'
            if prog.exists(f): self.runinit(ex, f)
        self.globals = ex.gobjs
        for n, o in self.globals.items(): o.tag = 'global:' + n
        ex.journal.clear()
        self.tagall()
    def runinit(self, ex, f):
        # imported packages of other modules are not run
        for q in list(self.p.raw):
            if q.endswith('.init') and q[:-5] not in PKGS: ex.contracts[q] = lambda e, a: None
        for q in PKGS:
            g = self.p.globals.get(q + '.init$guard')
        ex.defers = [[]]
        ex.call(f, ())
    def tagall(self):
        "names every object reachable from a global"
        seen = set()
        def walk(v, name):
            if type(v) is Ptr:
                o = v.obj
                if id(o) in seen: return
                seen.add(id(o))
                if not o.tag: o.tag = name
                walk(o.v, name)
            elif type(v) is Slice:
                o = v.obj
                if id(o) in seen: return
                seen.add(id(o))
                if not o.tag: o.tag = name + '[]'
                walk(o.v, name + '[]')
            elif type(v) is tuple:
                for k, x in enumerate(v): walk(x, name)
        for n, o in list(self.globals.items()):
            seen.add(id(o)); walk(o.v, 'reach:' + n)
    def exec(self, contracts=None, **kw):
        c = dict(intr.PRIM) if self.p.arch == 'amd64' else {}
        c.update(contracts or {})
        ex = Exec(self.p, c, intr.INTR, **kw)
        ex.gobjs = self.globals
        return ex
    def g(self, name):
        return self.globals[P + name].v
