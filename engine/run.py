"""usage: run.py <property> <quick|thorough>"""
import sys, os, json, time, random, tempfile, shutil, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from frame import *
import replay, spec
from concurrent.futures import ThreadPoolExecutor

MODS = {'C01': 'ob_c01', 'C02': 'ob_c02', 'C03': 'ob_c03', 'C04': 'ob_c04', 'C05': 'ob_c05', 'C06': 'ob_c06', 'C07': 'ob_c07', 'C08': 'ob_c08', 'C09': 'ob_c09', 'C10': 'ob_c10',
        'C11': 'ob_c11', 'C12': 'ob_c12', 'C13': 'ob_c13', 'C14': 'ob_c14', 'C15': 'ob_c15', 'C16': 'ob_c16', 'C17': 'ob_c17', 'C18': 'ob_c18', 'C19': 'ob_c19'}

def known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l[len('known: property=%s ' % prop):])
    return out

def pkgof(fn):
    fn = fn.lstrip('(*'); i = fn.rfind('/')
    return fn[:i + 1] + fn[i + 1:].split('.')[0]
def crash(o):
    if o.get('timeout'): return 'did not return within its time limit'
    for x in o.get('outs') or ():
        if 'panic' in x: return 'panicked: ' + x['panic']
class Session:
    def __init__(self, prop, tier, scratch):
        self.prop = prop; self.tier = tier; self.scratch = scratch
        self.drv = {}
        self.open_archs = None; self.only_crash = False
        self.violations = []; self.concrete = 0; self.samples = []; self.notes = []
    def driver(self, arch, pkg):
        k = (arch, pkg)
        if k not in self.drv: self.drv[k] = replay.Driver(self.ctx.w[arch].p, pkg, self.scratch)
        return self.drv[k]
    def violation(self, what, arch, case, detail):
        self.violations.append({'property': self.prop, 'what': what, 'arch': arch, 'case': case, 'detail': detail})
    def run_spec(self, s, arch, cands, limit=5):
        "runs candidates of a specification on the real code; records violations"
        prog = self.ctx.w[arch].p
        if s.fn not in prog.raw: return 0
        pkg = pkgof(s.fn)
        cases = []; kept = []
        for raws, al in cands:
            try: cases.append(spec.mkcase(prog, s, raws, al)); kept.append((raws, al))
            except Exception as e: self.notes.append('case not encodable for %s: %s' % (s.fn, e))
        if not cases: return 0
        try: outs = self.driver(arch, pkg).run(cases, timeout=200)
        except Unsupported as e:
            self.notes.append(str(e)); return 0
        n = 0
        for (raws, al), c, o in zip(kept, cases, outs):
            if o.get('missing') or (o.get('outs') and o['outs'][0].get('missing')): continue
            n += 1
            try: m = crash(o) if self.only_crash else spec.judge(prog, s, raws, o, al)
            except Exception as e:
                self.notes.append('output of %s not decodable: %s: %s' % (s.fn, type(e).__name__, e)); continue
            if m:
                self.violation(s.fn, arch, c, '%s(%s)%s %s' % (s.fn.replace(P, ''), ', '.join(spec.show(r) for r in raws), ' with arguments %s being one object' % (al,) if al else '', m))
                limit -= 1
                if limit <= 0: break
        self.concrete += n
        return n

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = check(prop, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, scratch, t0):
    S = Session(prop, tier, scratch)
    mod = importlib.import_module(MODS[prop])
    build_tool()
    archs = getattr(mod, 'ARCHS', ('amd64', '386'))
    worlds = {}
    loadfail = {}
    def load(a):
        try: return a, World(dump(a, scratch)), None
        except Exception as e: return a, None, '%s: %s' % (type(e).__name__, e)
    with ThreadPoolExecutor(2) as tp:
        for a, w, e in tp.map(load, archs):
            if w: worlds[a] = w
            else: loadfail[a] = e
    S.ctx = Ctx(worlds, tier)
    spec.SIZES[:] = sizes(S.ctx)
    recs = []; stats = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}; fns = set()
    if loadfail: S.notes.append('not loaded: %s' % loadfail)
    results = []
    if worlds:
        obs = mod.obligations(S.ctx)
        results = runall(S.ctx, obs)
        for i, rs, st, f, wall in results:
            for k in stats: stats[k] += st.get(k, 0)
            fns |= f
            for r in rs: r.group = obs[i].name; r.wall = wall
            recs += rs
    proved = [r for r in recs if r.status == 'proved']; rest = [r for r in recs if r.status != 'proved']
    rng = random.Random(SEED * 1000003 + int(prop[1:]))
    S.open_archs = {a for a in archs for r in rest if a in r.name or not any(x in r.name for x in archs)}
    # solver models and directed candidates on the real code, for what is not proved
    if hasattr(mod, 'concrete') and worlds:
        mod.concrete(S, rest, rng)
    elif worlds:
        default_concrete(S, mod, rest, rng)
    kn = known(prop)
    real = []
    for v in S.violations:
        hit = [k for k in kn if getattr(mod, 'is_known', lambda v, k: False)(v, k)]
        if not hit: real.append(v)
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    rdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'),
          'coverage': {'obligations': len(recs), 'discharged': len(proved), 'checker_cmd': 'python3-vt engine/run.py %s %s' % (prop, tier),
                       'trusted_base': getattr(mod, 'TRUST', []) + TRUST,
                       'functions_encoded': sorted(x.replace(P, '') for x in fns), 'bounds': sorted(set(r.bound for r in recs if r.bound)) + getattr(mod, 'OUTSIDE', []),
                       'solver_queries': stats['queries'], 'unsat': stats['unsat'], 'sat': stats['sat'], 'unknown': stats['unknown'], 'solver_time_s': round(stats['time'], 2),
                       'goals': [{'name': r.name, 'status': r.status, **({'note': r.note} if r.note else {})} for r in recs][:400],
                       'not_discharged': [{'name': r.name, 'status': r.status, 'note': r.note} for r in rest],
                       'concrete_runs_of_real_code': S.concrete, 'samples': S.samples[:5] or [r.name for r in recs[:5]], 'notes': S.notes[:20]},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d queries, solver %.1fs, %d runs of the real code, %.1fs' % (prop, tier, len(recs), len(proved), stats['queries'], stats['time'], S.concrete, time.time() - t0))
    for r in rest: print('  not discharged: %s [%s] %s' % (r.name, r.status, r.note[:300]))
    for n in S.notes[:10]: print('  note:', n[:300])
    if os.environ.get('VERIF_TIMES'):
        for i, rs, st, f, wall in sorted(results, key=lambda z: -z[4])[:12]: print('  %.1fs %s' % (wall, obs[i].name))
    if real:
        for k, v in enumerate(real[:5]):
            path = os.path.join(rdir, '%s_%d.json' % (prop, k))
            with open(path, 'w') as f: json.dump(v, f, indent=1)
            print('  [%s] %s' % (v['arch'], v['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0

TRUST = ['go/ssa (x/tools) construction of SSA from /repo source and the Go compiler', 'engine/core.py: symbolic executor for that SSA', 'engine/intr.py: models of the standard library functions used', 'z3-new, cvc5']

def conc(job):
    fn, arch, full = job
    S, extra = CONC; s = spec.SPECS[fn]
    S.violations = []; S.notes = []; S.concrete = 0
    rng = random.Random('%d %s' % (SEED, fn))
    try:
        if full: c = spec.candidates(s, rng, extra, s.cap * (3 if S.tier == 'thorough' else 1))
        else: c = spec.candidates(s, rng, None, min(s.cap, 60 if S.tier == 'quick' else s.cap))
        if not full and S.tier == 'quick' and not s.gen: c = c[:120]
        if s.gen and arch != 'amd64' and S.tier == 'quick' and not (S.open_archs and arch in S.open_archs): c = c[::3]
        S.run_spec(s, arch, c)
    except Exception as e: S.notes.append('candidates of %s not run: %s: %s' % (fn, type(e).__name__, e))
    return S.violations, S.notes, S.concrete
def gather(S, func, jobs, procs=8):
    "runs concrete jobs in worker processes; their violations, notes and counts go to the session"
    v, n, c = [], list(S.notes), S.concrete
    for i, r, why in sorted(pmap(func, jobs, procs, budget=max(60, left(780, S.tier))), key=lambda z: z[0]):
        if r is None: n.append('runs %s not finished: %s' % (str(jobs[i])[:150], why))
        else: v += r[0]; n += r[1]; c += r[2]
    S.violations, S.notes, S.concrete = v, n, c
def run_jobs(S, jobs, extra):
    global CONC
    CONC = (S, extra)
    if not jobs: return
    jobs = sorted(jobs, key=lambda j: (j[1] != '386', ))
    gather(S, conc, jobs)

def default_concrete(S, mod, rest, rng):
    ctx = S.ctx
    open_specs = []
    for r in rest:
        for (fn, raws, al, arch) in r.models:
            s = spec.SPECS.get(fn)
            if s: S.run_spec(s, arch, [(raws, al)])
        for fn in [x for x in r.specs if x in spec.SPECS]:
            if fn not in open_specs: open_specs.append(fn)
    if S.violations: return
    extra = dictionary(ctx)
    names = mod.specs(ctx) if hasattr(mod, 'specs') else [f for f, s in spec.SPECS.items() if s.prop == S.prop]
    if open_specs:
        # whatever the open goals touch; the property's whole surface when they name no specification of it
        own = [f for f in open_specs if spec.SPECS[f].prop == S.prop] if open_specs else []
        full = own if own and len(own) == len(open_specs) else names
    else: full = names if any(not r.specs for r in rest) else []
    if getattr(mod, 'FULL', False): full = names
    jobs = []
    for fn in names:
        s = spec.SPECS[fn]
        for arch in ctx.w:
            if fn not in ctx.w[arch].p.raw: continue
            S.driver(arch, pkgof(fn)).build_quiet(S)
            jobs.append((fn, arch, fn in full))
    run_jobs(S, jobs, extra)
    if S.violations: return
    import hist
    if getattr(mod, 'HIST', True): hist.run(S, names, bool(rest))
    if S.violations: return
    if hasattr(mod, 'extra'): mod.extra(S, rest, rng, bool(rest))
    elif getattr(mod, 'SCENES', True):
        import scen
        scen.run(S, [f for f in names if f in scen_able(S)], bool(rest), per=1, nmut=1)

def scen_able(S):
    "specifications whose results or arguments are objects that could be shared"
    return {f for f, s in spec.SPECS.items() if any(isinstance(so, spec.SPtr) for so in s.args) or any(isinstance(so, spec.SPtr) for _, so in s.outs)}

COMMON = {3, 4, 5, 6, 7, 8, 10, 11, 12, 16, 24, 31, 32, 40, 41, 48, 63, 64, 96, 128, 144, 192, 255, 256, 384}      # sizes of the formats; lists and messages around them are in the fixed pools
def sizes(ctx):
    "integer constants and array lengths of the analysed code that could be the capacity of a buffer or the size of a batch"
    out = set()
    for w in ctx.w.values():
        def walk(x):
            if isinstance(x, dict):
                if isinstance(x.get('i'), (int, str)):
                    try: out.add(int(x['i']))
                    except ValueError: pass
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        for n, f in w.p.raw.items():
            if 'phoreproject' in n and not n.endswith('.init') and not f.get('external'): walk(f['blocks'])
        for t in w.p.types:
            if t.get('k') == 'array': out.add(t['n'])
    return sorted(v for v in out if 2 < v <= 70000 and v not in COMMON)[:24]
def dictionary(ctx):
    "integer constants of the analysed code, offered as operand values"
    out = {'fq': [], 'fr': [], 'u64': [], 'fqrepr': [], 'frrepr': []}
    for a, w in ctx.w.items():
        seen = set()
        for n, f in w.p.raw.items():
            if 'phoreproject' not in n or n.endswith('.init') or f.get('external'): continue
            def walk(x):
                if isinstance(x, dict):
                    if 'i' in x and isinstance(x['i'], (int, str)):
                        try: v = int(x['i'])
                        except ValueError: v = 0
                        if v > 64: seen.add(v)
                    for y in x.values(): walk(y)
                elif isinstance(x, list):
                    for y in x: walk(y)
            walk(f['blocks'])
        for v in sorted(seen)[:60]:
            out['u64'] += [v & ((1 << 64) - 1), (v + 1) & ((1 << 64) - 1)]
            out['fq'] += [v % Q, v * spec.RQI % Q]; out['fr'] += [v % R, v * spec.RRI % R]
            out['fqrepr'] += [v]; out['frrepr'] += [v]
        break
    return out
if __name__ == '__main__': main()
