"""Obligations, their records, and the worker pool."""
import os, sys, time, json, traceback, random, tempfile, shutil, signal
from multiprocessing import get_context
from core import *
import solve, intr, spec
from intr import P, Q, R, words, val
from prog import *
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class Rec:
    "result of one proof goal"
    def __init__(self, name, status, note='', bound='', specs=(), models=()):
        self.name = name; self.status = status    # 'proved' | 'refuted' | 'open'
        self.note = note; self.bound = bound
        self.specs = list(specs)                  # specifications whose directed candidates are to be run when not proved
        self.models = list(models)                # (spec fn, raws, alias, arch) from solver models
        self.fns = set(); self.q = 0; self.t = 0.0; self.wall = 0.0; self.group = ''
class Ob:
    def __init__(self, name, fn, specs=(), bound='', weight=1, timeout=240):
        self.name = name; self.fn = fn; self.specs = list(specs); self.bound = bound; self.weight = weight; self.timeout = timeout

class Ctx:
    "handed to obligations: worlds by architecture, tier"
    def __init__(self, worlds, tier): self.w = worlds; self.tier = tier; self.fns = set()
    def exec(self, arch, contracts=None, **kw):
        ex = self.w[arch].exec(contracts, **kw); ex.fnlog = self.fns
        return ex

class Alarm(Exception): pass
def onalarm(*a): raise Alarm()
CTX = None
OBS = None
def work(i):
    ob = OBS[i]
    solve.reset(); CTX.fns = set()
    t = time.time()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(ob.timeout)
    try:
        recs = ob.fn(CTX)
        if isinstance(recs, Rec): recs = [recs]
        recs = list(recs)
    except Unsupported as e:
        recs = [Rec(ob.name, 'open', 'not encodable: %s' % e)]
    except Bound as e:
        recs = [Rec(ob.name, 'open', 'bound: %s' % e)]
    except Alarm:
        recs = [Rec(ob.name, 'open', 'time limit')]
    except GoPanic as e:
        recs = [Rec(ob.name, 'open', 'panic: %s in %s' % (e.msg, e.where))]
    except Exception as e:
        recs = [Rec(ob.name, 'open', 'encoding failed: %s: %s | %s' % (type(e).__name__, e, traceback.format_exc()[-600:].replace('\n', ' / ')))]
    finally:
        signal.alarm(0)
    for r in recs:
        if not r.specs: r.specs = ob.specs
        if not r.bound: r.bound = ob.bound
    if os.environ.get('VERIF_MEM'):
        import resource
        print('MEM %s %d MB' % (ob.name, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10), file=sys.stderr)
    return (i, recs, dict(solve.STATS), set(CTX.fns), time.time() - t)

T0 = time.time()
def left(full, tier):
    "seconds left of the budget of a quick run, at a given share of it"
    return full - (time.time() - T0) if tier == 'quick' else 1e9
def loop(func, jobs, conn, mem):
    signal.signal(signal.SIGTERM, signal.SIG_DFL); signal.signal(signal.SIGINT, signal.SIG_DFL)
    if mem:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    while True:
        try: i = conn.recv()
        except EOFError: os._exit(0)
        if i is None: os._exit(0)
        try: r = (True, func(jobs[i]))
        except BaseException as e: r = (False, '%s: %s' % (type(e).__name__, e))
        try: conn.send(r)
        except MemoryError: os._exit(1)
        if not r[0] and 'Memory' in r[1]: os._exit(1)
class W: pass
def pmap(func, jobs, procs=8, order=None, limit=None, mem=0, reuse=8, budget=1e9):
    """(index, result, None) or (index, None, why) for every job, from worker processes that may die, run out of memory or
    exceed their time without taking the others with them"""
    from multiprocessing.connection import wait
    mp = get_context('fork'); todo = list(order if order is not None else range(len(jobs))); todo.reverse()
    end = time.time() + budget; ws = []
    def stop(w):
        if w.p.is_alive(): w.p.kill()
        w.p.join(); w.c.close(); ws.remove(w)
    try:
        while todo or any(w.i is not None for w in ws):
            now = time.time()
            if now > end:
                for w in list(ws):
                    if w.i is not None: yield w.i, None, 'time budget of the run used up'
                    stop(w)
                while todo: yield todo.pop(), None, 'time budget of the run used up'
                break
            for w in [w for w in ws if w.i is None and w.n >= reuse]: w.c.send(None); stop(w)
            for w in ws:
                if w.i is None and todo: w.i = todo.pop(); w.n += 1; w.t = now; w.c.send(w.i)
            while todo and len(ws) < procs:
                w = W(); w.c, ch = mp.Pipe(); w.p = mp.Process(target=loop, args=(func, jobs, ch, mem)); w.p.start(); ch.close()
                w.i = todo.pop(); w.n = 1; w.t = time.time(); w.c.send(w.i); ws.append(w)
            wait([w.c for w in ws if w.i is not None] + [w.p.sentinel for w in ws], timeout=1)
            for w in list(ws):
                if w.i is not None:
                    got = None
                    try:
                        if w.c.poll(): got = w.c.recv()
                    except (EOFError, OSError): got = None
                    if got is not None:
                        i, w.i = w.i, None
                        yield (i, got[1], None) if got[0] else (i, None, got[1])
                        continue
                    if not w.p.is_alive():
                        i = w.i; stop(w); yield i, None, 'the worker process ended (memory limit or crash)'; continue
                    if limit and time.time() - w.t > limit(jobs[w.i]):
                        i = w.i; stop(w); yield i, None, 'time limit'; continue
                elif not w.p.is_alive(): stop(w)
    finally:
        for w in list(ws): stop(w)
MEM = 3 << 30
def runall(ctx, obs, procs=8):
    global CTX, OBS
    CTX = ctx; OBS = obs
    order = sorted(range(len(obs)), key=lambda i: -obs[i].weight)
    out = [None] * len(obs)
    for i, r, why in pmap(work, range(len(obs)), procs, order, lambda i: obs[i].timeout + 30, MEM, budget=left(430, ctx.tier)):
        if r is None:
            rec = Rec(obs[i].name, 'open', why); rec.specs = obs[i].specs; rec.bound = obs[i].bound
            r = (i, [rec], {}, set(), 0.0)
        out[i] = r
    return out

def verdict(ctx_or_th, pc, goal, extra=(), tmo=None):
    return ctx_or_th.prove(pc, goal, extra, tmo)
