"SMT solver processes. Every query is counted; an (error line makes the answer inconclusive."
import subprocess, time, re, os, tempfile
STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}
LOG = os.environ.get('VERIF_SMTLOG')
def reset():
    for k in STATS: STATS[k] = 0
Z3 = 'z3-new'
def sexp(s):
    out = [[]]
    for tok in re.finditer(r'\(|\)|\|[^|]*\||"[^"]*"|[^\s()]+', s):
        t = tok.group(0)
        if t == '(': out.append([])
        elif t == ')':
            x = out.pop(); out[-1].append(x)
        else: out[-1].append(t)
    return out[0]
def num(x):
    if isinstance(x, list):
        if x[0] == '-': return -num(x[1])
        if x[0] == '_' and x[1].startswith('bv'): return int(x[1][2:])
        if x[0] == 'as' and x[1].startswith('ff'): return int(x[1][2:])
        if x[0] == '/': return num(x[1])
        return None
    if x == 'true': return True
    if x == 'false': return False
    if x.startswith('#x'): return int(x[2:], 16)
    if x.startswith('#b'): return int(x[2:], 2)
    m = re.match(r'#f(-?\d+)m(\d+)$', x)
    if m: return int(m.group(1)) % int(m.group(2))
    try: return int(x)
    except ValueError: return None
CACHE = {}
QUICKMS = 700
_ctx = [None, 0]
def inproc(text, names):
    "small queries in process (same z3 release as the command-line solver); None when undecided"
    import z3
    if _ctx[0] is None or _ctx[1] > 400: _ctx[0] = z3.Context(); _ctx[1] = 0
    _ctx[1] += 1
    t0 = time.time()
    try:
        s = z3.SolverFor('ALL', ctx=_ctx[0]) if False else z3.Solver(ctx=_ctx[0])
        s.set('timeout', QUICKMS)
        s.from_string(text)
        r = s.check()
    except z3.Z3Exception: return None
    finally: STATS['time'] += time.time() - t0
    if r == z3.unsat: ans = ('unsat', None)
    elif r == z3.sat:
        m = {}
        if 'FiniteField' in text and names: return None      # the model is read from the command-line solver
        if names:
            mod = s.model(); d = {x.name(): mod[x] for x in mod.decls()}
            for n in names:
                v = d.get(n)
                if v is None: continue
                if z3.is_int_value(v) or z3.is_bv_value(v): m[n] = v.as_long()
                elif z3.is_true(v): m[n] = 1
                elif z3.is_false(v): m[n] = 0
        ans = ('sat', m)
    else: return None
    STATS['queries'] += 1; STATS[ans[0]] += 1
    if LOG:
        with open(LOG, 'a') as f: f.write('; inproc %.2fs %s\n%s\n' % (time.time() - t0, ans[0], text))
    return ans
def cached(fn):
    def g(text, timeout=30, names=(), *a, **k):
        key = (text, tuple(names), fn.__name__)
        r = CACHE.get(key)
        if r is not None: return r
        r = None
        if len(text) < 60000: r = inproc(text, names)
        if r is None: r = fn(text, timeout, names, *a, **k)
        if r[0] != 'unknown': CACHE[key] = r
        return r
    return g
@cached
def run(text, timeout=30, names=(), solver='z3'):
    "text: declarations and assertions. Returns ('unsat', None), ('sat', model) or ('unknown', why)"
    q = text + '\n(check-sat)\n'
    if names: q += '(get-value (%s))\n' % ' '.join(names)
    t0 = time.time()
    if solver == 'z3': cmd = [Z3, '-in', '-T:%d' % max(1, int(timeout))]
    else:
        cmd = ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--produce-models']
    try:
        r = subprocess.run(cmd, input=q, capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout
    except subprocess.TimeoutExpired:
        o = 'timeout'
    dt = time.time() - t0
    STATS['queries'] += 1; STATS['time'] += dt
    first = o.strip().split('\n', 1)[0].strip() if o.strip() else ''
    if LOG:
        with open(LOG, 'a') as f: f.write('; %.2fs %s\n%s\n' % (dt, first, q))
    if first == 'unsat':
        # get-value after unsat yields an error line; nothing before it may
        STATS['unsat'] += 1; return ('unsat', None)
    if first == 'sat':
        STATS['sat'] += 1; m = {}
        if names:
            try:
                for pair in sexp(o.split('\n', 1)[1])[0]:
                    m[pair[0]] = num(pair[1])
            except Exception: pass
        return ('sat', m)
    STATS['unknown'] += 1
    return ('unknown', o[:200])
@cached
def portfolio(text, timeout=30, names=(), order=('z3', 'cvc5'), lag=2.0):
    "starts the first solver, the second after lag seconds; the first definite answer counts"
    q = text + '\n(check-sat)\n'
    if names: q += '(get-value (%s))\n' % ' '.join(names)
    import threading
    t0 = time.time(); box = []; ev = threading.Event(); procs = []
    def go(cmd):
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True); procs.append(p)
            o, _ = p.communicate(q, timeout=timeout + 5)
        except subprocess.TimeoutExpired: p.kill(); p.communicate(); o = 'timeout'
        except Exception as e: o = 'unknown'
        box.append(o); ev.set()
    cmds = [[Z3, '-in', '-T:%d' % max(1, int(timeout))] if s == 'z3' else ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--produce-models'] for s in order]
    ths = []; done = 0; ans = None
    i = 0
    try:
        while True:
            if i < len(cmds) and (i == 0 or time.time() - t0 >= lag or done >= i):
                th = threading.Thread(target=go, args=(cmds[i],)); th.start(); ths.append(th); i += 1
            ev.wait(lag if i < len(cmds) else None); ev.clear()
            while done < len(box):
                o = box[done]; done += 1
                f = o.strip().split('\n', 1)[0].strip() if o.strip() else ''
                if f in ('sat', 'unsat'): ans = (f, o)
            if ans or done >= len(cmds): break
    finally:
        for p in procs:
            if p.poll() is None: p.kill()
        for th in ths: th.join()
    STATS['queries'] += 1; STATS['time'] += time.time() - t0
    if LOG:
        with open(LOG, 'a') as f: f.write('; %.2fs %s\n%s\n' % (time.time() - t0, ans and ans[0], q))
    if not ans: STATS['unknown'] += 1; return ('unknown', (box[0] if box else '')[:200])
    STATS[ans[0]] += 1
    if ans[0] == 'unsat': return ('unsat', None)
    m = {}
    if names:
        try:
            for pair in sexp(ans[1].split('\n', 1)[1])[0]: m[pair[0]] = num(pair[1])
        except Exception: pass
    return ('sat', m)
