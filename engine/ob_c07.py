"""C07: the group law in Jacobian and affine coordinates, on formal coordinates."""
from ringops import *
LEVEL = 'proof'
class Cases:
    def __init__(self, h): self.h = h; self.r = h.ring; self.out = []
    def case(self, label, hyp, goals):
        "goals: (label, formula) or (label, [alternatives]) valid under hyp"
        for g in goals: self.out.append((label + ': ' + g[0], hyp, g[1:] ))
def conj(r, *fs):
    x = True
    for f in fs: x = r.band(x, f)
    return x
def samept(r, o, p, aff=False):
    "o (Jacobian) is the finite point p"
    if aff: return [('x', [(o[0], p[0] * p[0] * 0 + p[0])]), ('y', [(o[1], p[1])])]
    return [('x', [(o[0] * p[2] ** 2, p[0] * o[2] ** 2)]), ('y', [(o[1] * p[2] ** 3, p[1] * o[2] ** 3)])]
def jac(m, r):
    "Jacobian triple of an argument meaning"
    if len(m) == 3 and isinstance(m[2], bool): return (m[0], m[1], r.c(1)) if not m[2] else (r.c(0), r.c(1), r.c(0))
    return m
def dblgoals(r, p, o):
    x, y, z = p
    W = 2 * y * z; N = 3 * x ** 2
    return [(o[0] * W ** 2, (N ** 2 - 8 * x * y ** 2) * o[2] ** 2), (o[1] * W ** 3, (N * (4 * x * y ** 2 - (N ** 2 - 8 * x * y ** 2)) - 8 * y ** 4) * o[2] ** 3)]
def add_goal(h, s, sem, ms, outs):
    r = h.ring; A, B, o = jac(ms[0], r), jac(ms[1], r), outs[0]
    if o is None: return [('result', None, None)]
    C = Cases(h); z1, z2 = A[2], B[2]; i1, i2 = r.eq(z1, 0), r.eq(z2, 0)
    n1, n2 = r.bnot(i1), r.bnot(i2)
    U1, U2 = A[0] * z2 ** 2, B[0] * z1 ** 2; S1, S2 = A[1] * z2 ** 3, B[1] * z1 ** 3
    D, N_ = U2 - U1, S2 - S1
    oz = r.eq(o[2], 0)
    for lab, hyp, p, zz in (('first operand infinity', i1, B, i2), ('second operand infinity', conj(r, n1, i2), A, False)):
        C.case(lab, hyp, [(a, b) for a, b in samept(r, o, p)] + [('infinity', r.eqv(None, oz, zz) if isinstance(oz, RBool) and isinstance(zz, RBool) else (r.bnot(oz) if zz is False else oz if zz is True else r.eqv(None, oz, zz) if not isinstance(oz, bool) else (zz if oz else r.bnot(zz))))])
    fin = conj(r, n1, n2)
    Z = z1 * z2 * D; X = N_ ** 2 - D ** 2 * (U1 + U2); Y = N_ * (U1 * D ** 2 - X) - S1 * D ** 3
    gen = conj(r, fin, r.bnot(r.eq(U2, U1)))
    C.case('different x', gen, [('x', [(o[0] * Z ** 2, X * o[2] ** 2)]), ('y', [(o[1] * Z ** 3, Y * o[2] ** 3)]), ('finite', r.bnot(oz))])
    C.case('opposite points', conj(r, fin, r.eq(U2, U1), r.bnot(r.eq(S2, S1))), [('infinity', oz)])
    same = conj(r, fin, r.eq(U2, U1), r.eq(S2, S1))
    d1, d2 = dblgoals(r, A, o), dblgoals(r, B, o)
    C.case('equal points', same, [('x', [d1[0], d2[0]]), ('y', [d1[1], d2[1]]), ('finite', r.bor(r.bnot(oz), r.bor(r.eq(A[1], 0), r.eq(B[1], 0))))])
    return C.out
def dbl_goal(h, s, sem, ms, outs):
    r = h.ring; p, o = ms[0], outs[0]
    C = Cases(h); i = r.eq(p[2], 0); oz = r.eq(o[2], 0)
    C.case('infinity', i, [('infinity', oz)])
    d = dblgoals(r, p, o)
    C.case('finite', r.bnot(i), [('x', [d[0]]), ('y', [d[1]]), ('finite unless y = 0', r.bor(r.bnot(oz), r.eq(p[1], 0))), ('infinity when y = 0', r.bor(oz, r.bnot(r.eq(p[1], 0))))])
    return C.out
def neg_goal(h, s, sem, ms, outs):
    r = h.ring; C = Cases(h); p, o = ms[0], outs[0]
    if len(o) == 3 and isinstance(o[2], bool):
        if p[2]: C.case('infinity', True, [('infinity', o[2])])
        else: C.case('finite', True, [('finite', not o[2]), ('x', [(o[0], p[0])]), ('y', [(o[1], -p[1])])])
        return C.out
    oz = r.eq(o[2], 0); i = r.eq(p[2], 0)
    C.case('infinity', i, [('infinity', oz)])
    C.case('finite', r.bnot(i), samept(r, o, (p[0], -p[1], p[2])) + [('finite', r.bnot(oz))])
    return C.out
def conv_goal(h, s, sem, ms, outs):
    "same point, whatever the representation"
    r = h.ring; C = Cases(h); p, o = ms[0], outs[0]
    if o is None: return [('result', None, None)]
    pa = isinstance(p[2], bool); oa = isinstance(o[2], bool)
    pz = p[2] if pa else r.eq(p[2], 0); oz = o[2] if oa else r.eq(o[2], 0)
    J, O = jac(p, r), jac(o, r)
    C.case('infinity', pz, [('infinity', oz)])
    C.case('finite', r.bnot(pz), samept(r, O, J) + [('finite', r.bnot(oz))])
    return C.out
def eq_goal(h, s, sem, ms, outs):
    r = h.ring; A, B = jac(ms[0], r), jac(ms[1], r); o = outs[0]
    if not isinstance(o, (bool, RBool)): return [('boolean', None, None)]
    i1, i2 = r.eq(A[2], 0), r.eq(B[2], 0)
    fin = conj(r, r.bnot(i1), r.bnot(i2))
    U = r.eq(A[0] * B[2] ** 2, B[0] * A[2] ** 2); S = r.eq(A[1] * B[2] ** 3, B[1] * A[2] ** 3)
    want = r.bor(conj(r, i1, i2), conj(r, fin, U, S))
    no = r.bnot(o)
    C = Cases(h)
    C.case('both infinity', conj(r, i1, i2), [('equal', o)])
    C.case('one infinity', r.bor(conj(r, i1, r.bnot(i2)), conj(r, i2, r.bnot(i1))), [('different', no)])
    C.case('finite', fin, [('equal when coordinates agree', r.bor(o, r.bnot(conj(r, U, S)))), ('different otherwise', r.bor(no, conj(r, U, S)))])
    return C.out
def isz_goal(h, s, sem, ms, outs):
    r = h.ring; o = outs[0]; p = ms[0]
    z = p[2] if isinstance(p[2], bool) else r.eq(p[2], 0)
    C = Cases(h); C.case('infinity', z, [('true', o)]); C.case('finite', r.bnot(z), [('false', r.bnot(o))]); return C.out
def oncurve_goal(h, s, sem, ms, outs):
    r = h.ring; o = outs[0]; p = ms[0]; C = Cases(h)
    if p[2]: C.case('infinity', True, [('true', o)]); return C.out
    b = r.c(4) if 'G1' in s.fn else (4 * (1 + r.sym('U')))
    e = r.eq(p[1] ** 2, p[0] ** 3 + b)
    C.case('on the curve', e, [('true', o)]); C.case('off the curve', r.bnot(e), [('false', r.bnot(o))]); return C.out
def aeq_goal(h, s, sem, ms, outs):
    r = h.ring; o = outs[0]; a, b = ms; C = Cases(h)
    if a[2] and b[2]: C.case('both infinity', True, [('equal', o)]); return C.out
    if a[2] != b[2]: return C.out
    e = conj(r, r.eq(a[0], b[0]), r.eq(a[1], b[1]))
    C.case('same', e, [('equal', o)]); C.case('other', r.bnot(e), [('different', r.bnot(o))]); return C.out
GOALS = {'Add': add_goal, 'AddAffine': add_goal, 'Double': dbl_goal, 'NegAssign': neg_goal, 'Equal': eq_goal, 'Equals': eq_goal, 'ToAffine': conv_goal, 'ToProjective': conv_goal,
         'IsZero': isz_goal, 'Copy': conv_goal, 'IsOnCurve': oncurve_goal}
def point_op(fn, arch, flags, alias=()):
    "flags: position -> infinity flag of affine arguments"
    def go(ctx):
        s = SPECS[fn]; nm = fn.split('.')[-1]; lv = 'fq' if 'G1' in fn else 'fq2'
        tag = '%s [%s]%s%s' % (shortname(fn), arch, ' same object' if alias else '', ' infinity flags %s' % flags if flags else '')
        h = RH(ctx, arch, lv, 20); r = h.ring; G = GOALS[nm]
        if nm == 'Equals' and 'Affine' in fn: G = aeq_goal
        cache = {}
        def body(ex):
            r.invs = []; vals, ms = [], []
            for i, so in enumerate(s.args):
                hit = [x for x, y in alias if y == i]
                if hit: vals.append(vals[hit[0]]); ms.append(ms[hit[0]]); continue
                if i not in cache: cache[i] = h.build(so, 'p%d' % i, flags.get(i))[1]
                vals.append(rebuild(h, so, cache[i])[0]); ms.append(cache[i])
            res = ex.call(fn, tuple(vals))
            rs = res if len(ctx.w[arch].p.raw[fn]['results']) != 1 else (res,)
            outs = [h.read(so, (vals if wh == 'post' else rs)[k]) for (wh, k), so in s.outs]
            mod = [k for (wh, k), so in s.outs if wh == 'post']
            keep = [(i, h.read(so, vals[i]), ms[i]) for i, so in enumerate(s.args) if i not in mod and isinstance(so, SPtr)]
            return ms, outs, keep, list(r.invs)
        n = 0; ng = 0; bad = None
        for pr in h.ex.explore(body, 64):
            n += 1
            if pr.panic: bad = ('panic: ' + pr.panic.msg, ('sat', {}), None); break
            ms, outs, keep, r.invs = pr.val
            for lab, hyp, g in G(h, s, s.sem, ms, outs):
                if hyp is False: continue
                pc = pr.pc + ([(hyp, True)] if hyp is not True else [])
                ng += 1
                v = None
                if g and isinstance(g[0], list):
                    for x, y in g[0]:
                        v = prove_same(h, [], x, y)
                        if v[0] == 'unsat': break
                    if v[0] != 'unsat':
                        f = False
                        for x, y in g[0]:
                            v = r.prove(pc, r.eq(x, y))
                            if v[0] == 'unsat': break
                else:
                    if not isinstance(g[0], (bool, RBool)): v = ('unknown', None)
                    else: v = r.prove(pc, g[0]) if g[0] is not True else ('unsat', None)
                if v[0] != 'unsat': bad = (lab, v, ms); break
            for i, x, y in keep:
                if bad: break
                ng += 1
                if prove_same(h, pr.pc, x, y)[0] != 'unsat': bad = ('operand %d unchanged' % i, ('sat', {}), ms)
            if bad: break
        models = []
        if bad and bad[2] and bad[1][1] and lv == 'fq': pass
        return Rec(tag, 'proved' if not bad and n else 'refuted' if bad and bad[1][0] == 'sat' else 'open', '%d paths, %d goals' % (n, ng) if not bad else '%s: %s' % (bad[0], bad[1][0]), models=models)
    return go
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        for fn, s in SPECS.items():
            if s.prop != 'C07' or not ctx.w[arch].p.exists(fn): continue
            affs = [i for i, so in enumerate(s.args) if (so.s if isinstance(so, SPtr) else so).name in ('g1a', 'g2a')]
            for fl in itertools.product((False, True), repeat=len(affs)):
                flags = dict(zip(affs, fl))
                obs.append(Ob('%s %s [%s]' % (shortname(fn), flags or '', arch), point_op(fn, arch, flags), [fn], 'all coordinates (formal elements)', weight=3))
    return obs
