"""C05: the extension tower."""
from ringops import *
from groupops import power_obs
LEVEL = 'proof'
SKIP = ('Exp', 'MulBits', 'FrobeniusMapAssign', 'InverseAssign', 'MulBytes')
def obligations(ctx):
    obs = []
    for arch in ctx.w:
        for fn, s in SPECS.items():
            if s.prop != 'C05' or not ctx.w[arch].p.exists(fn): continue
            nm = fn.split('.')[-1]; ty = fn.split(').')[0].split('.')[-1]; b = 'all operands (formal elements)'
            if nm == 'FrobeniusMapAssign':
                for k0 in range(0, 256, 32):
                    def go(ctx, fn=fn, arch=arch, k0=k0):
                        rs = []
                        for k in range(k0, k0 + 32): rs.append(ring_op(fn, arch, 'fq', (), {1: k})(ctx))
                        bad = [r for r in rs if r.status != 'proved']
                        return bad or Rec('%s [%s] powers %d..%d' % (fn.replace(P, ''), arch, k0, k0 + 31), 'proved', '32 powers')
                    obs.append(Ob('%s %d [%s]' % (shortname(fn), k0, arch), go, [fn], 'all operands, every power 0..255', weight=4))
                continue
            if nm == 'InverseAssign':
                lv = {'FQ2': 'fq', 'FQ6': 'fq2', 'FQ12': 'fq6'}[ty]
                obs.append(Ob('%s [%s]' % (shortname(fn), arch), ring_op(fn, arch, lv), [fn], b)); continue
            if nm in SKIP: continue
            obs.append(Ob('%s [%s]' % (shortname(fn), arch), ring_op(fn, arch, 'fq'), [fn], b, weight=5 if ty == 'FQ12' else 1))
            if len(s.args) == 2 and isinstance(s.args[0], SPtr) and isinstance(s.args[1], SPtr) and s.args[0].name == s.args[1].name:
                obs.append(Ob('%s same [%s]' % (shortname(fn), arch), ring_op(fn, arch, 'fq', ((0, 1),)), [fn], b))
    for fn, kind, ty, n in (('(FQ2).Exp', 'mul', 'FQ2', 384), ('(FQ2).MulBits', 'add', 'FQ2', 1024 if ctx.tier == 'thorough' else 400), ('(FQ6).Exp', 'mul', 'FQ6', 384), ('(FQ12).Exp', 'mul', 'FQ12', 384)):
        obs += power_obs(ctx, fullname(fn), kind, [ty], n, 64, archs=['amd64'], full=True)
    return obs
