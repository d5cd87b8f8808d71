"""C08: scalar multiplication."""
from groupops import *
LEVEL = 'model_checking'
OUTSIDE = ['quick: leading bit of the scalar at the listed positions, thorough: every position; amd64 build only for the multiplications (the same Go source serves both)']
def obligations(ctx):
    obs = []
    for nm in ('G1', 'G2'):
        ty = [nm + 'Affine', nm + 'Projective']
        for fn, s in SPECS.items():
            if s.prop != 'C08' or nm not in fn: continue
            m = fn.split('.')[-1]
            if m in ('Mul', 'MulFR', 'MulBig'):
                bits = {'Mul': 384, 'MulFR': 256, 'MulBig': 1024}[m]
                obs += power_obs(ctx, fn, 'add', ty, bits, 6, archs=['amd64'])
            else:
                for arch in ctx.w:
                    if not ctx.w[arch].p.exists(fn): continue
                    if m == 'ScaleByCofactor': obs.append(Ob(shortname_(fn) + arch, fixed(fn, arch, ty, ref.H1 if nm == 'G1' else ref.H2), [fn], 'every point'))
                    else: obs.append(Ob(shortname_(fn) + arch, fixed(fn, arch, ty, R, True), [fn], 'every point'))
    return obs
def shortname_(fn): return fn.replace(P, '')
