"""C03: the scalar field."""
from fieldops import *
from inv import inverse
from groupops import power_obs, fermat
LEVEL = 'proof'
def obligations(ctx):
    obs = field_obs(ctx, 'C03', 4)
    fn = '(' + P + 'FR).Inverse'
    for arch in ctx.w:
        if ctx.w[arch].p.exists(fn): obs.append(Ob('(FR).Inverse [%s]' % arch, fermat(fn, arch, 'FR', R, inverse(fn, arch, 4)), [fn], 'inversion: all canonical operands, unbounded iterations (inductive invariants)', weight=50))
    obs += power_obs(ctx, '(*' + P + 'FR).Exp', 'mul', ['FR'], 256, 64, full=True) + power_obs(ctx, '(' + P + 'FR).MulBits', 'add', ['FR'], 256, 96, full=True)
    return obs
