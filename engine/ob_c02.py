"""C02: the base field."""
from fieldops import *
from inv import inverse
from groupops import power_obs, fermat
LEVEL = 'proof'
def obligations(ctx):
    obs = field_obs(ctx, 'C02', 6)
    fn = '(' + P + 'FQ).Inverse'
    for arch in ctx.w:
        if ctx.w[arch].p.exists(fn): obs.append(Ob('(FQ).Inverse [%s]' % arch, fermat(fn, arch, 'FQ', Q, inverse(fn, arch, 6)), [fn], 'inversion: all canonical operands, unbounded iterations (inductive invariants)', weight=50))
    obs += power_obs(ctx, '(' + P + 'FQ).Exp', 'mul', ['FQ'], 384, 64, full=True) + power_obs(ctx, '(' + P + 'FQ).MulBits', 'add', ['FQ'], 384, 96, full=True)
    return obs
