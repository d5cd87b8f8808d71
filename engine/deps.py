"""Obligations of lower layers that a check relies on and re-runs: when one is not discharged, the directed candidates
of the property's own specifications are run in full."""
from frame import *
def obs(ctx, *names):
    out = []
    def add(mod, pat):
        import importlib
        m = importlib.import_module(mod)
        for o in m.obligations(ctx):
            if any(p in o.name for p in pat): o.weight = 1; out.append(o)
    for n in names:
        if n == 'sqrt': add('ob_c06', ['FQ).Sqrt', 'FQ2).Sqrt', 'FQ2).Cmp', 'FQ).Parity', 'FQ2).Parity', 'Legendre'])
        if n == 'sub': add('ob_c08', ['IsInCorrectSubgroup'])
        if n == 'maps': add('ob_c12', [''])
        if n == 'group': add('ob_c07', ['']); add('ob_c08', ['Mul'])
        if n == 'cof': add('ob_c08', ['ScaleByCofactor'])
    return out
