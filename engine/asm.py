"""Executor for the amd64 assembly in /repo (Plan 9 syntax), on the same symbolic words as the SSA executor."""
import re, os
from core import *
from prog import REPO
REGS = 'AX BX CX DX SI DI BP R8 R9 R10 R11 R12 R13 R14 R15 SP'.split()

def parse(path):
    fns = {}; cur = None
    for raw in open(path):
        line = raw.split('//')[0].strip()
        if not line or line.startswith('#'): continue
        m = re.match(r'TEXT\s+([^(]+)\(SB\),\s*(.*)$', line)
        if m:
            name = m.group(1).strip().replace('·', '')
            fr = m.group(2).split(',')[-1].strip()
            cur = fns[name] = {'ins': [], 'labels': {}, 'frame': fr}
            continue
        if cur is None: continue
        for part in line.split(';'):
            part = part.strip()
            if not part: continue
            m = re.match(r'^([A-Za-z_]\w*):$', part)
            if m: cur['labels'][m.group(1)] = len(cur['ins']); continue
            m = re.match(r'^(\S+)(?:\s+(.*))?$', part)
            ops = []
            if m.group(2):
                ops = [x.strip() for x in re.split(r',(?![^(]*\))', m.group(2))]
            cur['ins'].append((m.group(1).upper(), ops))
    return fns
def find():
    d = {}
    for f in sorted(os.listdir(REPO)):
        if f.endswith('_amd64.s') or (f.endswith('.s') and not re.search(r'_(386|arm|arm64|ppc64|s390x|mips\w*|riscv64|wasm)\.s$', f)):
            d.update(parse(os.path.join(REPO, f)))
    return d
class Asm:
    def __init__(self, fns): self.fns = fns
    def call(self, ex, th, name, args, nres_words):
        """args: flat list of words laid out from 0(FP); results follow. th supplies add64/sub64/mul64/bin. Returns the result words."""
        f = self.fns.get(name)
        if f is None: raise Unsupported('assembly function ' + name)
        mem = {}
        for i, a in enumerate(args): mem[('FP', 8 * i)] = a
        regs = {}; self.cf = None
        na = 8 * len(args)
        def addr(o):
            m = re.match(r'^(?:([A-Za-z_]\w*))?([+-]\d+)?\((FP|SP|[A-Z0-9]+)\)$', o) or re.match(r'^()(\d+)?\((FP|SP|[A-Z0-9]+)\)$', o)
            if not m: raise Unsupported('asm operand ' + o)
            off = int(m.group(2) or 0); base = m.group(3)
            if base == 'FP': return ('FP', off)
            if base == 'SP': return ('SPn' if m.group(1) else 'SP', off)
            raise Unsupported('asm operand ' + o)
        BYTE = {'AL': 'AX', 'BL': 'BX', 'CL': 'CX', 'DL': 'DX', 'SIB': 'SI', 'DIB': 'DI', 'BPB': 'BP'}
        def rd(o):
            o = BYTE.get(o, o)
            if o.startswith('$'):
                s = o[1:].strip('()')
                v = int(s, 0); return v & ((1 << 64) - 1)
            if o in REGS:
                if o not in regs: raise Unsupported('asm: read of undefined register ' + o)
                return regs[o]
            k = addr(o)
            if k not in mem: raise Unsupported('asm: read of undefined memory ' + o)
            return mem[k]
        def wr(o, v):
            o = BYTE.get(o, o)
            if o in REGS: regs[o] = v; return
            mem[addr(o)] = v
        def carry():
            if self.cf is None: raise Unsupported('asm: carry flag undefined')
            return self.cf
        A = lambda x, y, c: intr_add(ex, (x, y, c)); S = lambda x, y, c: intr_sub(ex, (x, y, c)); MU = lambda x, y: intr_mul(ex, (x, y))
        from intr import add64, sub64, mul64
        intr_add, intr_sub, intr_mul = add64(64), sub64(64), mul64(64)
        pc = 0; steps = 0
        while True:
            steps += 1
            if steps > 200000: raise Bound('asm steps')
            if pc >= len(f['ins']): raise Unsupported('asm: fell off the end')
            op, o = f['ins'][pc]; pc += 1
            if op in ('MOVQ', 'MOVL') and op == 'MOVQ': wr(o[1], rd(o[0]))
            elif op == 'ADDQ':
                r, c = A(rd(o[1]), rd(o[0]), 0); wr(o[1], r); self.cf = c
            elif op == 'ADCQ':
                r, c = A(rd(o[1]), rd(o[0]), carry()); wr(o[1], r); self.cf = c
            elif op == 'SUBQ':
                r, c = S(rd(o[1]), rd(o[0]), 0); wr(o[1], r); self.cf = c
            elif op == 'SBBQ':
                r, c = S(rd(o[1]), rd(o[0]), carry()); wr(o[1], r); self.cf = c
            elif op == 'MULQ':
                hi, lo = MU(rd('AX'), rd(o[0])); regs['DX'] = hi; regs['AX'] = lo; self.cf = None
            elif op == 'MULXQ':
                hi, lo = MU(rd('DX'), rd(o[0])); regs[o[1]] = lo; regs[o[2]] = hi
            elif op == 'IMULQ' and len(o) == 2:
                hi, lo = MU(rd(o[1]), rd(o[0])); wr(o[1], lo); self.cf = None
            elif op == 'XORQ' and o[0] == o[1]: wr(o[1], 0); self.cf = 0
            elif op in ('XORQ', 'ORQ', 'ANDQ'):
                wr(o[1], ex.bin({'X': '^', 'O': '|', 'A': '&'}[op[0]], rd(o[1]), rd(o[0]), 64, True, 64, True)); self.cf = 0
            elif op == 'NOTQ': wr(o[0], ex.unop('^', rd(o[0]), 64, True))
            elif op == 'NEGQ':
                r, c = S(0, rd(o[0]), 0); wr(o[0], r); self.cf = c
            elif op in ('SHLQ', 'SHRQ') and len(o) == 2 and o[0].startswith('$'):
                wr(o[1], ex.bin('<<' if op == 'SHLQ' else '>>', rd(o[1]), rd(o[0]), 64, True, 64, True)); self.cf = None
            elif op in ('INCQ', 'DECQ'):
                # the carry flag is kept
                wr(o[0], A(rd(o[0]), 1, 0)[0] if op == 'INCQ' else S(rd(o[0]), 1, 0)[0])
            elif op in ('SETCS', 'SETCC'):
                # writes the low byte only
                r = rd(o[0])
                hi = r if type(r) is int and r == 0 else None
                if hi is None: 
                    hi = ex.bin('-', r, ex.bin('&', r, 255, 64, True, 64, True), 64, True, 64, True)
                c = carry()
                if op == 'SETCC': c = ex.bin('-', 1, c, 64, True, 64, True)
                wr(o[0], ex.bin('+', hi, c, 64, True, 64, True))
            elif op in ('CLC', 'STC'): self.cf = int(op == 'STC')
            elif op in ('NOP', 'PCALIGN', 'NO_LOCAL_POINTERS'): pass
            elif op == 'RET': break
            elif op == 'JMP' and o[0] in f['labels']: pc = f['labels'][o[0]]
            else: raise Unsupported('asm instruction ' + op)
        res = []
        for i in range(nres_words):
            k = ('FP', na + 8 * i)
            if k not in mem: raise Unsupported('asm: result word %d not written' % i)
            res.append(mem[k])
        return res
