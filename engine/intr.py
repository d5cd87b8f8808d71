"""Models of the library functions the code uses (part of the trusted base).

math/big values: the object holds a Python int (or a symbolic integer offered by the theory in use).
"""
import hashlib
from core import *

def bigv(ex, p):
    if p is None: raise GoPanic('nil dereference', ex.where())
    v = ex.load(p)
    if type(v) is tuple: return 0          # zero value of the struct
    return v
def bigset(ex, z, v):
    if z is None: raise GoPanic('nil dereference', ex.where())
    ex.store(z, v, 'math/big')
    return z
def cint(x, what):
    if type(x) is not int: raise Unsupported('symbolic ' + what)
    return x

def bitlen(ex, v):
    if type(v) is int: return abs(v).bit_length()
    return v.th.big(ex, 'bitlen', (v,))
def big2(op):
    def f(ex, a):
        x = bigv(ex, a[1]); y = bigv(ex, a[2])
        if type(x) is int and type(y) is int:
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op in ('mod', 'div'):
                if y == 0: raise GoPanic('division by zero', 'math/big')
                r = x % abs(y) if op == 'mod' else (x - x % abs(y)) // y
            elif op in ('rem', 'quo'):
                if y == 0: raise GoPanic('division by zero', 'math/big')
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                r = q if op == 'quo' else x - q * y
        else:
            r = (x if isinstance(x, Sym) else y).th.big(ex, op, (x, y))
        return bigset(ex, a[0], r)
    return f
def big_shift(op):
    def f(ex, a):
        x = bigv(ex, a[1]); n = a[2]
        if type(x) is int and type(n) is int: r = x << n if op == 'lsh' else x >> n
        else: r = (x if isinstance(x, Sym) else n).th.big(ex, op, (x, n))
        return bigset(ex, a[0], r)
    return f
def big_cmp(ex, a):
    x = bigv(ex, a[0]); y = bigv(ex, a[1])
    if type(x) is int and type(y) is int: return (x > y) - (x < y)
    return (x if isinstance(x, Sym) else y).th.big(ex, 'cmp', (x, y))
def big_sign(ex, a):
    x = bigv(ex, a[0])
    if type(x) is int: return (x > 0) - (x < 0)
    return x.th.big(ex, 'sign', (x,))
def big_bit(ex, a):
    x = bigv(ex, a[0]); n = a[1]
    if type(x) is int and type(n) is int:
        if n < 0: raise GoPanic('negative bit index', 'math/big')
        return (x >> n) & 1
    return (x if isinstance(x, Sym) else n).th.big(ex, 'bit', (x, n))
def big_u64(ex, a):
    x = bigv(ex, a[0])
    if type(x) is int: return abs(x) & ((1 << 64) - 1)
    return x.th.big(ex, 'uint64', (x,))
def big_setstring(ex, a):
    s, base = a[1], cint(a[2], 'base')
    try:
        t = s.decode()
        if base == 16 and t.lower().lstrip('+-').startswith('0x'): raise ValueError
        if '_' in t or t.strip() != t: raise ValueError
        v = int(t, base)
    except Exception:
        return (None, False)
    return (bigset(ex, a[0], v), True)
def big_setbytes(ex, a):
    vals = ex.slice_vals(a[1])
    if all(type(v) is int for v in vals): r = int.from_bytes(bytes(vals), 'big')
    else: r = [v for v in vals if isinstance(v, Sym)][0].th.big(ex, 'setbytes', tuple(vals))
    return bigset(ex, a[0], r)
def big_bytes(ex, a):
    v = bigv(ex, a[0])
    if type(v) is not int: return v.th.big(ex, 'bytes', (v,))
    v = abs(v)
    return ex.mkslice_of(tuple(v.to_bytes((v.bit_length() + 7) // 8, 'big')))
def big_fillbytes(ex, a):
    v = abs(cint(bigv(ex, a[0]), 'big.Int')); n = ex.ulen(a[1])
    if v.bit_length() > 8 * n: raise GoPanic('math/big: buffer too small', 'math/big')
    for k, b in enumerate(v.to_bytes(n, 'big')):
        ex.store(Ptr(a[1].obj, a[1].path + (a[1].off + k,)), b, 'math/big')
    return a[1]
def big_set(ex, a):
    return bigset(ex, a[0], bigv(ex, a[1]))
def w2b(x, signed):
    f = getattr(x.th, 'tobigint', None) if isinstance(x, Sym) else None
    return f(x, signed) if f else x
def big_newint(ex, a):
    return ex.new(w2b(a[0], True), 'big')
def big_text(ex, a):
    v = bigv(ex, a[0])
    return (b'%d' % v) if type(v) is int else b'?'

def errnew(ex, a):
    return Iface('error', ex.new(a[0], 'error'))

class HashEnv:
    "hash.Hash of SHA-256"
    def __call__(self, ex, v, meth, args):
        if meth == 'Write':
            vals = ex.slice_vals(args[0])
            ex.setobj(v, v.v + tuple(vals)); return (len(vals), None)
        if meth == 'Reset': ex.setobj(v, ()); return None
        if meth == 'Size': return 32
        if meth == 'BlockSize': return 64
        if meth == 'Sum':
            d = digest(ex, v.v)
            return ex.builtin('append', (args[0], ex.mkslice_of(d)), ex.p.ptypes['[]byte'], 'sha256.Sum')
        raise Unsupported('hash method ' + meth)
HASH = HashEnv()
def digest(ex, vals):
    if all(type(x) is int for x in vals): return tuple(hashlib.sha256(bytes(vals)).digest())
    hook = getattr(ex, 'sha', None)
    if hook is None: raise Unsupported('SHA-256 of symbolic bytes')
    return hook(ex, tuple(vals))
def sha_new(ex, a): return Iface(HASH, ex.new((), 'sha256').obj)
def sha_sum(ex, a): return digest(ex, ex.slice_vals(a[0]))

def bytes_equal(ex, a):
    x = ex.slice_vals(a[0]); y = ex.slice_vals(a[1])
    if len(x) != len(y): return False
    return ex.valeq(tuple(x), tuple(y))
def bytes_compare(ex, a):
    x = ex.slice_vals(a[0]); y = ex.slice_vals(a[1])
    for u, v in zip(x, y):
        if type(u) is int and type(v) is int:
            if u != v: return -1 if u < v else 1
        else:
            if not ex.decide(ex.bin('==', u, v, 8, True, 8, True)):
                return -1 if ex.decide(ex.bin('<', u, v, 8, True, 8, True)) else 1
    return (len(x) > len(y)) - (len(x) < len(y))

M64 = (1 << 64) - 1
def add64(w):
    m = (1 << w) - 1
    def f(ex, a):
        x, y, c = a
        if all(type(v) is int for v in a):
            s = x + y + c; return (s & m, s >> w)
        return [v for v in a if isinstance(v, Sym)][0].th.add64(ex, x, y, c, w)
    return f
def sub64(w):
    m = (1 << w) - 1
    def f(ex, a):
        x, y, c = a
        if all(type(v) is int for v in a):
            s = x - y - c; return (s & m, 1 if s < 0 else 0)
        return [v for v in a if isinstance(v, Sym)][0].th.sub64(ex, x, y, c, w)
    return f
def mul64(w):
    m = (1 << w) - 1
    def f(ex, a):
        x, y = a
        if type(x) is int and type(y) is int:
            p = x * y; return (p >> w, p & m)
        return (x if isinstance(x, Sym) else y).th.mul64(ex, x, y, w)
    return f
def lz(w):
    def f(ex, a):
        x = a[0]
        if type(x) is int: return w - x.bit_length()
        return x.th.lz(ex, x, w)
    return f
def blen(w):
    def f(ex, a):
        x = a[0]
        if type(x) is int: return x.bit_length()
        return ex.bin('-', w, x.th.lz(ex, x, w), 64 if ex.p.arch == 'amd64' else 32, False, None, None)
    return f
def tz(w):
    def f(ex, a):
        x = cint(a[0], 'TrailingZeros')
        return w if x == 0 else (x & -x).bit_length() - 1
    return f
def logpanic(ex, a): raise GoPanic('log.Panic', 'log')
def nilres(ex, a): return None
def sprintf(ex, a): return b'?'

B = '(*math/big.Int).'
INTR = {
 'math/big.NewInt': big_newint,
 B+'Set': big_set, B+'SetInt64': lambda ex, a: bigset(ex, a[0], w2b(a[1], True)), B+'SetUint64': lambda ex, a: bigset(ex, a[0], w2b(a[1], False)),
 B+'SetString': big_setstring, B+'SetBytes': big_setbytes, B+'Bytes': big_bytes, B+'FillBytes': big_fillbytes,
 B+'Add': big2('add'), B+'Sub': big2('sub'), B+'Mul': big2('mul'), B+'And': big2('and'), B+'Or': big2('or'), B+'Xor': big2('xor'),
 B+'Mod': big2('mod'), B+'Rem': big2('rem'), B+'Quo': big2('quo'), B+'Div': big2('div'),
 B+'Lsh': big_shift('lsh'), B+'Rsh': big_shift('rsh'), B+'Cmp': big_cmp, B+'Sign': big_sign, B+'BitLen': lambda ex, a: bitlen(ex, bigv(ex, a[0])),
 B+'Bit': big_bit, B+'Uint64': big_u64, B+'String': big_text, B+'Text': big_text,
 B+'Neg': lambda ex, a: bigset(ex, a[0], -cint(bigv(ex, a[1]), 'neg')),
 'errors.New': errnew, 'fmt.Errorf': lambda ex, a: Iface('error', ex.new(a[0], 'error')), 'fmt.Sprintf': sprintf, 'fmt.Sprint': sprintf,
 'crypto/sha256.New': sha_new, 'crypto/sha256.Sum256': sha_sum,
 'bytes.Equal': bytes_equal, 'bytes.Compare': bytes_compare,
 'math/bits.Add64': add64(64), 'math/bits.Sub64': sub64(64), 'math/bits.Mul64': mul64(64), 'math/bits.Add': add64(64), 'math/bits.Sub': sub64(64),
 'math/bits.Add32': add64(32), 'math/bits.Sub32': sub64(32), 'math/bits.Mul32': mul64(32),
 'math/bits.LeadingZeros64': lz(64), 'math/bits.LeadingZeros32': lz(32), 'math/bits.Len64': blen(64), 'math/bits.Len32': blen(32),
 'math/bits.TrailingZeros64': tz(64),
 'log.Panic': logpanic, 'log.Panicf': logpanic, 'log.Fatal': logpanic,
 'fmt.Println': nilres, 'fmt.Printf': nilres,
 '(*sync.Mutex).Lock': nilres, '(*sync.Mutex).Unlock': nilres, '(*sync.RWMutex).RLock': nilres, '(*sync.RWMutex).RUnlock': nilres,
 '(*sync.RWMutex).Lock': nilres, '(*sync.RWMutex).Unlock': nilres,
}
# concrete semantics of the primitives (used where they have no Go body; C01 decides that the assembly computes this)
Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787
R = 52435875175126190479447740508185965837690552500527637822603658699938581184513
QINV = pow(-Q, -1, 1 << 384)
def words(v, n): return tuple((v >> (64 * i)) & M64 for i in range(n))
def val(ws): return sum(w << (64 * i) for i, w in enumerate(ws))
P = 'github.com/phoreproject/bls.'
def c_conc(f, n):
    def g(ex, a):
        flat = [w for x in a for w in (x if type(x) is tuple else (x,))]
        if not all(type(w) is int for w in flat): raise Unsupported('primitive on symbolic words')
        return f(*a)
    return g
def p_mul(a, b):
    v = val(a) * val(b); return (words(v >> 384, 6), words(v, 6))
def p_redc(hi, lo):
    T = val(hi) * (1 << 384) + val(lo)
    k = (val(lo) * QINV) % (1 << 384)
    return words(((T + k * Q) >> 384) % (1 << 384), 6)
def p_mac(a, b, c, d):
    v = a + b * c + d; return (v & M64, (v >> 64) & M64)
def p_adc(a, b, c):
    v = a + b + c; return (v & M64, v >> 64)
def p_sbb(a, b, c):
    v = a - b - c; return (v & M64, 1 if v < 0 else 0)
PRIM = {
 P+'MultiplyFQRepr': c_conc(p_mul, 2), P+'MontReduce': c_conc(p_redc, 2),
 P+'AddNoCarry': c_conc(lambda a, b: words(val(a) + val(b), 6), 2), P+'SubNoBorrow': c_conc(lambda a, b: words(val(a) - val(b), 6), 2),
 P+'AddWithCarry': c_conc(p_adc, 3), P+'SubWithBorrow': c_conc(p_sbb, 3), P+'MACWithCarry': c_conc(p_mac, 4),
}
