"""Independent reference: BLS12-381 on Python integers. Field elements: int, (c0,c1), 3-tuples of FQ2, pairs of FQ6. Affine points: None or (x,y)."""
import hashlib
from intr import Q, R
XPARAM = 0xd201000000010000        # |x|; x is negative
def inv(a, m=Q): return pow(a, -1, m)
# ---------------------------------------------------------------- F_q, F_q2, F_q6, F_q12 (tower)
def sqrt_q(a):
    s = pow(a, (Q + 1) // 4, Q)
    return s if s * s % Q == a % Q else None
def leg(a, m=Q):
    l = pow(a, (m - 1) // 2, m); return -1 if l == m - 1 else l
def a2(a, b): return ((a[0] + b[0]) % Q, (a[1] + b[1]) % Q)
def s2(a, b): return ((a[0] - b[0]) % Q, (a[1] - b[1]) % Q)
def n2(a): return (-a[0] % Q, -a[1] % Q)
def m2(a, b): return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)
def k2(a, k): return (a[0] * k % Q, a[1] * k % Q)
def i2(a):
    t = inv((a[0] * a[0] + a[1] * a[1]) % Q); return (a[0] * t % Q, -a[1] * t % Q)
def e2(a, n):
    r = (1, 0)
    for b in bin(n)[2:]:
        r = m2(r, r)
        if b == '1': r = m2(r, a)
    return r
XI = (1, 1)
O2 = (0, 0); I2 = (1, 0)
def norm2(a): return (a[0] * a[0] + a[1] * a[1]) % Q
def leg2(a): return leg(norm2(a))
def sqrt2(a):
    if a == O2: return a
    n = sqrt_q(norm2(a))
    if n is None: return None
    h = inv(2)
    for s in (n, -n):
        t = sqrt_q((a[0] + s) * h % Q)
        if t is not None:
            if t == 0:
                u = sqrt_q(-a[0] % Q)
                if u is not None and m2((0, u), (0, u)) == a: return (0, u)
                continue
            r = (t, a[1] * inv(2 * t % Q) % Q)
            if m2(r, r) == a: return r
    return None
def add6(a, b): return tuple(a2(x, y) for x, y in zip(a, b))
def sub6(a, b): return tuple(s2(x, y) for x, y in zip(a, b))
def neg6(a): return tuple(n2(x) for x in a)
def mul6(a, b):
    r = [O2] * 5
    for i in range(3):
        for j in range(3): r[i + j] = a2(r[i + j], m2(a[i], b[j]))
    return (a2(r[0], m2(r[3], XI)), a2(r[1], m2(r[4], XI)), r[2])
def mulv6(a): return (m2(a[2], XI), a[0], a[1])
O6 = (O2,) * 3; I6 = (I2, O2, O2)
def inv6(a):
    c0 = s2(m2(a[0], a[0]), m2(XI, m2(a[1], a[2])))
    c1 = s2(m2(XI, m2(a[2], a[2])), m2(a[0], a[1]))
    c2 = s2(m2(a[1], a[1]), m2(a[0], a[2]))
    t = i2(a2(m2(a[0], c0), m2(XI, a2(m2(a[2], c1), m2(a[1], c2)))))
    return (m2(c0, t), m2(c1, t), m2(c2, t))
def add12(a, b): return (add6(a[0], b[0]), add6(a[1], b[1]))
def sub12(a, b): return (sub6(a[0], b[0]), sub6(a[1], b[1]))
def mul12(a, b): return (add6(mul6(a[0], b[0]), mulv6(mul6(a[1], b[1]))), add6(mul6(a[0], b[1]), mul6(a[1], b[0])))
def conj12(a): return (a[0], neg6(a[1]))
def inv12(a):
    t = inv6(sub6(mul6(a[0], a[0]), mulv6(mul6(a[1], a[1]))))
    return (mul6(a[0], t), neg6(mul6(a[1], t)))
I12 = (I6, O6); O12 = (O6, O6)
def powg(a, n, mul, one):
    r = one
    for b in bin(n)[2:]:
        r = mul(r, r)
        if b == '1': r = mul(r, a)
    return r
def exp12(a, n): return powg(a, n, mul12, I12)
def exp6(a, n): return powg(a, n, mul6, I6)
def frob2(a, k): return a if k % 2 == 0 else (a[0], -a[1] % Q)
def frob6(a, k):
    k %= 6; g = e2(XI, (Q ** k - 1) // 3)
    return (frob2(a[0], k), m2(frob2(a[1], k), g), m2(frob2(a[2], k), m2(g, g)))
def frob12(a, k):
    k %= 12; g = e2(XI, (Q ** k - 1) // 6)
    return (frob6(a[0], k), tuple(m2(x, g) for x in frob6(a[1], k)))
# ---------------------------------------------------------------- curves
class Curve:
    def __init__(self, a, b, add, sub, mul, inv_, neg, zero, one, sqrt):
        self.a = a; self.b = b; self.fadd = add; self.fsub = sub; self.fmul = mul; self.finv = inv_; self.fneg = neg; self.zero = zero; self.one = one; self.fsqrt = sqrt
    def rhs(self, x): return self.fadd(self.fadd(self.fmul(self.fmul(x, x), x), self.fmul(self.a, x)), self.b)
    def on(self, p): return p is None or self.fmul(p[1], p[1]) == self.rhs(p[0])
    def neg(self, p): return None if p is None else (p[0], self.fneg(p[1]))
    def add(self, p, q):
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if p[1] != q[1] or p[1] == self.zero: return None
            xx = self.fmul(p[0], p[0])
            l = self.fmul(self.fadd(self.fadd(self.fadd(xx, xx), xx), self.a), self.finv(self.fadd(p[1], p[1])))
        else: l = self.fmul(self.fsub(q[1], p[1]), self.finv(self.fsub(q[0], p[0])))
        x = self.fsub(self.fsub(self.fmul(l, l), p[0]), q[0])
        return (x, self.fsub(self.fmul(l, self.fsub(p[0], x)), p[1]))
    def mul(self, p, n):
        if n < 0: return self.mul(self.neg(p), -n)
        # Jacobian-free double and add is slow but simple; use projective for speed
        r = None
        for b in bin(n)[2:]:
            r = self.add(r, r)
            if b == '1': r = self.add(r, p)
        return r
E1 = Curve(0, 4, lambda a, b: (a + b) % Q, lambda a, b: (a - b) % Q, lambda a, b: a * b % Q, inv, lambda a: -a % Q, 0, 1, sqrt_q)
E2 = Curve(O2, (4, 4), a2, s2, m2, i2, n2, O2, I2, sqrt2)
G1 = (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb, 0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1)
G2 = ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8, 0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
      (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801, 0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be))
X = -XPARAM
H1 = (X - 1) ** 2 // 3
H2 = (X**8 - 4*X**7 + 5*X**6 - 4*X**4 + 6*X**3 - 4*X**2 - 4*X + 13) // 9
assert E1.on(G1) and E2.on(G2)
# ---------------------------------------------------------------- pairing: textbook ate Miller loop over E(F_q12)
def up2(a): return ((a, O2, O2), O6)
def up1(a): return up2((a, 0))
W2I = inv12(((O2, I2, O2), O6)); W3I = inv12((O6, (O2, I2, O2)))
def untwist(p): return (mul12(up2(p[0]), W2I), mul12(up2(p[1]), W3I))
E12 = Curve(O12, up1(4), add12, sub12, mul12, inv12, lambda a: sub12(O12, a), O12, I12, None)
def line(T, U, P):
    "line through T and U (E12 points) evaluated at P"
    if T[0] == U[0] and T[1] == U[1]:
        xx = mul12(T[0], T[0]); l = mul12(add12(add12(xx, xx), xx), inv12(add12(T[1], T[1])))
    else: l = mul12(sub12(U[1], T[1]), inv12(sub12(U[0], T[0])))
    return sub12(sub12(P[1], T[1]), mul12(l, sub12(P[0], T[0])))
def miller(P, Qp):
    "f_{|x|,Q}(P), inverted up to final exponentiation because x is negative"
    if P is None or Qp is None: return I12
    p = (up1(P[0]), up1(P[1])); T = q = Qp
    f = I12
    for b in bin(XPARAM)[3:]:
        f = mul12(mul12(f, f), line(untwist(T), untwist(T), p)); T = E2.add(T, T)
        if b == '1':
            f = mul12(f, line(untwist(T), untwist(q), p)); T = E2.add(T, q)
    return conj12(f)
FE = (Q**12 - 1) // R
def pairing(P, Qp): return exp12(miller(P, Qp), FE)
# ---------------------------------------------------------------- serialization
def fqb(a): return a.to_bytes(48, 'big')
def gt1(a): return a > Q - a if a else False
def gt2(a): return (a[1], a[0]) > (-a[1] % Q, -a[0] % Q)
def comp1(p):
    if p is None: return bytes([0xc0]) + bytes(47)
    b = bytearray(fqb(p[0])); b[0] |= 0x80 | (0x20 if gt1(p[1]) else 0); return bytes(b)
def comp2(p):
    if p is None: return bytes([0xc0]) + bytes(95)
    b = bytearray(fqb(p[0][1]) + fqb(p[0][0])); b[0] |= 0x80 | (0x20 if gt2(p[1]) else 0); return bytes(b)
def decomp(b, g):
    "(ok, point) without subgroup check"
    if not b[0] & 0x80: return (False, None)
    if b[0] & 0x40: return (b[0] == 0xc0 and not any(b[1:]), None)
    s = bool(b[0] & 0x20); c = bytes([b[0] & 0x1f]) + b[1:]
    if g == 1:
        x = int.from_bytes(c, 'big')
        if x >= Q: return (False, None)
        y = sqrt_q((x**3 + 4) % Q)
        if y is None: return (False, None)
        return (True, (x, y if gt1(y) == s else -y % Q))
    x1 = int.from_bytes(c[:48], 'big'); x0 = int.from_bytes(c[48:], 'big')
    if x0 >= Q or x1 >= Q: return (False, None)
    x = (x0, x1); y = sqrt2(E2.rhs(x))
    if y is None: return (False, None)
    return (True, (x, y if gt2(y) == s else n2(y)))
def insub(p, g): return (E1 if g == 1 else E2).mul(p, R) is None
def ser1(p): return fqb(p[0]) + fqb(p[1]) if p else fqb(0) + fqb(1)
def ser2(p): return fqb(p[0][0]) + fqb(p[0][1]) + fqb(p[1][0]) + fqb(p[1][1]) if p else fqb(0)*2 + fqb(1) + fqb(0)
def sha(b): return hashlib.sha256(b).digest()
# ---- hashing to the curves
import isodata
Q12 = (Q - 1) // 2
def sgn1(a): return -1 if a > Q12 else 1
def sgn2(a):
    for c in (a[1], a[0]):
        if c: return -1 if c > Q12 else 1
    return 1
SA1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
SB1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
SA2 = (0, 240); SB2 = (1012, 1012)
class F1:
    add = staticmethod(lambda a, b: (a + b) % Q); sub = staticmethod(lambda a, b: (a - b) % Q); mul = staticmethod(lambda a, b: a * b % Q); inv = staticmethod(inv); sqrt = staticmethod(sqrt_q)
    one = 1; zero = 0; sgn = staticmethod(sgn1); A = SA1; B = SB1; XI = Q - 1; neg = staticmethod(lambda a: -a % Q)
class F2:
    add = staticmethod(a2); sub = staticmethod(s2); mul = staticmethod(m2); inv = staticmethod(i2); sqrt = staticmethod(sqrt2)
    one = I2; zero = O2; sgn = staticmethod(sgn2); A = SA2; B = SB2; XI = (1, 1); neg = staticmethod(n2)
def swu(F, t):
    "simplified SWU map to y^2 = x^3 + A x + B"
    m, ad = F.mul, F.add
    t2 = m(t, t); u = ad(m(m(F.XI, F.XI), m(t2, t2)), m(F.XI, t2))
    if u == F.zero: x = m(F.B, F.inv(m(F.XI, F.A)))
    else: x = m(m(F.neg(F.B), ad(u, F.one)), F.inv(m(F.A, u)))
    g = lambda x: ad(ad(m(m(x, x), x), m(F.A, x)), F.B)
    y = F.sqrt(g(x))
    if y is None:
        x = m(m(F.XI, t2), x); y = F.sqrt(g(x))
    if F.sgn(y) != F.sgn(t): y = F.neg(y)
    return (x, y)
def ev(F, cs, x):
    r = F.zero
    for c in reversed(cs): r = F.add(F.mul(r, x), c)
    return r
def iso(F, p):
    if p is None: return None
    k = '11' if F is F1 else '3'
    T = [getattr(isodata, n + k) for n in ('XNUM', 'XDEN', 'YNUM', 'YDEN')]
    xn, xd, yn, yd = [ev(F, t, p[0]) for t in T]
    if xd == F.zero or yd == F.zero: return None
    return (F.mul(xn, F.inv(xd)), F.mul(F.mul(p[1], yn), F.inv(yd)))
PSX = i2(e2(XI, (Q - 1) // 3)); PSY = i2(e2(XI, (Q - 1) // 2))
def psi(p):
    "untwist, Frobenius, twist"
    if p is None: return None
    c = lambda a: (a[0], -a[1] % Q)
    return (m2(c(p[0]), PSX), m2(c(p[1]), PSY))
def clear1(p): return E1.mul(p, 1 + XPARAM)
def clear2(p):
    x = X
    return E2.add(E2.add(E2.mul(p, x * x - x - 1), E2.mul(psi(p), x - 1)), psi(psi(E2.add(p, p))))
def map1(t, u=None):
    p = iso(F1, swu(F1, t))
    return clear1(E1.add(p, iso(F1, swu(F1, u))) if u is not None else p)
def map2(t, u=None):
    p = iso(F2, swu(F2, t))
    return clear2(E2.add(p, iso(F2, swu(F2, u))) if u is not None else p)
def h2f(msg, ctr, i, mod):
    mp = sha(msg) + bytes([ctr])
    return int.from_bytes(sha(mp + bytes([i, 1])) + sha(mp + bytes([i, 2])), 'big') % mod
def hp(msg, ctr): return h2f(msg, ctr, 1, Q)
def hp2(msg, ctr): return (h2f(msg, ctr, 1, Q), h2f(msg, ctr, 2, Q))
def hsk(b): return h2f(b, 0, 1, R)
import functools
@functools.lru_cache(None)
def hash1(msg): m = b'\x01' + msg; return map1(hp(m, 0), hp(m, 1))
@functools.lru_cache(None)
def hash2(msg): m = b'\x01' + msg; return map2(hp2(m, 0), hp2(m, 1))
@functools.lru_cache(None)
def hash2d(h, d):
    x = tuple(int.from_bytes(sha(h + d + bytes([i])), 'big') for i in (1, 2))
    while True:
        y = sqrt2(E2.rhs(x))
        if y is not None:
            if not gt2(y): y = n2(y)
            return E2.mul((x, y), H2)
        x = a2(x, I2)
