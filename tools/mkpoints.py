"""Points of the two curves with special coordinates, for the directed candidates (writes engine/pointdata.py; spec.py
checks every point against the curve equation when it is loaded)."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import ref, spec
from ref import *
rng = random.Random(5)
# polynomials over a field given by its operations, lowest coefficient first
class F:
    def __init__(s, mul, add, sub, inv, zero, one, order): s.mul, s.add, s.sub, s.inv, s.z, s.o, s.n = mul, add, sub, inv, zero, one, order
F1 = F(lambda a, b: a * b % Q, lambda a, b: (a + b) % Q, lambda a, b: (a - b) % Q, lambda a: inv(a), 0, 1, Q)
F2 = F(m2, a2, s2, i2, O2, I2, Q * Q)
def trim(k, p):
    while p and p[-1] == k.z: p = p[:-1]
    return p
def pmod(k, a, m):
    a = list(a); li = k.inv(m[-1])
    while len(a) >= len(m):
        if a[-1] != k.z:
            c = k.mul(a[-1], li); o = len(a) - len(m)
            for i, x in enumerate(m): a[o + i] = k.sub(a[o + i], k.mul(c, x))
        a.pop()
    return trim(k, a)
def pmul(k, a, b, m):
    r = [k.z] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] = k.add(r[i + j], k.mul(x, y))
    return pmod(k, r, m)
def pgcd(k, a, b):
    while b: a, b = b, pmod(k, a, b)
    return a
def ppow(k, a, n, m):
    r = [k.o]
    for c in bin(n)[2:]:
        r = pmul(k, r, r, m)
        if c == '1': r = pmul(k, r, a, m)
    return r
def psub(k, a, b):
    n = max(len(a), len(b)); a = list(a) + [k.z] * (n - len(a)); b = list(b) + [k.z] * (n - len(b))
    return trim(k, [k.sub(x, y) for x, y in zip(a, b)])
def roots(k, f):
    f = trim(k, f)
    if len(f) < 2: return []
    if len(f) == 2: return [k.mul(k.sub(k.z, f[0]), k.inv(f[1]))]
    g = pgcd(k, f, psub(k, ppow(k, [k.z, k.o], k.n, f), [k.z, k.o]))
    return split(k, g)
def split(k, g):
    if len(g) < 2: return []
    if len(g) == 2: return roots(k, g)
    while True:
        r = rng.randrange(Q) if k is F1 else (rng.randrange(Q), rng.randrange(Q))
        h = pgcd(k, g, psub(k, ppow(k, [r, k.o], (k.n - 1) // 2, g), [k.o]))
        if 1 < len(h) < len(g):
            q = []; a = list(g)
            li = k.inv(h[-1])
            while len(a) >= len(h):
                c = k.mul(a[-1], li); q.append(c); o = len(a) - len(h)
                for i, x in enumerate(h): a[o + i] = k.sub(a[o + i], k.mul(c, x))
                a.pop()
            return split(k, h) + split(k, q[::-1])
s = sorted
pool = [x for x in dict.fromkeys([0, 1, 2, 3, 4, 5, Q - 1, Q - 2, Q - 3, (Q - 1) // 2, (Q + 1) // 2, (Q - 3) // 2, (Q + 3) // 2] + spec.fq.pool(random.Random(1), 0))]
p1 = []
def put(l, p, c):
    if p is not None and c.on(p) and p not in l: l.append(p)
for x in pool:
    y = sqrt_q((x ** 3 + 4) % Q)
    if y is not None: put(p1, (x, y), E1)
ny = 0
for y in pool:
    for x in roots(F1, [(4 - y * y) % Q, 0, 0, 1])[:1]:
        put(p1, (x, y), E1)
for sg in (1, Q - 1):
    for x in roots(F1, [4, 0, Q - 1, 1]): put(p1, (x, sg * x % Q), E1)
for x in roots(F1, [4, Q - 1, 0, 1]):       # y^2 = x
    y = sqrt_q(x)
    if y is not None: put(p1, (x, y), E1)
print(len(p1))
p2 = []
B = (4, 4)
base = [0, 1, 2, Q - 1, (Q - 1) // 2, (Q + 1) // 2, spec.RQI, (1 << 64) - 1, (1 << 376) - 1, Q - (1 << 64)]
r = lambda: rng.randrange(Q)
def fromx(x):
    y = sqrt2(a2(m2(m2(x, x), x), B))
    if y is not None: put(p2, (x, y), E2); return True
def fromy(y):
    for x in roots(F2, [s2(B, m2(y, y)), O2, O2, I2])[:1]: put(p2, (x, y), E2); return True
def until(f, mk, n):
    k = 0
    for _ in range(200):
        k += bool(f(mk()))
        if k >= n: return
for f in (fromx, fromy):
    for a in base:
        for b in base[:6]: f((a, b))
    until(f, lambda: (r(), 0), 4); until(f, lambda: (0, r()), 3)
    def diag(): a = r(); return (a, a)
    def anti(): a = r(); return (a, Q - a)
    until(f, diag, 2); until(f, anti, 2)
    for a in base[1:]: until(f, lambda: (a, r()), 1); until(f, lambda: (r(), a), 1)
for x in roots(F2, [B, O2, n2(I2), I2]): put(p2, (x, x), E2); put(p2, (x, n2(x)), E2)
print(len(p2))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine', 'pointdata.py'), 'w') as o:
    o.write('"written by tools/mkpoints.py"\nS1 = [\n' + ''.join(' (%#x, %#x),\n' % p for p in p1) + ']\nS2 = [\n' + ''.join(' ((%#x, %#x), (%#x, %#x)),\n' % (x + y) for x, y in p2) + ']\n')
