"""Small-field curve counting by brute force and own field arithmetic (no PARI)."""


def isqrt(n):
    import math
    return math.isqrt(n)


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    bases = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    if n > 3 * 10**24:
        import random
        r = random.Random(n)
        bases += tuple(r.randrange(2, n - 1) for _ in range(20))
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def count_fp(p, a, b):
    """#E(F_p) by summing over x (p > 2)."""
    nsq = bytearray(p)
    for y in range(p):
        nsq[y * y % p] += 1
    return 1 + sum(nsq[(x * x * x + a * x + b) % p] for x in range(p))


def gf2_mulmod(a, b, poly, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> m & 1:
            a ^= poly
    return r


def count_f2m(m, poly, a, b):
    """#E(F_2^m) of y^2+xy=x^3+ax^2+b by the trace condition."""
    q = 1 << m
    mul = lambda x, y: gf2_mulmod(x, y, poly, m)

    def trace(x):
        t = x
        for _ in range(m - 1):
            x = mul(x, x)
            t ^= x
        return t
    # trace is linear: mask
    mask = 0
    for i in range(m):
        if trace(1 << i) & 1:
            mask |= 1 << i
    n = 2  # infinity and the point with x = 0
    for x in range(1, q):
        inv = x
        # x^(q-2)
        r, e, base = 1, q - 2, x
        while e:
            if e & 1:
                r = mul(r, base)
            base = mul(base, base)
            e >>= 1
        v = x ^ a ^ mul(b, mul(r, r))
        if bin(v & mask).count("1") % 2 == 0:
            n += 2
    return n


class Fp:
    """Affine arithmetic on y^2=x^3+ax+b over F_p; None is infinity."""

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p

    def on(self, P):
        x, y = P
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, n, P):
        R = None
        while n:
            if n & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            n >>= 1
        return R


class F2m:
    """Affine arithmetic on y^2+xy=x^3+ax^2+b over F_2^m."""

    def __init__(self, m, poly, a, b):
        self.m, self.poly, self.a, self.b = m, poly, a, b

    def f(self, x, y):
        return gf2_mulmod(x, y, self.poly, self.m)

    def inv(self, x):
        # extended Euclid on polynomials
        u, v, g1, g2 = x, self.poly, 1, 0
        while u != 1:
            j = u.bit_length() - v.bit_length()
            if j < 0:
                u, v, g1, g2, j = v, u, g2, g1, -j
            u ^= v << j
            g1 ^= g2 << j
        return g1

    def on(self, P):
        x, y = P
        if x >> self.m or y >> self.m:
            return False
        f = self.f
        x2 = f(x, x)
        return f(y, y) ^ f(x, y) == f(x2, x) ^ f(self.a, x2) ^ self.b

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        f = self.f
        if P[0] == Q[0]:
            if P[1] ^ Q[1] == P[0] or P[0] == 0:
                return None
            l = P[0] ^ f(P[1], self.inv(P[0]))
            x = f(l, l) ^ l ^ self.a
            return x, f(P[0], P[0]) ^ f(l ^ 1, x)
        l = f(P[1] ^ Q[1], self.inv(P[0] ^ Q[0]))
        x = f(l, l) ^ l ^ P[0] ^ Q[0] ^ self.a
        return x, f(l, P[0] ^ x) ^ x ^ P[1]

    def mul(self, n, P):
        R = None
        while n:
            if n & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            n >>= 1
        return R
