"""Independent models of the seeded procedures: ANSI X9.62 and Brainpool (2005, RFC 5639)."""
import hashlib
from . import ec, gp


def sha(n, bits):
    return hashlib.sha1(n.to_bytes(bits // 8, "big")).digest()


def ansi_W(seedhex, t, clear):
    """the integer of t bits X9.62 derives from a seed; clear: leftmost bit set to zero (prime fields)"""
    g = len(seedhex) * 4
    S = int(seedhex, 16)
    s = (t - 1) // 160
    h = t - 160 * s
    w = int.from_bytes(sha(S, g), "big") & ((1 << h) - 1)
    if clear:
        w &= ~(1 << (h - 1))
    for i in range(1, s + 1):
        w = w << 160 | int.from_bytes(sha((S + i) % (1 << g), g), "big")
    return w


def ansi_ok(c, seedhex, bits):
    """Does the curve verify against the seed?"""
    if not c.prime:
        return c.b == ansi_W(seedhex, c.m, False)
    p = c.p
    return any((ansi_W(seedhex, t, True) * c.b**2 - c.a**3) % p == 0 for t in {bits, p.bit_length()})


M160 = 1 << 160


def bp_hash(s, w, v):
    r = int.from_bytes(sha(s, 160), "big") & ((1 << w) - 1)
    for i in range(1, v + 1):
        r = r << 160 | int.from_bytes(sha((s + i) % M160, 160), "big")
    return r


def issq(x, p):
    x %= p
    return x == 0 or pow(x, (p - 1) // 2, p) == 1


def prime34(c, strict):
    p = c + 1 if strict else c
    while p % 4 != 3 or not ec.is_prime(p):
        p += 1
    return p


def brainpool(s, L, rfc, strict=True, maxsteps=10**9, one=False, watch=None):
    """the curve the procedure derives starting from the seed s: dict, or None. one: give up unless the
    first candidate already is the one"""
    v = (L - 1) // 160
    w = L - 160 * v - 1
    upd = False
    steps = 0
    cand = 0
    while steps < maxsteps:
        steps += 1
        # field
        if upd:
            s = (s + 1) % M160
        while True:
            p = prime34(bp_hash(s, w + 1, v), strict)
            if (1 << (L - 1)) <= p < 1 << L:
                break
            if one:
                return None
            s = (s + 1) % M160
        sp = s
        # equation
        s = (s + 1) % M160
        while True:
            a = bp_hash(s, w, v)
            if a % p == 0 or not issq(-3 * pow(a, -1, p), p):     # p = 3 mod 4: squares are fourth powers
                s = (s + 1) % M160
                continue
            s = (s + 1) % M160
            b = bp_hash(s, w, v)
            if not rfc:
                if not issq(b, p):
                    s = (s + 1) % M160
                    continue
            else:
                while issq(b, p):
                    s = (s + 1) % M160
                    b = bp_hash(s, w, v)
            if (4 * a**3 + 27 * b * b) % p == 0:
                s = (s + 1) % M160
                continue
            break
        upd = True
        cand += 1
        if one and cand > 1:
            return None
        # (SEA fails for some curves over small fields)
        N = int(gp.q(("ellsea(ellinit([%d,%d],%d),1)" if L > 60 else "ellcard(ellinit([%d,%d],%d))") % (a, b, p), 300))
        if N == 0 or not ec.is_prime(N) or N >= p:
            continue
        s = (s + 1) % M160
        k = bp_hash(s, w, v)
        x = 0
        while not issq(x**3 + a * x + b, p):
            x += 1
        y = pow(x**3 + a * x + b, (p + 1) // 4, p)
        E = ec.Fp(p, a, b)
        G = E.mul(k % N, (x, y))
        if G is None:
            continue
        if watch is not None:
            watch.append(index(p, N))
        # the embedding degree is acceptable: larger than (N-1)/100
        if gp.q("znorder(Mod(%d,%d))>%d" % (p, N, (N - 1) // 100)) != "1" if L <= 64 else index_large(p, N):
            continue
        return dict(p=p, a=a % p, b=b % p, N=N, G=G, final=s, sp=sp)
    return None


def index_large(p, N):
    """is the index of p in (Z/N)* at least 100? (only from the prime factors of N-1 below 2^17; a larger one is in
    the index with a negligible probability)"""
    return index(p, N) >= 100


def index(p, N):
    idx, m, q = 1, N - 1, 2
    while q < 1 << 17 and m > 1:
        if m % q == 0:
            e = N - 1
            while m % q == 0:
                m //= q
                if e % q == 0 and pow(p, e // q, N) == 1:
                    idx *= q
                    e //= q
        q += 1 + (q > 2)
    return idx


def bp_explain(c, final, L, rfc, depth=4000):
    """Is there a seed shortly before `final` from which the procedure gives the curve at once, ending at final?"""
    v = (L - 1) // 160
    w = L - 160 * v - 1
    for d in range(1, depth):
        s = (final - d) % M160
        h = bp_hash(s, w + 1, v)
        if not 0 <= c.p - h < 40 * L * 4:
            continue
        for strict in (True, False):
            if prime34(h, strict) != c.p:
                continue
            m = brainpool(s, L, rfc, strict, one=True)
            if m and m["final"] == final and bp_same(c, m):
                return True
    return False


def bp_same(c, m):
    """None-like empty string when equal"""
    if (c.p, c.a, c.b, c.N) != (m["p"], m["a"], m["b"], m["N"]) or len(c.gens) != 1:
        return False
    G = c.gens[0][0]
    return G[0] == m["G"][0] and (G[1] - m["G"][1]) * (G[1] + m["G"][1]) % m["p"] == 0
