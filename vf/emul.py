"""What a run with given parameters has to do with a sequence of input values (independent model)."""
import re
from . import ec, gp
from .workload import _gf2_irreducible

_num = re.compile(r"^\s*(-?)(0[xX][0-9a-fA-F]+|[0-9]+)\s*$")


def value(tok, bits):
    """int or None when the token is not a number of the size"""
    m = _num.match(tok)
    if not m:
        return None
    v = int(m.group(2), 16 if m.group(2)[:2].lower() == "0x" else 10)
    v = -v if m.group(1) else v
    return v if abs(v) < 1 << bits else None


class End(Exception):
    pass


class Tokens:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def next(self):
        if self.i >= len(self.t):
            raise End
        self.i += 1
        return self.t[self.i - 1]


def read_field(T, field, bits):
    while True:
        if field == "fp":
            v = value(T.next(), bits)
            if v is not None and v > 1 and ec.is_prime(v):
                return v
        else:
            m = value(T.next(), 16)
            if m != bits:
                continue
            es = []
            for _ in range(3):
                e = value(T.next(), 16)
                if e is None or e < 0 or e >= m:
                    break
                es.append(e)
            if len(es) < 3 or not any(es):
                continue
            f = 1 << m | 1
            for e in es:
                if e:
                    f |= 1 << e
            if _gf2_irreducible(f):
                return f


def read_coef(T, bits):
    while True:
        v = value(T.next(), bits)
        if v is not None:
            return v


def nonsingular(field, f, a, b):
    if field == "fp":
        return f > 2 and (4 * a**3 + 27 * b * b) % f != 0
    return b != 0


def curves(field, bits, toks, count, accept=None):
    """([(f, a, b)...], enough?, certain?)"""
    T = Tokens(toks)
    res = []
    try:
        while len(res) < count:
            f = read_field(T, field, bits)
            a, b = read_coef(T, bits), read_coef(T, bits)
            if field == "fp":
                a, b = a % f, b % f
            elif a < 0 or b < 0:
                return res, False, False
            if not nonsingular(field, f, a, b):
                continue
            if accept:
                ok = accept(f, a, b)
                if ok is None:
                    return res, False, False
                if not ok:
                    continue
            res.append((f, a, b))
    except End:
        return res, False, True
    return res, True, True


def group(field, f, a, b):
    """invariants of the group, from gp"""
    if field == "fp":
        return gp.vec(gp.q("ellgroup(ellinit([%d,%d],%d))" % (a, b, f)))
    m = f.bit_length() - 1
    e = [i for i in range(m - 1, 0, -1) if f >> i & 1] + [0, 0, 0]
    return gp.vec(gp.q("my(u=vffield(%d,%d,%d,%d));ellgroup(ellinit([1,vfel(%d,u),0,0,vfel(%d,u)],u))" % (
        m, e[0], e[1], e[2], a, b)))


def factor(n):
    return gp.vec(gp.q("my(f=factor(%d));[Vec(f[,1]),Vec(f[,2])]" % n))


def acceptor(field, spec):
    def acc(f, a, b):
        inv = group(field, f, a, b)
        n = 1
        for x in inv:
            n *= x
        if spec.get("prime") and not ec.is_prime(n):
            return False
        k = spec.get("cofactor")
        cyclic = len(inv) < 2
        if k:
            if n % k or not ec.is_prime(n // k):
                return False
            if not cyclic and not spec.get("unique"):
                return None if n // k <= k or len(inv) == 2 and inv[0] in (n // k,) else False
        if spec.get("smooth") and n > 1 and max(factor(n)[0]).bit_length() > spec["smooth"]:
            return False
        if spec.get("unique") and not cyclic:
            return False
        return True
    return acc


def compare(curves_out, want, field):
    """first difference or None"""
    for i, (c, w) in enumerate(zip(curves_out, want)):
        f = c.p if c.prime else c.poly
        if (f, c.a, c.b) != w:
            return "curve %d is (%#x, %#x, %#x), the input says (%#x, %#x, %#x)" % ((i, f, c.a, c.b) + w)
    return None
