"""Generators of ecgen runs (cases), each with what the run was asked for (spec)."""
import random
from . import data_cm, data_std, ec

# ---------------------------------------------------------------- little number helpers


PSP = [341, 561, 645, 1105, 1387, 1729, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4681, 5459, 5777, 6601, 8321, 8911, 10585,
       10877, 15841, 16109, 18971, 22499, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 121463, 1373653, 1530787,
       1987021, 2284453, 3116107, 5173601, 6787327, 11541307, 13694761, 25326001, 161304001, 960946321, 3215031751,
       118670087467, 307768373641, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051]


def pseudoprime(rng, bits):
    """an odd composite of at most `bits` bits that passes weak primality tests"""
    r = rng.random()
    if r < 0.3 or bits < 24:
        return rng.choice([x for x in PSP if x.bit_length() <= bits] or [9])
    if r < 0.5:         # Carmichael
        for _ in range(3000):
            k = rng.randrange(1, max(2, 1 << (bits - 12) // 3))
            f = [6 * k + 1, 12 * k + 1, 18 * k + 1]
            if all(ec.is_prime(x) for x in f):
                n = f[0] * f[1] * f[2]
                if n.bit_length() <= bits:
                    return n
    while True:         # two primes, (p2 - 1) / (p1 - 1) small: strong to many bases
        m = rng.choice([2, 2, 2, 3, 4, 5])
        p = rand_prime(rng, rng.randint(4, (bits - 2) // 2))
        q = m * (p - 1) + 1
        if ec.is_prime(q) and (p * q).bit_length() <= bits:
            return p * q


def rand_prime(rng, bits, res=None, mod=None):
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        if bits == 2:
            p = 3
        if p > 3 and (mod is None or p % mod == res) and ec.is_prime(p):
            return p
        if bits <= 2:
            return 3


def pick(rng, pairs):
    """weighted choice"""
    t = rng.random() * sum(w for _, w in pairs)
    for v, w in pairs:
        t -= w
        if t <= 0:
            return v
    return pairs[-1][0]


def _gf2_irreducible(f):
    m = f.bit_length() - 1
    def mulmod(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            b >>= 1
            a <<= 1
            if a >> m & 1:
                a ^= f
        return r
    def gcd(a, b):
        while b:
            while a and a.bit_length() >= b.bit_length():
                a ^= b << (a.bit_length() - b.bit_length())
            a, b = b, a
        return a
    x = 2
    if m == 1:
        return True
    primes = [q for q in range(2, m + 1) if m % q == 0 and ec.is_prime(q)]
    t = x
    for i in range(1, m + 1):
        t = mulmod(t, t)
        if i < m and any(i == m // q for q in primes) and gcd(f, t ^ x) != 1:
            return False
    return t == x


_irr_cache = {}


def rand_poly(rng, m, irreducible=True):
    """exponents (e1,e2,e3) of an irreducible (or reducible) tri/pentanomial of degree m"""
    for _ in range(4000):
        if m >= 4 and rng.random() < 0.7:
            e = sorted(rng.sample(range(1, m), 3), reverse=True)
        else:
            e = [rng.randrange(1, m) if m > 1 else 1, 0, 0]
        f = (1 << m) | 1
        for k in e:
            if k:
                f |= 1 << k
        key = (m, tuple(e))
        if key not in _irr_cache:
            _irr_cache[key] = _gf2_irreducible(f)
        if _irr_cache[key] == irreducible:
            return e
    return None


def num(rng, v, fmt=None):
    """a number in one of the accepted notations"""
    f = fmt or rng.choice(["d", "x", "x", "X"])
    s = "-" if v < 0 else ""
    v = abs(v)
    return s + ("%d" % v if f == "d" else "0x%x" % v if f == "x" else "0x%X" % v)


POINTS = ["prime", "all", "nonprime", "none", "random"]


def points_opt(rng, spec, args, heavy=True):
    r = rng.random()
    if r < 0.35:
        return
    m = rng.choice(POINTS + ["N"] * 2)
    if m == "N":
        n = rng.choice([1, 2, 3, 5, 10, 17])
        args.append("--points=%drandom" % n)
        spec["points"] = ["n", n]
    else:
        args.append("--points=" + m)
        spec["points"] = m


def common(rng, spec, args, count=True, meta=True, points=True):
    if points:
        points_opt(rng, spec, args)
    if meta and rng.random() < 0.35:
        args.append("--metadata")
        spec["metadata"] = True
    if count and rng.random() < 0.35:
        n = rng.choice([2, 2, 3, 4])
        args.append("-c%d" % n)
        spec["count"] = n


def bits_fp(rng, lo=3, hi=128):
    b = pick(rng, [(rng.randint(3, 12), 30), (rng.randint(10, 24), 30), (rng.randint(24, 48), 25),
                   (rng.randint(48, 96), 12), (rng.randint(96, 160), 4)])
    return max(lo, min(hi, b))


def bits_f2m(rng, lo=3, hi=128):
    b = pick(rng, [(rng.randint(3, 12), 35), (rng.randint(10, 24), 30), (rng.randint(24, 48), 22),
                   (rng.randint(48, 96), 10), (rng.randint(96, 163), 3)])
    return max(lo, min(hi, b))


def case(kind, args, spec, stdin="", seed=1, weight=0, **kw):
    c = {"kind": kind, "args": [str(a) for a in args], "stdin": stdin, "seed": seed, "spec": spec,
         "weight": weight}
    c.update(kw)
    return c


# ---------------------------------------------------------------- the methods


def w_random(rng, field=None, lo=3, hi=128, constraint=None, **force):
    """default method, everything random"""
    field = field or rng.choice(["fp", "f2m"])
    spec, args = {"field": field, "rand_field": True}, ["--" + field, "-r"]
    con = constraint or pick(rng, [("none", 30), ("prime", 12), ("cofactor", 14), ("smooth", 10),
                                   ("koblitz", 8), ("hex", 6)])
    bits = bits_fp(rng, lo, hi) if field == "fp" else bits_f2m(rng, lo, hi)
    if con == "prime":
        if field == "f2m":
            con = "none"
        else:
            bits = max(5, min(bits, 96))
            args.append("-p")
            spec["prime"] = True
    if con == "cofactor":
        bits = max(10, min(bits, 40 if field == "fp" else 36))
        k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12]) if field == "fp" else rng.choice([2, 4, 6, 8, 10, 12])
        args.append("-k%d" % k)
        spec["cofactor"] = k
    if con == "smooth":
        bits = max(6, min(bits, 48))
        s = max(4, int(bits * rng.choice([0.5, 0.6, 0.75])))
        args.append("-B%d" % s)
        spec["smooth"] = s
    if con == "koblitz":
        a = rng.choice([0, 1])
        if field == "fp":
            bits = max(4, bits)
            if a == 1 and rng.random() < 0.3:
                args.append("-p")
                bits = max(14, min(bits, 64))
                spec["prime"] = True
        args.append("-K%d" % a)
        spec["koblitz"] = a
    if con == "hex":
        bits = max(20, min(bits, 64))
        h = "%0*x" % (rng.choice([1, 2, 2]), 0)
        h = "".join(rng.choice("0123456789abcdefABCDEF") for _ in h)
        args.append("--hex-check=" + rng.choice(["", "0x", "0X"]) + h if len(h) > 1 else "--hex-check=" + h)
        spec["hex"] = h
    if con != "koblitz" and not (field == "f2m" and con in ("smooth",) and False) and rng.random() < 0.3:
        args.append("-u")
        spec["unique"] = True
    common(rng, spec, args)
    spec["bits"] = bits
    if bits > 64 and spec.get("points") == "all":
        pass
    args.append(bits)
    rng.shuffle(args)
    return case("random", args, spec, seed=rng.getrandbits(40), weight=bits * spec.get("count", 1))


def coef(rng, q):
    return pick(rng, [(rng.randrange(q), 80), (0, 6), (1, 6), (q - 1, 4), (rng.randrange(min(q, 9)), 4)])


def split_curve(rng, p):
    """y^2=(x-e1)(x-e2)(x-e3): full two-torsion, usually not cyclic"""
    e1, e2 = rng.randrange(p), rng.randrange(p)
    e3 = (-e1 - e2) % p
    return (e1 * e2 + e1 * e3 + e2 * e3) % p, (-e1 * e2 * e3) % p


def curve_input(rng, field, bits, kind=None):
    """(lines, p or exps, a, b) of a nonsingular curve"""
    if field == "fp":
        while True:
            p = rand_prime(rng, bits if rng.random() < 0.85 else rng.randint(min(3, bits), bits))
            if p < 5:
                if bits < 3:
                    p = 3
                else:
                    continue
            k = kind or pick(rng, [("any", 50), ("split", 30), ("j0", 6), ("j1728", 6), ("edge", 8)])
            if k == "split":
                a, b = split_curve(rng, p)
            elif k == "j0":
                a, b = 0, rng.randrange(1, p)
            elif k == "j1728":
                a, b = rng.randrange(1, p), 0
            elif k == "edge":
                a, b = coef(rng, p), coef(rng, p)
            else:
                a, b = rng.randrange(p), rng.randrange(p)
            if (4 * a**3 + 27 * b * b) % p:
                return [num(rng, p), num(rng, a), num(rng, b)], p, a, b
    while True:
        e = rand_poly(rng, bits)
        if e is None:
            bits += 1
            continue
        q = 1 << bits
        k = kind or pick(rng, [("any", 80), ("edge", 20)])
        a = coef(rng, q) if k == "edge" else rng.randrange(q)
        b = coef(rng, q) if k == "edge" else rng.randrange(1, q)
        if b:
            return [num(rng, bits)] + [num(rng, x) for x in e] + [num(rng, a), num(rng, b)], e, a, b


def w_input(rng, field=None, method="default", lo=3, hi=96, bits=None, kind=None, **kw):
    """curves given on standard input (default or twist method)"""
    field = field or pick(rng, [("fp", 60), ("f2m", 40)])
    bits = bits or (bits_fp(rng, lo, hi) if field == "fp" else bits_f2m(rng, lo, hi))
    spec, args = {"field": field, "bits": bits}, ["--" + field]
    common(rng, spec, args)
    if method == "twist":
        args.append("--twist")
    n = spec.get("count", 1)
    lines, given = [], []
    for _ in range(n):
        l, f, a, b = curve_input(rng, field, bits, kind)
        lines += l
        given.append([f, a, b])
    args.append(bits)
    return case("twist" if method == "twist" else "input", args, spec, "\n".join(lines) + "\n",
                seed=rng.getrandbits(40), weight=bits * n, given=given)


def w_partial(rng, lo=4, hi=64):
    """some parameters random, some given"""
    field = rng.choice(["fp", "f2m"])
    bits = bits_fp(rng, lo, hi) if field == "fp" else bits_f2m(rng, lo, hi)
    what = rng.choice([["field"], ["a"], ["b"], ["a", "b"], ["equation"], ["field", "a"], ["field", "b"],
                       ["field", "equation"]])
    spec, args = {"field": field, "bits": bits}, ["--" + field, "--random=" + ",".join(what)]
    spec["rand_field"] = "field" in what
    common(rng, spec, args)
    n = spec.get("count", 1)
    lines, given = [], []
    for _ in range(n * 6):      # spare ones in case a random coefficient makes a singular curve
        l, f, a, b = curve_input(rng, field, bits)
        g = [None, None, None]
        if "field" not in what:
            lines += l[:1] if field == "fp" else l[:4]
            g[0] = f
        eq = "equation" in what
        if not ("a" in what or eq):
            lines.append(num(rng, a))
            g[1] = a
        if not ("b" in what or eq):
            lines.append(num(rng, b))
            g[2] = b
        given.append(g)
    args.append(bits)
    return case("partial", args, spec, "\n".join(lines) + "\n", seed=rng.getrandbits(40),
                weight=bits * n, given=given, spare=True)


def w_constrained_input(rng):
    """constraints on given curves: candidates that fail are skipped"""
    field = pick(rng, [("fp", 70), ("f2m", 30)])
    bits = rng.randint(6, 24)
    con = rng.choice(["prime", "cofactor", "smooth", "unique"] if field == "fp" else ["cofactor", "smooth", "unique"])
    spec, args = {"field": field, "bits": bits}, ["--" + field]
    if con == "prime":
        spec["prime"] = True
        args.append("-p")
    elif con == "cofactor":
        k = rng.choice([2, 3, 4, 5, 6, 8]) if field == "fp" else rng.choice([2, 4, 6, 8])
        spec["cofactor"] = k
        args.append("-k%d" % k)
    elif con == "smooth":
        s = rng.randint(2, max(3, bits - 3))
        spec["smooth"] = s
        args.append("-B%d" % s)
    else:
        spec["unique"] = True
        args.append("-u")
    if con != "unique" and rng.random() < 0.25:
        spec["unique"] = True
        args.append("-u")
    common(rng, spec, args)
    lines, given = [], []
    n = rng.choice([4, 12, 40]) * spec.get("count", 1)
    for _ in range(n):
        l, f, a, b = curve_input(rng, field, bits)
        lines += l
        given.append([f, a, b])
    args.append(bits)
    if rng.random() < 0.3:
        args.append("--twist")
    return case("coninput", args, spec, "\n".join(lines) + "\n", seed=rng.getrandbits(40),
                weight=bits * 3, given=given)


def hexseed(rng, bits=160):
    return "%0*x" % (bits // 4, pick(rng, [(rng.getrandbits(bits), 80), (rng.getrandbits(bits // 2), 8),
                                           ((1 << bits) - 1 - rng.getrandbits(8), 8), (rng.getrandbits(4), 4)]))


def w_ansi(rng, lo=4, hi=200):
    field = rng.choice(["fp", "f2m"])
    bits = bits_fp(rng, lo, 96) if field == "fp" else bits_f2m(rng, lo, 80)
    spec, args = {"field": field, "bits": bits, "hashexp": True}, ["--" + field]
    s = rng.choice(["arg", "input", "random"])
    rf = rng.random() < 0.5
    seed = None
    lines = []
    n = 1
    if rng.random() < 0.3:
        n = rng.choice([2, 3])
        args.append("-c%d" % n)
        spec["count"] = n
    if s == "arg":
        seed = hexseed(rng, rng.choice([160, 160, 168, 192, 256, 320]))
        args.append("--ansi=" + rng.choice(["", "0x"]) + seed)
    else:
        args.append("--ansi")
    what = []
    if s == "random":
        what.append("seed")
    if rf:
        what.append("field")
        spec["rand_field"] = True
    if what == ["seed", "field"] and rng.random() < 0.5:
        args.append("-r")
    elif what:
        args.append("--random=" + ",".join(what))
    seeds = []
    for _ in range(n * 5):
        sd = hexseed(rng, rng.choice([160, 176, 256]))
        if s == "input":
            lines.append(sd)
        seeds.append(seed or (sd if s == "input" else None))
        if not rf:
            l, f, a, b = curve_input(rng, field, bits)
            lines += l[:-2]
    points_opt(rng, spec, args)
    if rng.random() < 0.3:
        args.append("--metadata")
        spec["metadata"] = True
    args.append(bits)
    return case("ansi", args, spec, "\n".join(lines) + "\n", seed=rng.getrandbits(40), weight=bits * n,
                seedsrc=s, seeds=seeds)


def w_brainpool(rng, hi=40):
    alg = rng.choice(["--brainpool", "--brainpool-rfc"])
    bits = rng.randint(6, hi)
    spec, args = {"field": "fp", "bits": bits, "prime": True, "rand_field": True}, ["--fp"]
    s = rng.choice(["arg", "input", "random"])
    n = 1
    if rng.random() < 0.3:
        n = rng.choice([2, 3])
        args.append("-c%d" % n)
        spec["count"] = n
    lines, seeds = [], []
    if s == "arg":
        sd = hexseed(rng)
        args.append(alg + "=" + sd)
        seeds = [sd] * n
    else:
        args.append(alg)
        if s == "random":
            args.append("-r")
            seeds = [None] * n
        else:
            seeds = [hexseed(rng) for _ in range(n)]
            lines = list(seeds)
    points_opt(rng, spec, args)
    if rng.random() < 0.3:
        args.append("--metadata")
        spec["metadata"] = True
    args.append(bits)
    return case("brainpool", args, spec, "\n".join(lines) + "\n" if lines else "", seed=rng.getrandbits(40),
                weight=bits * 4 * n, seedsrc=s, seeds=seeds, rfc=alg.endswith("rfc"))


def w_nums(rng, hi=40, bits=None):
    bits = bits or rng.choice([3, 4, 5, 6] + list(range(8, hi)))
    spec, args = {"field": "fp", "bits": bits, "prime": True, "rand_field": True}, ["--fp", "--nums"]
    common(rng, spec, args)
    args.append(bits)
    return case("nums", args, spec, seed=rng.getrandbits(40), weight=bits * 6 * spec.get("count", 1))


FAM_BITS = {"BN": (4, 32), "BLS12": (6, 32)}


def w_family(rng):
    """random parameter for the families where one is found quickly"""
    fam = rng.choice(sorted(FAM_BITS))
    bits = rng.randint(*FAM_BITS[fam])
    spec, args = {"field": "fp", "bits": bits, "family": fam}, ["--fp", "--family=" + fam, "-r"]
    common(rng, spec, args)
    args.append(bits)
    return case("family", args, spec, seed=rng.getrandbits(40), weight=bits * 10 * spec.get("count", 1))


def w_anomalous(rng, hi=128):
    bits = pick(rng, [(rng.choice([5, 8, 9, 10, 11, 12]), 40), (rng.randint(12, 40), 30), (rng.randint(40, hi), 30)])
    spec, args = {"field": "fp", "bits": bits, "rand_field": True}, ["--fp", "--anomalous", "-r"]
    common(rng, spec, args)
    args.append(bits)
    return case("anomalous", args, spec, seed=rng.getrandbits(40), weight=bits * spec.get("count", 1))


def w_supersingular(rng, hi=128):
    bits = bits_fp(rng, 3, hi)
    spec, args = {"field": "fp", "bits": bits}, ["--fp", "--supersingular"]
    common(rng, spec, args)
    lines, given = [], []
    if rng.random() < 0.5:
        args.append("-r")
        spec["rand_field"] = True
    else:
        for _ in range(spec.get("count", 1)):
            p = rand_prime(rng, bits)
            lines.append(num(rng, p))
            given.append([p, None, None])
    args.append(bits)
    return case("supersingular", args, spec, "\n".join(lines) + "\n" if lines else "",
                seed=rng.getrandbits(40), weight=bits * spec.get("count", 1), given=given)


def smooth_number(rng, bits):
    """a composite number with small and repeated factors of about `bits` bits: factors list"""
    fs = []
    n = 1
    while n.bit_length() < bits:
        left = bits - n.bit_length() + 1
        k = rng.randint(2, max(2, min(left, 24)))
        p = rand_prime(rng, k) if k > 2 else rng.choice([2, 3])
        e = rng.choice([1, 1, 1, 2, 3])
        if (n * p**e).bit_length() > bits:
            e = 1
            if (n * p).bit_length() > bits:
                break
        fs += [p] * e
        n *= p**e
    return fs or [rand_prime(rng, bits)]


def w_cm(rng, maxbits=130, kind=None):
    """curve of a requested order"""
    k = kind or rng.choice(["prime", "composite", "composite", "new"])
    if k == "prime":
        fs = [rng.choice([n for n in data_cm.PRIME if n.bit_length() <= maxbits])]
    elif k == "composite":
        fs = list(rng.choice([f for f in data_cm.COMPOSITE if sum(x.bit_length() for x in f) <= maxbits]))
    else:
        fs = smooth_number(rng, rng.randint(9, 32))
    bits = 8
    N = 1
    for f in fs:
        N *= f
    bits = max(8, N.bit_length())
    if len(fs) > 1 and rng.random() < 0.5:
        # as a list of factors (grouping some of them)
        parts = list(fs)
        rng.shuffle(parts)
        while len(parts) > 1 and rng.random() < 0.3:
            parts = [parts[0] * parts[1]] + parts[2:]
        arg = ",".join(num(rng, x, rng.choice("dx")) for x in parts)
    else:
        arg = num(rng, N, rng.choice("dx"))
    if k == "prime" and rng.random() < 0.2:
        bits = bits + 1     # the field may be larger than the order asks
    spec, args = {"field": "fp", "bits": bits, "order": N, "nofield": True}, ["--fp", "-n" + arg]
    common(rng, spec, args, count=rng.random() < 0.5)
    args.append(bits)
    return case("cm", args, spec, seed=rng.getrandbits(40), weight=bits * 5 * spec.get("count", 1), factors=fs)


def w_twist(rng):
    return w_input(rng, method="twist", hi=80)


ALL = [(w_random, 34), (w_input, 22), (w_partial, 8), (w_constrained_input, 6), (w_ansi, 6), (w_brainpool, 4),
       (w_nums, 2), (w_family, 3), (w_anomalous, 4), (w_supersingular, 5), (w_cm, 6), (w_twist, 6)]


def w_std(rng, top=256):
    return w_big(rng, top, "std")


def w_big(rng, top=256, kind=None):
    """cryptographic sizes: standard curves given as input, and random ones without points"""
    k = kind or pick(rng, [("std", 50), ("fp", 12), ("f2m", 18), ("koblitz", 10), ("anomalous", 10), ("partial", 8)])
    seed = rng.getrandbits(40)
    if k == "std":
        f = rng.choice(["fp", "fp", "f2m"])
        if f == "fp":
            _, p, a, b = rng.choice([x for x in data_std.FP if x[1].bit_length() <= top])
            bits = p.bit_length() + rng.choice([0, 0, 0, 1, 8])
            toks = [num(rng, p), num(rng, a), num(rng, b)]
        else:
            _, e, a, b = rng.choice([x for x in data_std.F2M if x[1][0] <= top * 2])
            bits = e[0]
            toks = [num(rng, x) for x in (e + [0, 0])[:4]] + [num(rng, a), num(rng, b)]
        spec = {"field": f, "bits": bits}
        args = ["--" + f]
        o = rng.choice(["", "", "", "--points=all", "--points=3random", "-u", "--points=none"])
        if o.startswith("--"):
            spec["points"] = o[9:]
        if o == "-u":
            spec["unique"] = True
        if o:
            args.append(o)
        if f == "fp" and rng.random() < 0.3 and bits <= top:
            args.append("-p")
            spec["prime"] = True
        if f == "fp" and rng.random() < 0.2:
            args += ["-p"] if "-p" in args else ["-k1"]
            spec.update({"prime": True} if "-p" in args else {"cofactor": 1})
        return case("std", [a for i, a in enumerate(args) if a not in args[:i]] + [bits], spec, "\n".join(toks) + "\n", seed=seed, weight=bits * 20)
    if k == "anomalous":
        bits = rng.randint(129, top)
        return case("big", ["--fp", "-r", "--anomalous", bits], {"field": "fp", "bits": bits, "method": "anomalous", "rand_field": True},
                    seed=seed, weight=bits * 3)
    bits = rng.randint(129, min(top, 224) if k in ("fp", "partial") else top * 3 // 2)
    spec = {"field": "fp" if k in ("fp", "partial") else "f2m", "bits": bits, "points": "none", "rand_field": k != "partial"}
    args = ["--" + spec["field"], "--points=none"]
    toks = []
    if k == "partial":
        toks = [num(rng, rand_prime(rng, bits)), num(rng, rng.getrandbits(bits)), num(rng, rng.getrandbits(bits))]
        m = rng.choice(["", "a", "b"])
        if m:
            args.append("--random=" + m)
            toks = [t for t, n in zip(toks, "pab") if n != m]
    else:
        args.append("-r")
    if k == "koblitz":
        spec["koblitz"] = rng.choice([0, 1])
        args.append("-K%d" % spec["koblitz"])
    return case("big", args + [bits], spec, "".join(t + "\n" for t in toks), seed=seed, weight=bits * 20)


def mixed(rng, n, weights=None):
    return [pick(rng, weights or ALL)(rng) for _ in range(n)]
