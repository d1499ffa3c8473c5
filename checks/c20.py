"""C20: the bit string library, operation by operation, against a model on lists of bits."""
import hashlib, os, random, subprocess
from vf import build

RULE = "one distinct observation per (operation, operand length mod 8 or 0, sign and size class of its argument) compared with the model"
MIN_DISTINCT = 300
ASSUME = ["the library is driven through the functions and the structure its unit tests use",
          "shortening by more than the length, aliased in-place operands and non-digit characters are not specified and not driven"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")


def exe(v):
    return build.link(v, "bitsh", ["bitsh.c"], with_main=False)


def setup():
    exe("plain")
    exe("asan")


def cases(tier, rng):
    n = 160 if tier == "quick" else 4000
    cs = []
    for i in range(n):
        cs.append({"kind": "chain", "seed": rng.getrandbits(40), "ops": 400, "variant": "asan" if i % 2 else "plain",
                   "max": rng.choice([9, 17, 40, 80, 300, 1300])})
    for lo in range(0, 80 if tier == "quick" else 400, 4):
        cs.append({"kind": "sweep", "lo": lo, "hi": lo + 4, "seed": rng.getrandbits(40), "variant": "asan"})
    return cs


class M:
    """model: the script, and what each line must print"""

    def __init__(self):
        self.s = {}
        self.lines, self.want, self.sig = [], [], []

    def emit(self, line, ret="", sig=None):
        self.lines.append(line)
        self.want.append((ret, dict(self.s)))
        self.sig.append(sig)


def val(b):
    v = int(b[1] or "0", 2)
    return -v if b[0] == "-" else v


def raw(b):
    n = len(b[1])
    m = (n + 7) // 8
    return int((b[1] + "0" * (8 * m - n)) or "0", 2).to_bytes(m, "big")


def outs(b):
    n = (len(b[1]) + 7) // 8
    sg = "-" if b[0] == "-" else ""
    hx = "%0*x" % (2 * n, int(b[1], 2)) if n else ""
    return " =%d =%s =%s =%s =%d =%s =%s" % (val(b), sg + hx, sg + b[1], raw(b).hex(), n, b[1], hashlib.sha1(raw(b)).hexdigest())


def rotl(b, k):
    if not b:
        return b
    k %= len(b)
    return b[k:] + b[:k]


def shift(b, k):
    n = len(b)
    if k >= 0:
        k = min(k, n)
        return b[k:] + "0" * k
    k = min(-k, n)
    return "0" * k + b[:n - k]


def lengthen(b, k):
    return "0" * k + b if k > 0 else b + "0" * -k


def shorten(b, k):
    return b[k:] if k >= 0 else b[:len(b) + k]


def shifti(b, k):
    return b + "0" * k if k > 0 else shorten(b, k)


UN = {"shift": shift, "shiftr": rotl, "shifti": shifti, "lengthen": lengthen, "shorten": shorten}


def flip(b):
    return b.translate({48: 49, 49: 48})


def bitop(x, y, f):
    n = max(len(x), len(y))
    x, y = x.rjust(n, "0"), y.rjust(n, "0")
    return "".join("1" if f(a == "1", c == "1") else "0" for a, c in zip(x, y))


def pat(rng, n):
    k = rng.random()
    if k < 0.15:
        return "1" * n
    if k < 0.25:
        return "0" * n
    if k < 0.35 and n:
        return "0" * (n - 1) + "1"
    if k < 0.45 and n:
        return "1" + "0" * (n - 1)
    return "".join(rng.choice("01") for _ in range(n))


def make(m, rng, d, n, how=None):
    """a new string of n bits in slot d, by one of the constructors"""
    how = how or rng.choice(["bin", "bin", "raw", "vec", "int", "intlen", "hex", "new", "negint", "neglen"])
    b = pat(rng, n)
    sg = "+"
    if how == "new":
        b = "0" * n
        l = "new %d %d" % (d, n)
    elif how == "bin":
        l = "bin %d =%s" % (d, b)
    elif how == "vec":
        l = "vec %d =%s" % (d, b)
    elif how == "raw":
        full = b + pat(rng, -n % 8)
        h = int(full or "0", 2).to_bytes((n + 7) // 8, "big").hex()
        l = "raw %d %d =%s" % (d, n, h)
    elif how == "hex":
        q = n // 4
        b = b[:4 * q]
        h = "%0*x" % (q, int(b, 2)) if q else ""
        h = h.upper() if rng.random() < 0.3 else h
        l = "hex %d =%s" % (d, h)
    elif how in ("int", "negint"):
        if n == 0:
            v, b = 0, ""
        else:
            b = "1" + b[1:]
            v = int(b, 2)
        if how == "negint" and v:
            sg, v = "-", -v
        l = "int %d %d" % (d, v)
    else:
        k = rng.randint(0, n)
        b = "0" * (n - k) + pat(rng, k)
        v = int(b or "0", 2)
        if how == "neglen" and v:
            sg, v = "-", -v
        l = "intlen %d %d %d" % (d, v, n)
    m.s[d] = (sg, b)
    m.emit(l, "", "%s len%%8=%s" % (how, n % 8 if n else "empty"))


def cls(k, n):
    a = abs(k)
    c = "0" if a == 0 else "lt" if a < n else "eq" if a == n else "gt"
    return ("-" if k < 0 else "+") + c + ("b" if a % 8 == 0 else "")


def unary(m, rng, op, d, a, k, inplace):
    sg, b = m.s[a]
    n = len(b)
    if op in ("not", "rot", "copy"):
        r = flip(b) if op == "not" else b[::-1] if op == "rot" else b
        l = "%sz %d" % (op, d) if inplace else "%s %d %d" % (op, d, a)
        s = ""
    else:
        r = UN[op](b, k)
        l = "%sz %d %d" % (op, d, k) if inplace else "%s %d %d %d" % (op, d, a, k)
        s = cls(k, n)
    m.s[d] = (sg, r)
    m.emit(l, "", "%s%s len%%8=%s %s" % (op, "z" if inplace else "", n % 8 if n else "empty", s))


def step(m, rng, mx):
    d = rng.randrange(8)
    live = sorted(m.s)
    if len(live) < 4 or rng.random() < 0.18:
        make(m, rng, d, rng.choice([0, rng.randint(1, 8), rng.randint(1, mx), 8 * rng.randint(0, mx // 8)]))
        return
    a, b = rng.choice(live), rng.choice(live)
    sg, x = m.s[a]
    n = len(x)
    r = rng.random()
    if r < 0.17:
        m.emit("out %d" % a, outs(m.s[a]), "out %s len%%8=%s" % (sg, n % 8 if n else "empty"))
    elif r < 0.25:
        if rng.random() < 0.5 and n:
            # a neighbour that differs in one bit, or not at all
            i = rng.randrange(n)
            y = x[:i] + ("1" if x[i] == "0" else "0") + x[i + 1:] if rng.random() < 0.7 else x
            m.s[d] = ("+", y)
            m.emit("bin %d =%s" % (d, y))
            b = d
            if d == a:
                x, sg = y, "+"
        m.emit("eq %d %d" % (a, b), " =%d" % (m.s[a] == m.s[b]), "eq %d len%%8=%s" % (m.s[a] == m.s[b], n % 8))
    elif r < 0.55:
        op = rng.choice(["not", "rot", "copy", "shift", "shiftr", "shifti", "lengthen", "shorten"])
        k = rng.choice([0, rng.randint(-9, 9), rng.randint(-n - 5, n + 5), 8 * rng.randint(-3, 3), n, -n, rng.randint(-3 * n - 1, 3 * n + 1)])
        if op == "shorten" or (op == "shifti" and k < 0):
            k = max(-n, min(n, k))
        if op in ("lengthen", "shifti") and abs(k) + n > 3 * mx:
            k = rng.randint(-4, 4) if n >= 4 else rng.randint(0, 4)
        unary(m, rng, op, d, a, k, False)
    elif r < 0.8:
        op = rng.choice(["not", "rot", "shift", "shiftr", "shifti", "lengthen", "shorten"])
        k = rng.choice([0, rng.randint(-9, 9), rng.randint(-n - 5, n + 5), 8 * rng.randint(-3, 3), rng.randint(-3 * n - 1, 3 * n + 1)])
        if op == "shorten" or (op == "shifti" and k < 0):
            k = max(-n, min(n, k))
        if op in ("lengthen", "shifti") and abs(k) + n > 3 * mx:
            k = rng.randint(-4, 4) if n >= 4 else rng.randint(0, 4)
        unary(m, rng, op, a, a, k, True)
    elif r < 0.88:
        op = rng.choice(["or", "and"])
        y = m.s[b][1]
        res = bitop(x, y, (lambda p, q: p or q) if op == "or" else (lambda p, q: p and q))
        m.s[d] = ("+", res)
        m.emit("%s %d %d %d" % (op, d, a, b), "", "%s %s len%%8=%d,%d" % (op, "lt" if n < len(y) else "eq" if n == len(y) else "gt", n % 8, len(y) % 8))
    elif r < 0.96:
        ops = [rng.choice(live) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.5:
            ops = [o for o in ops if o != a]
            if ops:
                m.s[a] = (sg, x + "".join(m.s[o][1] for o in ops))
                m.emit("concatz %d %s" % (a, " ".join(map(str, ops))), "", "concatz %d len%%8=%d" % (len(ops), n % 8))
        else:
            m.s[d] = (sg, x + "".join(m.s[o][1] for o in ops))
            m.emit(("concat %d %d " % (d, a) + " ".join(map(str, ops))).strip(), "", "concat %d len%%8=%d" % (len(ops), n % 8))
        big = [i for i in m.s if len(m.s[i][1]) > 3 * mx]
        for i in big:
            del m.s[i]
            m.emit("free %d" % i)
    else:
        if n and b != a:
            was = len(m.s[b][1])
            m.s[b] = m.s[a]
            m.emit("cpy %d %d" % (b, a), "", "cpy %s len%%8=%d" % ("shrink" if was > n else "grow", n % 8))


def chain(case):
    rng = random.Random(case["seed"])
    m = M()
    while len(m.lines) < case["ops"]:
        step(m, rng, case["max"])
    return m


def sweep(case):
    """every operation on every length of a range, with every kind of amount"""
    rng = random.Random(case["seed"])
    m = M()
    for n in range(case["lo"], case["hi"]):
        for how in ("bin", "raw", "vec", "int", "intlen", "negint", "neglen", "hex", "new"):
            make(m, rng, 0, n, how)
            m.emit("out 0", outs(m.s[0]), "out sweep %d" % n)
        for _ in range(2):
            make(m, rng, 0, n, rng.choice(["bin", "raw", "neglen"]))
            for op in ("not", "rot", "copy"):
                unary(m, rng, op, 1, 0, 0, False)
                m.emit("out 1", outs(m.s[1]))
            for k in sorted(set([0, 1, -1, 7, -7, 8, -8, 9, -9, n, -n, n - 1, 1 - n, n + 1, -n - 1, 2 * n, -2 * n, 2 * n + 3, -2 * n - 3])):
                for op in UN:
                    if (op == "shorten" or op == "shifti" and k < 0) and abs(k) > n:
                        continue
                    unary(m, rng, op, 1, 0, k, False)
                    unary(m, rng, "copy", 2, 0, 0, False)
                    unary(m, rng, op, 2, 2, k, True)
                    m.emit("out 1", outs(m.s[1]))
                    # what was cut off must not come back
                    unary(m, rng, "lengthen", 2, 2, -9, True)
                    m.emit("out 2", outs(m.s[2]))
            for i in range(n):
                x = m.s[0][1]
                y = x[:i] + ("1" if x[i] == "0" else "0") + x[i + 1:]
                m.s[3] = (m.s[0][0], y) if m.s[0][0] == "+" else ("+", y)
                m.emit("bin 3 =%s" % y)
                m.emit("eq 0 3", " =0", "eq sweep")
    return m


def run(case, out):
    m = chain(case) if case["kind"] == "chain" else sweep(case)
    p = subprocess.run([exe(case["variant"])], input="\n".join(m.lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=300, env=ENV)
    got = p.stdout.split("\n")
    for i, (line, (ret, slots)) in enumerate(zip(m.lines, m.want)):
        if i >= len(got) or " |" not in got[i]:
            err = p.stderr[-500:]
            out.bad("crash", "%s with %s: exit %s %s" % (line[:120], m.want[i - 1][1] if i else {}, p.returncode, err))
            return
        want = line.split()[0] + ret + " |" + "".join(" %d%s%s" % (k, v[0], v[1]) for k, v in sorted(slots.items()))
        out.n += 1
        if got[i] != want:
            before = m.want[i - 1][1] if i else {}
            used = {t: before.get(int(t)) for t in line.split()[1:4] if t.isdigit() and int(t) < 8}
            w, g = want.split(" |"), got[i].split(" |")
            ws, gs = w[1].split(), g[1].split()
            diff = [(x, y) for x, y in zip(ws, gs) if x != y][:2] if len(ws) == len(gs) else "slots"
            out.bad("model", "op %s on %s: returned %s, expected %s; slots expected/observed %s" % (line[:80], str(used)[:200], g[0][:120], w[0][:120], str(diff)[:200]))
            return
        if m.sig[i]:
            out.sig.append(m.sig[i])
    out.inc("ops_" + case["variant"], len(m.lines))
    if p.returncode or got[len(m.lines)] != "end":
        out.bad("crash", "at the end: exit %s %s" % (p.returncode, p.stderr[-400:]))
    out.sample = m.lines[-1][:100] + " -> " + got[len(m.lines) - 1][:120]
