"""C24: copies are deep and independent; divisor sets are exact."""
import os, random, re, subprocess
from vf import build, ec, workload as W

RULE = "one distinct observation per (operation, kind of object, kind of source) in the pool, and per factorisation shape of an integer"
MIN_DISTINCT = 150
ASSUME = ["objects are built and compared member by member through the structures in types.h; a spoilt object is not copied again"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:max_free_fill_size=4096:free_fill_byte=165", UBSAN_OPTIONS="print_stacktrace=1")


def exe(v):
    return build.link(v, "objs", ["objs.c"], with_main=False)


def setup():
    exe("plain")
    exe("asan")


def cases(tier, rng):
    n = 300 if tier == "quick" else 6000
    cs = [{"kind": "pool", "seed": rng.getrandbits(50), "ops": 500, "variant": "asan" if i % 3 else "plain"} for i in range(n)]
    for i in range(40 if tier == "quick" else 800):
        cs.append({"kind": "div", "seed": rng.getrandbits(40), "n": 60, "variant": "asan" if i % 4 == 0 else "plain"})
    for lo in range(1, 3000 if tier == "quick" else 60000, 500):
        cs.append({"kind": "range", "lo": lo, "variant": "plain"})
    return cs


def factor_list(rng):
    """a random factorisation: {p: e}"""
    r = rng.random()
    if r < 0.1:
        return {2: rng.randint(1, 140)}
    if r < 0.2:
        return {W.rand_prime(rng, rng.randint(3, 40)): rng.randint(1, 12)}
    if r < 0.3:
        return {W.rand_prime(rng, rng.randint(3, 200)): 1}
    f = {}
    d = 1
    for _ in range(rng.randint(1, 11)):
        p = rng.choice([2, 3, 5, 7, 11, 13]) if rng.random() < 0.5 else W.rand_prime(rng, rng.randint(3, 20) if max(f, default=0) > 1 << 24 else rng.randint(3, 48))
        e = rng.choice([1, 1, 1, 2, 3, 5])
        if d * (e + 1) > 4000 or p in f:
            continue
        d *= e + 1
        f[p] = e
    return f or {3: 1}


def small(n):
    f, p = {}, 2
    while n > 1:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    return f


def run(case, out):
    v = case["variant"]
    if case["kind"] == "pool":
        p = subprocess.run([exe(v), "pool", str(case["seed"]), str(case["ops"])], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=300, env=ENV)
        lines = p.stdout.split("\n")
        for l in lines:
            if l.startswith("op "):
                out.sig.append(l)
                out.inc(l)
                out.n += 1
            elif l.startswith("live "):
                out.inc("comparisons", int(l.split()[1]))
            elif l.startswith("BAD"):
                out.bad("copy", l[:500])
        if p.returncode and not out.problems or "end" not in lines:
            if not out.problems:
                m = re.search(r"ERROR: AddressSanitizer: .*|runtime error: .*", p.stderr)
                fr = re.findall(r"#\d+ \S+ in (\S+) \S*/(src/\S+)", p.stderr)[:5]
                out.bad("memory", "exit %s after '%s': %s %s" % (p.returncode, [l for l in lines if l.startswith("op")][-1:], m.group(0) if m else p.stderr[-200:], fr))
        out.sample = lines[-6:-2]
        return
    if case["kind"] == "range":
        fs = [small(n) for n in range(case["lo"], case["lo"] + 500)]
    else:
        rng = random.Random(case["seed"])
        fs = [factor_list(rng) for _ in range(case["n"])]
    ns = []
    for f in fs:
        n = 1
        for p, e in f.items():
            n *= p**e
        ns.append(n)
    p = subprocess.run([exe(v), "div"], input="".join("%d\n" % n for n in ns), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=300, env=ENV)
    got = p.stdout.split("\n")
    for i, (n, f) in enumerate(zip(ns, fs)):
        if i >= len(got) or not got[i].startswith(" P"):
            out.bad("divisors", "%d = %s: exit %s %s" % (n, f, p.returncode, p.stderr[-300:]))
            return
        m = re.fullmatch(r" P(.*) N(.*) A(.*) (same|touched)", got[i])
        P, N, A = [list(map(int, x.split())) for x in m.groups()[:3]] if "type" not in got[i] else [None] * 3
        ds = [1]
        for q, e in f.items():
            ds = [d * q**k for d in ds for k in range(e + 1)]
        al = sorted(d for d in ds if d > 1)
        pr = sorted(f)
        if P is None or m.group(4) != "same":
            out.bad("divisors", "%d: %s" % (n, got[i][:200]))
            continue
        for nm, g, w in (("prime", P, pr), ("nonprime", N, [d for d in al if d not in f]), ("all", A, al)):
            out.n += 1
            if sorted(g) != w:
                out.bad("divisors", "%s divisors of %d = %s: %s, expected %s" % (nm, n, f, str(sorted(g))[:150], str(w)[:150]))
        out.sig.append("div %s" % sorted(f.values(), reverse=True))
        out.sample = "%d -> %s" % (n, got[i][:100])
