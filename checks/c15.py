"""C15: the invalid-curve set covers every required prime once."""
import math
from vf import audit, auditcheck as A, ec, gp, run as R, workload as W

RULE = ("one distinct observation per (field kind, size, threads, kind of range, number of primes, "
        "grouping of primes into curves, output order)")
ASSUME = ["ranges whose primes all divide the order of some curve with the given field and a (others never end, by design)"]
MIN_DISTINCT = 60
CODES = ["field", "coeff", "nonsing", "order", "gen", "pt", "oracle", "shape", "json", "crash", "meta"]


def setup():
    A.setup()


def cases(tier, rng):
    n = 420 if tier == "quick" else 4000
    cs = []
    for _ in range(n):
        field = W.pick(rng, [("fp", 70), ("f2m", 30)])
        bits = rng.randint(7, 22) if field == "fp" else rng.randint(8, 18)
        lines, f, a, b = W.curve_input(rng, field, bits)
        q = f if field == "fp" else 1 << bits
        # (j = 0 over p = 2 mod 3: every b gives the order p + 1, so such a search never ends)
        while q < 100 or (field == "fp" and a % f == 0):
            lines, f, a, b = W.curve_input(rng, field, bits)
            q = f if field == "fp" else 1 << bits
        lim = max(3, math.isqrt(q) // 2)
        kind = W.pick(rng, [("default", 40), ("one", 12), ("closed", 30), ("open", 12), ("empty", 4), ("wide", 6)])
        if kind == "wide" and lim < 79:
            kind = "closed"
        if kind == "default":
            opt = "-i"
        elif kind == "one":
            opt = "-i%d" % rng.randint(0, lim // 2)
        elif kind == "closed":
            lo = rng.randint(0, max(1, lim // 2))
            opt = "-i%d-%d" % (lo, max(1, rng.randint(lo, min(lim, lo + 60))))
        elif kind == "wide":    # tens of primes
            opt = "-i%d-%d" % (rng.randint(0, 9), min(lim, rng.choice([79, 80, 97, 150, 200, 310])))
        elif kind == "open":
            if bits < 14:
                opt = "-i%d-" % rng.randint(0, 3)
            else:
                opt = "-i%d-" % rng.randint(0, 7)
        else:
            opt = rng.choice(["-i8-10", "-i24-28", "-i9-5"])
        th = W.pick(rng, [(1, 30), (2, 15), (3, 15), (4, 15), (8, 15), (16, 10)])
        args = ["--" + field, opt] + (["--threads=%d" % th] if th > 1 or rng.random() < .3 else [])
        env = {}
        if th > 1 and rng.random() < 0.6:
            env["VF_DELAY"] = "%d:%d" % (rng.getrandbits(30), rng.choice([50, 500, 3000]))
        if rng.random() < 0.15 and q > 1000:    # (small fields might have no cyclic curve of some order)
            args.append("-u")
        if rng.random() < 0.15 and field == "fp" and bits >= 10:    # (a random small curve might have no answer)
            args.append("-r")
            lines = []
        args.append(str(bits))
        cs.append({"kind": kind, "spec": {"field": field, "bits": bits, "points": "any", "count": -1}, "args": args,
                   "stdin": "\n".join(lines) + "\n", "seed": rng.getrandbits(40), "weight": bits * 3, "env": env,
                   "opt": opt[2:], "given": [f, a, b] if lines else None, "threads": th, "unique": "-u" in args})
    return cs


def primes_from(lo, hi):
    return [x for x in range(max(2, lo), hi + 1) if ec.is_prime(x)]


def covered(opt, N, got):
    """is `got` (sorted) the set of primes the option asks for?"""
    if opt and "-" not in opt:
        x = max(2, int(opt))
        while not ec.is_prime(x):
            x += 1
        return got == [x], [x]
    if opt and not opt.endswith("-"):
        lo, hi = map(int, opt.split("-"))
        want = primes_from(lo, hi)
        return got == want, want
    lo = max(2, int(opt[:-1])) if opt else 2
    if not got:
        return False, "primes from %d" % lo
    want = primes_from(lo, got[-1])
    prod = 1
    for x in got:
        prod *= x
    less = prod
    for x in got[-2:]:
        less //= x
    return got == want and prod > N * N and less <= N * N, "primes from %d while the product is at most N^2" % lo


def possible(case):
    """can the search end: over a small field, is there a curve for every prime that has to be covered?"""
    if not case["given"] or not case["given"][0] or case["spec"]["field"] != "fp" or case["given"][0] > 4096:
        return True
    p, a, b = case["given"]
    lim = case["opt"]
    ords = gp.vec(gp.q("my(S=List());for(b=0,%d,if((4*%d^3+27*b^2)%%%d,my(E=ellinit([%d,b],%d));if(%d||#ellgroup(E)<2,"
                       "listput(S,ellcard(E)))));vector(#S,i,S[i])" % (p - 1, a, p, a, p, not case["unique"])))
    if lim and not lim.endswith("-"):
        want = covered(lim, 0, [])[1]
    else:
        n = int(gp.q("my(E=ellinit([%d,%d],%d));ellcard(E)" % (a, b, p)))
        prod, want, x = 1, [], max(2, int(lim[:-1])) if lim else 2
        while prod <= n * n:
            if ec.is_prime(x):
                want.append(x)
                prod *= x
            x += 1
    return all(any(int(n) % x == 0 for n in ords) for x in want)


def judge(case, r, out, codes, timeout_gp=120):
    where = "[ecgen %s, seed %s, %s] %s" % (" ".join(case["args"]), case["seed"], case.get("env"), case["stdin"].split())
    pr, curves = audit.audit_doc(r, case["spec"], expect=-1)
    out.n += max(1, len(curves))
    out.inc("curves", len(curves))
    for code, det in pr:
        if A.match(code, codes):
            out.bad(code, det + " " + where)
    if pr or not curves:
        if not curves and not pr:
            out.bad("nothing", "exit %s, no curve: %s %s" % (r.rc, r.err[-100:], where))
        return
    o = curves[0]
    if case["given"]:
        f, a, b = case["given"]
        ok = (o.p == f and o.a == a % f and o.b == b % f) if o.prime else (o.a == a and o.b == b)
        if not ok:
            out.bad("original", "the first curve is not the given one " + where)
    groups = {}
    for c in curves[1:]:
        if (c.p != o.p if o.prime else c.poly != o.poly) or c.a != o.a:
            out.bad("same", "other field or a " + where)
        if c.b == o.b and False:
            out.bad("same", "the original curve again " + where)
        ords = sorted({p[1] for g in c.gens for p in g[3]})
        for x in ords:
            if c.N % x:
                out.bad("divides", "a point of order %d on a curve of order %d %s" % (x, c.N, where))
        if case["unique"] and len(c.gens) != 1:
            out.bad("unique", "%d generators with unique %s" % (len(c.gens), where))
        key = repr(sorted((k, str(v)) for k, v in c.d.items()))
        groups.setdefault(key, [0, ords])[0] += 1
    got = []
    for k, (n, ords) in groups.items():
        if n != len(ords):
            out.bad("once", "a curve listing points of orders %s is there %d times %s" % (ords, n, where))
        got += ords
    got.sort()
    if len(set(got)) != len(got):
        out.bad("once", "some prime is covered twice: %s %s" % (got, where))
    if any(not ec.is_prime(x) for x in got):
        out.bad("primes", "not all prime: %s %s" % (got, where))
    if case["kind"] == "empty" or (case["opt"] and covered(case["opt"], o.N, [])[1] == []):
        if got:
            out.bad("primes", "%s for an empty range %s" % (got, where))
    else:
        ok, want = covered(case["opt"], o.N, got)
        if not ok:
            out.bad("primes", "covers %s, order %d, asked for %s %s" % (got, o.N, want, where))
        if r.rc != 0:
            out.bad("status", "exit %s %s" % (r.rc, where))
    out.inc("primes", len(got))
    out.sig.append("%s %s %s %s %s %s" % (case["spec"]["field"], case["spec"]["bits"], case["threads"], case["kind"], len(got),
                                     [v[1] for v in groups.values()]))
    out.sample = {"args": " ".join(case["args"]), "original_order": hex(o.N), "primes": got,
                  "grouping": [v[1] for v in groups.values()][:8]}


def run(case, out):
    r = R.run(case["args"], case["stdin"], case["seed"], "plain", 60, case.get("env"))
    if r.hang:
        r = R.run(case["args"], case["stdin"], case["seed"], "plain", 120, case.get("env"))
        if r.hang and not possible(case):
            out.inc("impossible")
            return
        if r.hang:
            out.bad("hang", "does not end [ecgen %s, seed %s] %s" % (" ".join(case["args"]), case["seed"], case["stdin"].split()))
            return
    judge(case, r, out, CODES)
