"""C06: orders of Koblitz curves."""
from checks import c05
from vf import auditcheck as A, gp, run as R, workload as W

RULE = ("one distinct observation per (degree, coefficient) looked up in the table, per degree and coefficient whose order was "
        "printed by the program, and per non-Koblitz or twisted curve of a tabulated size audited")
MIN_DISTINCT = 100
ASSUME = []
TABLE = [(101, 1), (103, 0), (107, 0), (107, 1), (109, 1), (113, 1), (131, 0), (163, 1), (233, 0), (239, 0), (277, 0), (283, 0),
         (283, 1), (311, 1), (331, 1), (347, 1), (349, 0), (359, 1), (409, 0), (571, 0)]


def lucas(m, a):
    mu = 1 if a else -1
    v0, v1 = 2, mu
    for _ in range(m - 1):
        v0, v1 = v1, mu * v1 - 2 * v0
    return (1 << m) + 1 - v1


def setup():
    c05.setup()


def cases(tier, rng):
    q = tier == "quick"
    cs = [{"kind": "table", "lo": lo, "hi": lo + 499, "weight": 500} for lo in range(2, 10002, 500)]
    todo = [(m, a) for m in range(2, 80) for a in (0, 1)]
    todo += rng.sample([(m, a) for m in range(80, 140) for a in (0, 1) if (m, a) not in TABLE], 30 if q else 120)
    for m, a in todo + TABLE:
        args = ["--f2m", "-r", "--koblitz" + ("" if a == 0 and rng.random() < 0.5 else "=%d" % a), str(m)]
        pts = "none" if m > 24 else "prime"
        args.insert(1, "--points=" + pts)
        rng.random() < 0.5 and args.insert(1, "--metadata")
        cs.append({"kind": "run", "m": m, "a": a, "args": args, "seed": rng.getrandbits(40), "weight": 1000 + m})
    # table look-up must not apply: prime fields of tabulated sizes, twists
    sizes = sorted({m for m, a in TABLE})
    for m, a in TABLE:
        if a == 0 or m <= 113:
            cs.append({"kind": "fp", "m": m, "a": a, "seed": rng.getrandbits(40), "weight": 3000 + m})
        if m < 340:    # those of more bits have twists with orders that are hard to factor
            cs.append({"kind": "twist", "m": m, "a": a, "seed": rng.getrandbits(40), "weight": 2000 + m})
    for m, a in todo[:60:3]:
        cs.append({"kind": "twist", "m": m, "a": a, "seed": rng.getrandbits(40), "weight": m})
    for _ in range(30 if q else 200):
        cs.append({"kind": "fp", "m": rng.randint(5, 60), "a": rng.randint(0, 1), "seed": rng.getrandbits(40), "weight": 100})
    return cs


def run(case, out):
    kind, sd = case["kind"], case.get("seed")
    if kind == "table":
        p = c05.query("koblitz", case["lo"], case["hi"])
        n = 0
        for l in p.stdout.splitlines():
            m, a, o = l.split()
            n += 1
            out.n += 1
            if o != "-":
                out.inc("tabulated")
                out.sig.append("tab %s %s" % (m, a))
                if int(o) != lucas(int(m), int(a)):
                    out.bad("order.table", "m=%s a=%s: looked up %s, is %d" % (m, a, o, lucas(int(m), int(a))))
        if p.returncode or n != 2 * (case["hi"] - case["lo"] + 1):
            out.bad("fail", "exit %s after %d look-ups %s" % (p.returncode, n, p.stderr[-200:]))
        return
    m, a = case["m"], case["a"]
    if kind == "run":
        args, stdin = case["args"], ""
        want = lucas(m, a)
    elif kind == "twist":
        # the twist of the Koblitz curve with coefficient a has the order of the other one
        pol = c05.query("fields", m, m).stdout.split(":")[1].split()
        ee = (pol[1:-1] + ["0", "0", "0"])[:3]
        args = ["--f2m", "--twist", "--points=none", str(m)]
        stdin = "\n".join([str(m)] + ee) + "\n%d\n1\n" % a
        want = 2 * ((1 << m) + 1) - lucas(m, a)
        if sd % 2:
            args.insert(0, "--koblitz=%d" % a)
            args.insert(0, "-r")
            stdin = ""
    else:
        # over a prime field: p with an order that is easily factored, nothing to do with the table
        if m <= 113:
            p, want = gp.vec(gp.q("my(p,E);setrand(%d);p=nextprime(2^%d+random(2^%d));if(p>=2^%d,p=precprime(2^%d-1));[p,ellcard(ellinit([%d,1],p))]" % (
                sd % (1 << 60) + 1, m - 1, m - 1, m, m, a)))
        else:
            p, want = gp.vec(gp.q(
                "my(p,N,n);setrand(%d);while(1,p=randomprime([2^%d,2^%d-1]);if(p%%3!=1,next);N=ellcard(ellinit([0,1],p));n=N;"
                "forprime(l=2,50,while(n%%l==0,n/=l));if(ispseudoprime(n),break));[p,N]" % (sd % (1 << 60) + 1, m - 1, m)))
        args = ["--fp", "--koblitz=%d" % a, "--points=none", str(m)]
        stdin = "%d\n" % p
    r = R.run(args, stdin, sd, "plain", 120)
    where = " [ecgen %s, seed %s]" % (" ".join(args), sd)
    out.inc("runs." + kind)
    if r.hang:
        out.inconclusive += 1
        return
    try:
        c, = [R.Curve(d) for d in R.parse(r.out)]
    except Exception as e:
        out.bad("doc", "exit %s, %s %s" % (r.rc, e, r.err[-150:]) + where)
        return
    out.n += 1
    if r.rc:
        out.bad("fail", "exit %s" % r.rc + where)
    if c.prime != (kind == "fp") or (c.prime and c.p != p) or (not c.prime and c.m != m):
        out.bad("field", "%s" % c.d["field"] + where)
    if kind != "twist" and (c.a, c.b) != (a, 1):
        out.bad("coeff", "a=%#x b=%#x" % (c.a, c.b) + where)
    if c.N != want:
        out.bad("order." + kind, "m=%d a=%d: %#x instead of %#x" % (m, a, c.N, want) + where)
    for g in c.gens:
        if g[1] * g[2] != c.N:
            out.bad("gen", "order %#x cofactor %#x" % g[1:3] + where)
    out.sig.append("%s %d %d %d gens" % (kind, m, a, len(c.gens)))
    out.sample = {"args": " ".join(args), "order": hex(c.N)}
