"""C14: the twist method."""
from vf import auditcheck as A, ec, gp, workload as W
from vf.run import Curve

RULE = A.RULE
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "con", "count"]
MIN_DISTINCT = 60


def setup():
    A.setup()


def cases(tier, rng):
    n = 800 if tier == "quick" else 9000
    cs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            c = W.w_input(rng, method="twist", hi=96,
                          kind=rng.choice([None, None, "j0", "j1728", "split", "edge"]) if rng.random() < 0.6 else None)
        elif r < 0.7:
            c = W.w_input(rng, "f2m", method="twist", hi=96)
        elif r < 0.75:     # the Koblitz path
            b = rng.randint(4, 60)
            f = rng.choice(["fp", "f2m"])
            a = rng.choice([0, 1])
            c = W.case("ktwist", ["--" + f, "-r", "--twist", "-K%d" % a, str(b)], {"field": f, "bits": b}, seed=rng.getrandbits(40))
        elif r < 0.8:
            c = W.w_random(rng, constraint="none")
            if "--twist" not in c["args"]:
                c["args"].insert(0, "--twist")
        else:
            c = W.w_constrained_input(rng)
            if "--twist" not in c["args"]:
                c["args"].insert(0, "--twist")
        cs.append(c)
    return cs


def is_twist(c, f, a, b):
    """problems with c being a quadratic twist of the curve (f, a, b)"""
    bad = []
    if c.prime:
        p = f
        if c.p != p:
            return ["field"]
        card = int(gp.q("ellcard(ellinit([%d,%d],%d))" % (a, b, p)))
        a, b = a % p, b % p
        if (a == 0) != (c.a == 0) or (b == 0) != (c.b == 0) or (pow(a, 3, p) * c.b**2 - pow(c.a, 3, p) * b * b) % p:
            bad.append("j-invariant")
        elif a and b:
            d = c.b * pow(b, -1, p) * a * pow(c.a, -1, p) % p
            if pow(d, (p - 1) // 2, p) == 1:
                bad.append("isomorphic to the given curve")
        q = p
    else:
        q = 1 << c.m
        poly = 1 << c.m | 1
        for e in f:
            if e:
                poly |= 1 << e
        if c.poly != poly:
            return ["field"]
        if c.b != b:
            bad.append("j-invariant")
        card = int(gp.q("vftw=%s;ellcard(ellinit([1,vfel(%d,vftw),0,0,vfel(%d,vftw)],vftw))" % (c.gp_field(), a, b))
                   if False else gp.q("my(u=%s);ellcard(ellinit([1,vfel(%d,u),0,0,vfel(%d,u)],u))" % (c.gp_field(), a, b)))
    if card + c.N != 2 * q + 2:
        bad.append("orders %d + %d != 2q+2, q = %d" % (card, c.N, q))
    return bad


def run(case, out):
    r, curves, pr = A.audit_case(case, out, CODES)
    if r.hang:
        return
    given = case.get("given") or []
    if case["kind"] == "twist":
        if r.rc != 0:
            out.bad("fail", "exit %s: %s [ecgen %s]" % (r.rc, r.err[-150:], " ".join(case["args"])))
        for c, (f, a, b) in zip(curves, given):
            for w in is_twist(c, f, a, b):
                out.bad("twist", "%s: given %s [ecgen %s seed %s]" % (w, (f, a, b), " ".join(case["args"]), case["seed"]))
    elif case["kind"] == "coninput":
        # each emitted curve is a twist of one of the candidates, in their order
        i = 0
        for c in curves:
            while i < len(given) and is_twist(c, *given[i]):
                i += 1
            if i >= len(given):
                out.bad("twist", "not a twist of any (remaining) given curve [ecgen %s seed %s]" % (" ".join(case["args"]), case["seed"]))
                break
            i += 1
