"""C10: NUMS curves are the minimal ones of the procedure, always the same."""
import hashlib
from vf import auditcheck as A, ec, gp, workload as W

RULE = "one distinct observation per (size, options) of a curve compared with the independently computed one"
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "count", "crash", "json", "shape", "con"]
MIN_DISTINCT = 60
ASSUME = ["sizes for which such a curve exists and is found in reasonable time (not 7 bits, not more than 64 bits)"]


def setup():
    A.setup()


def cases(tier, rng):
    cs = []
    top = 49 if tier == "quick" else 65
    for bits in [3, 4, 5, 6] + list(range(8, top)):
        for k in range(4 if bits < 30 else 1 if tier == "quick" else 3):
            c = W.w_nums(rng, bits=bits)
            if k == 1:          # a second curve of a run is the first again
                c["args"] = [a for a in c["args"] if not a.startswith("-c")]
                c["args"].insert(1, "-c3")
                c["spec"]["count"] = 3
            if rng.random() < 0.3:
                for o in rng.sample(["-p", "-u"], 1):
                    c["args"].insert(0, o)
            cs.append(c)
    return cs


def expected(bits):
    c = 1
    while not ec.is_prime((1 << bits) - c):
        c += 4
    p = (1 << bits) - c
    b, N = gp.vec(gp.q("vfnums(%d)" % p, 300))
    x = 1
    while True:
        v = (x**3 - 3 * x + b) % p
        if v == 0:
            y = 0
            break
        if pow(v, (p - 1) // 2, p) == 1:
            y = pow(v, (p + 1) // 4, p) if p % 4 == 3 else int(gp.q("lift(sqrt(Mod(%d,%d)))" % (v, p)))
            y = min(y, p - y)
            break
        x += 1
    return p, b, N, x, y


def run(case, out):
    r, curves, pr = A.audit_case(case, out, CODES, timeout=240)
    where = " [ecgen %s, seed %s]" % (" ".join(case["args"]), case["seed"])
    if r.hang:
        return
    if r.rc != 0:
        out.bad("fail", "exit %s %s" % (r.rc, r.err[-150:]) + where)
    if not curves:
        return
    p, b, N, x, y = expected(case["spec"]["bits"])
    for c in curves:
        got = (c.p, c.a, c.b, c.N)
        if got != (p, p - 3, b, N):
            out.bad("minimal", "got p=%#x a=%#x b=%#x N=%#x, expected p=%#x b=%#x N=%#x" % (got + (p, b, N)) + where)
            continue
        if len(c.gens) != 1 or c.gens[0][0] != (x, y):
            out.bad("generator", "%s, expected %s" % ([g[0] for g in c.gens], (x, y)) + where)
        out.sig.append("%d %s" % (case["spec"]["bits"], sorted(case["args"])))
