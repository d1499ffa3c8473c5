"""C12: anomalous curves have p points, supersingular ones p+1."""
from vf import auditcheck as A, workload as W

RULE = A.RULE + "; and per (method, p mod 24)"
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "count"]
MIN_DISTINCT = 60


def setup():
    A.setup()


def cases(tier, rng):
    n = 700 if tier == "quick" else 8000
    cs = []
    for _ in range(n // 3):
        cs.append(W.w_anomalous(rng))
    for _ in range(n // 3):
        cs.append(W.w_supersingular(rng))
    res = [x for x in range(24) if x % 2 and x % 3]
    for i in range(n // 3):     # every residue class, given fields
        bits = rng.choice([5, 6, 7, 8, 10, 13, 16, 24, 40, 64])
        count = rng.choice([1, 1, 2, 3])
        ps = [W.rand_prime(rng, bits, rng.choice(res) if bits > 7 else None, 24 if bits > 7 else None)
              for _ in range(count)]
        spec = {"field": "fp", "bits": bits, "count": count}
        args = ["--fp", "--supersingular", "-c%d" % count]
        W.common(rng, spec, args, count=False)
        cs.append(W.case("supersingular", args + [str(bits)], spec, "\n".join(map(str, ps)) + "\n",
                         rng.getrandbits(40), given=[[p, None, None] for p in ps]))
    for p in [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103]:
        cs.append(W.case("supersingular", ["--fp", "--supersingular", "7"], {"field": "fp", "bits": 7}, "%d\n" % p,
                         rng.getrandbits(40), given=[[p, None, None]]))
    return cs


def run(case, out):
    r, curves, pr = A.audit_case(case, out, CODES)
    for i, c in enumerate(curves):
        want = c.p if case["kind"] == "anomalous" else c.p + 1
        card = getattr(c, "info", {}).get("card")
        if c.N != want or (card is not None and card != want):
            out.bad("method", "%s curve over p=%#x: stated order %#x, true %s [ecgen %s, seed %s]" % (
                case["kind"], c.p, c.N, card, " ".join(case["args"]), case["seed"]))
        if case.get("given") and i < len(case["given"]) and c.p != case["given"][i][0]:
            out.bad("field", "p=%#x, given %#x" % (c.p, case["given"][i][0]))
        out.sig.append("%s p mod 24 = %d" % (case["kind"], c.p % 24))
    if not r.hang and r.rc != 0:
        out.bad("fail", "exit %s, %d curves: %s [ecgen %s]" % (r.rc, len(curves), r.err[-150:], " ".join(case["args"])))
