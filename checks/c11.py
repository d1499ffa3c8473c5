"""C11: complex multiplication yields a curve of exactly the requested order."""
from vf import auditcheck as A, run as R, workload as W

RULE = A.RULE + "; and per requested order"
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "count", "crash", "json", "shape"]
MIN_DISTINCT = 100
ASSUME = ["orders whose discriminant search ends quickly (no liveness claim)"]


def setup():
    A.setup()


def cases(tier, rng):
    n = 300 if tier == "quick" else 4000
    cs = [W.w_cm(rng) for _ in range(n)]
    for _ in range(n // 3):     # j = 0 and j = 1728 and small class numbers: small orders, all twists
        while True:
            fs = W.smooth_number(rng, rng.randint(6, 14))
            N = 1
            for f in fs:
                N *= f
            if len(fs) > 1 and N > 40:
                break
        spec = {"field": "fp", "order": N, "nofield": True}
        args = ["--fp", "-n" + W.num(rng, N)]
        W.common(rng, spec, args)
        spec["bits"] = max(8, N.bit_length() + rng.choice([0, 0, 1]))
        cs.append(W.case("cm", args + [str(spec["bits"])], spec, seed=rng.getrandbits(40), weight=10, factors=fs))
    for _ in range(n // 8):     # too large
        bits = rng.randint(8, 80)
        N = rng.getrandbits(bits + 1 + rng.randint(1, 60)) | 1 << (bits + 1)
        parts = [N]
        if rng.random() < 0.5:
            k = rng.choice([2, 3, 5, 6, 7, 12])
            parts = [N, k]
        cs.append(W.case("refuse", ["--fp", "-n" + ",".join(W.num(rng, x, rng.choice("dx")) for x in parts), str(bits)],
                         {"field": "fp", "bits": bits}, seed=rng.getrandbits(40)))
    return cs


def run(case, out):
    where = " [ecgen %s, seed %s]" % (" ".join(case["args"]), case["seed"])
    if case["kind"] == "refuse":
        r = R.run(case["args"], "", case["seed"], "plain", 10)
        out.n += 1
        if r.hang or r.rc == 0 or '"order"' in r.out:
            out.bad("size", "%s for an order larger than the size" % ("runs on" if r.hang else "exit %s" % r.rc) + where)
        out.sig.append("refused %s" % case["spec"]["bits"])
        return
    r, curves, pr = A.audit_case(case, out, CODES, timeout=20)
    if r.hang:
        return
    if r.rc != 0:
        out.bad("fail", "exit %s %s" % (r.rc, r.err[-150:]) + where)
    N = case["spec"]["order"]
    for c in curves:
        card = getattr(c, "info", {}).get("card")
        if c.N != N or (card is not None and card != N):
            out.bad("order", "stated %#x, true %s, asked for %#x" % (c.N, card, N) + where)
        out.sig.append("order %d" % N)
