"""C01: nonsingular curve over a valid field with its true order, every method."""
from vf import auditcheck as A, workload as W

RULE = A.RULE
CODES = ["field", "coeff", "nonsing", "order", "oracle"]
MIN_DISTINCT = 60


def setup():
    A.setup()


def cases(tier, rng):
    n = 640 if tier == "quick" else 9000
    cs = W.mixed(rng, n)
    # every prime and binary field size of the small range at least once
    for b in range(3, 41 if tier == "quick" else 101):
        for f in ("fp", "f2m"):
            cs.append(W.case("random", ["--" + f, "-r", "-c2", str(b)],
                             {"field": f, "bits": b, "rand_field": True, "count": 2}, seed=rng.getrandbits(40)))
    cs += [W.w_big(rng, 256 if tier == "quick" else 521) for _ in range(n // 18)]
    return cs


def run(case, out):
    A.audit_case(case, out, CODES)
