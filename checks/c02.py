"""C02: generators have their stated orders and generate the whole group."""
import random
from vf import auditcheck as A, workload as W

RULE = A.RULE
CODES = ["gen", "oracle"]
MIN_DISTINCT = 60


def setup():
    A.setup()


def cases(tier, rng):
    n = 800 if tier == "quick" else 9000
    cs = W.mixed(rng, n // 2)
    for _ in range(n):
        r = rng.random()
        if r < 0.45:    # full two-torsion: mostly two generators
            cs.append(W.w_input(rng, "fp", kind="split", hi=96))
        elif r < 0.6:
            cs.append(W.w_input(rng, "fp", kind=rng.choice(["j0", "j1728"]), bits=rng.randint(3, 40)))
        elif r < 0.75:
            cs.append(W.w_random(rng, constraint="cofactor"))
        elif r < 0.85:
            cs.append(W.w_constrained_input(rng))
        else:
            cs.append(W.w_input(rng, bits=rng.randint(3, 9)))
    cs += [W.w_big(rng, 192) for _ in range(n // 50)]
    cs += [W.w_std(rng, 256 if tier == "quick" else 521) for _ in range(n // 60)]
    return cs


def run(case, out):
    A.audit_case(case, out, CODES)
