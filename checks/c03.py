"""C03: the listed points have their stated orders, and are the ones asked for."""
from vf import auditcheck as A, ec, workload as W

RULE = A.RULE
CODES = ["pt", "oracle"]
MIN_DISTINCT = 100


def setup():
    A.setup()


def force_points(rng, c):
    """give the case a points option if it has none or the default"""
    if "points" not in c["spec"]:
        W_args = []
        W.points_opt(rng, c["spec"], W_args)
        c["args"][:0] = W_args
    return c


def smooth_order(rng):
    """supersingular curve over p = k 2^e 3^f - 1: an order with many repeated factors"""
    while True:
        k, e, f = rng.choice([1, 1, 3, 5, 7, 11, 15, 35]), rng.choice([3, 8, 13, 19, 31, rng.randint(2, 64)]), rng.choice([0, 0, 0, 1, 3, 10, 20])
        p = k * 2**e * 3**f - 1
        if 5 <= p < 2**120 and ec.is_prime(p):
            break
    bits = p.bit_length()
    spec, args = {"field": "fp", "bits": bits}, ["--fp", "--supersingular"]
    mode = rng.choice(["all", "nonprime", "all", "prime"])
    spec["points"] = mode
    args += ["--points=" + mode, str(bits)]
    return W.case("smoothorder", args, spec, "%d\n" % p, seed=rng.getrandbits(40), weight=bits * 4)


def cases(tier, rng):
    n = 1100 if tier == "quick" else 12000
    cs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            c = W.w_input(rng, "fp", kind="split", bits=rng.randint(3, 30))
        elif r < 0.55:
            c = W.w_input(rng, bits=rng.randint(3, 26))
        elif r < 0.65:
            c = W.w_random(rng, constraint="smooth")
        elif r < 0.72:
            c = W.w_random(rng, constraint="cofactor")
        elif r < 0.82:
            c = W.w_cm(rng, maxbits=56)
        elif r < 0.87:
            c = smooth_order(rng)
        else:
            c = W.mixed(rng, 1)[0]
        for _ in range(3):
            c = force_points(rng, c)
        cs.append(c)
    cs += [W.w_std(rng, 256 if tier == "quick" else 521) for _ in range(n // 50)]
    return cs


def run(case, out):
    A.audit_case(case, out, CODES)
