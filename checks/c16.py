"""C16: metadata."""
from vf import auditcheck as A, workload as W

RULE = A.RULE
CODES = ["meta"]
MIN_DISTINCT = 100


def setup():
    A.setup()


def cases(tier, rng):
    n = 1200 if tier == "quick" else 12000
    cs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.25:
            c = W.w_input(rng, "fp", bits=rng.randint(3, 40), kind=rng.choice(["any", "j0", "j1728", "split", "edge"]))
        elif r < 0.4:
            c = W.w_input(rng, "f2m")
        elif r < 0.5:
            c = W.w_anomalous(rng)
        elif r < 0.58:
            c = W.w_supersingular(rng)
        elif r < 0.66:
            c = W.w_twist(rng)
        else:
            c = W.mixed(rng, 1)[0]
        if not c["spec"].get("metadata") and rng.random() < 0.9:
            c["args"].insert(0, "--metadata")
            c["spec"]["metadata"] = True
        cs.append(c)
    return cs


def run(case, out):
    r, curves, pr = A.audit_case(case, out, CODES)
    for c in curves:
        if c.meta and c.prime:
            out.sig.append("D%s f%s k%s" % (c.meta["cm_discriminant"], c.meta["conductor"], c.meta["embedding_degree"]))
