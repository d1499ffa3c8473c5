"""C09: Brainpool curves are the ones their procedure derives from the seed."""
import os
from vf import auditcheck as A, run as R, seeds, workload as W
try:
    from vf.data_bp import SEEDS
except ImportError:
    SEEDS = []
try:
    from vf.data_bpwrap import SEEDS as WRAP
except ImportError:
    WRAP = []
try:
    from vf.data_bpidx import SEEDS as IDX
except ImportError:
    IDX = []

RULE = "one distinct observation per (variant, size, seed source, printed seed) of a curve compared with the model"
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "count", "crash", "json", "shape", "con"]
MIN_DISTINCT = 60
ASSUME = ["a candidate p equal to a prime hash value may be taken or passed over", "the generator is taken up to sign"]


def setup():
    A.setup()


def cases(tier, rng):
    n = 260 if tier == "quick" else 3000
    cs = [W.w_brainpool(rng, 44) for _ in range(n)]
    top = 195 if tier == "quick" else 400
    big = [x for x in SEEDS if x[1] < top]
    for rfc, bits, sd in rng.sample(big, min(10, len(big))) if tier == "quick" else big:
        src = rng.choice(["arg", "input"])
        alg = "--brainpool-rfc" if rfc else "--brainpool"
        sd = sd if rng.random() < 0.5 else sd.upper()
        cs.append(W.case("brainpool", ["--fp", "--points=none", alg + ("=" + sd if src == "arg" else ""), str(bits)],
                         {"field": "fp", "bits": bits, "points": "none", "prime": True, "rand_field": True, "light": True},
                         sd + "\n" if src == "input" else "", rng.getrandbits(40), 1000 + bits, seedsrc=src, seeds=[sd], rfc=rfc))
    # seeds at the end of their range: the blocks of a hash wrap around
    for rfc, bits, sd, secs in [x for x in WRAP if x[3] <= (3 if tier == "quick" else 30)] + ([] if tier != "quick" else
                                                                                              rng.sample([x for x in WRAP if 3 < x[3] < 10] or WRAP[:2], 2 if WRAP else 0)):
        cs.append(W.case("brainpool", ["--fp", "--points=none", ("--brainpool-rfc=" if rfc else "--brainpool=") + sd, str(bits)],
                         {"field": "fp", "bits": bits, "points": "none", "prime": True, "rand_field": True, "light": True},
                         "", rng.getrandbits(40), 2000 + secs, seedsrc="arg", seeds=[sd], rfc=rfc))
    # embedding degrees around the bound
    near = [x for x in IDX if 95 <= x[3] <= 105]
    for rfc, bits, sd, idx in near + rng.sample(IDX, min(len(IDX), 40 if tier == "quick" else 600)):
        cs.append(W.case("brainpool", ["--fp", ("--brainpool-rfc=" if rfc else "--brainpool=") + sd, str(bits)],
                         {"field": "fp", "bits": bits, "prime": True, "rand_field": True}, "", rng.getrandbits(40), bits,
                         seedsrc="arg", seeds=[sd], rfc=rfc))
    # the update wraps around
    for _ in range(n // 12):
        sd = "%040x" % ((1 << 160) - rng.randint(1, 40))
        rfc = rng.random() < 0.5
        bits = rng.randint(6, 32)
        cs.append(W.case("brainpool", ["--fp", ("--brainpool-rfc=" if rfc else "--brainpool=") + sd, str(bits)],
                         {"field": "fp", "bits": bits, "prime": True, "rand_field": True}, "", rng.getrandbits(40), bits,
                         seedsrc="arg", seeds=[sd], rfc=rfc))
    for _ in range(n // 8):    # refused seeds
        good = W.hexseed(rng)
        bad = rng.choice([good[:39], good + "0", good + "00", good[:rng.randint(1, 38)], good[:20] + "g" + good[21:], "xyz",
                          "0x" + good[:38], "-" + good[1:], good[:10] + "-" + good[11:], good * 2])
        alg = rng.choice(["--brainpool", "--brainpool-rfc"])
        if rng.random() < 0.5:
            cs.append(W.case("refuse", ["--fp", alg + "=" + bad, "12"], {"field": "fp", "bits": 12}, "", 1))
        else:
            then = rng.random() < 0.6
            cs.append(W.case("brainpool" if then else "refuse", ["--fp", alg, "14"],
                             {"field": "fp", "bits": 14, "prime": True, "rand_field": True},
                             bad + "\n" + (good + "\n" if then else ""), rng.getrandbits(40), 0, seedsrc="input", seeds=[good],
                             rfc=alg.endswith("rfc")))
    return cs


def run(case, out):
    where = " [ecgen %s, seed %s, %s]" % (" ".join(case["args"]), case["seed"], case["stdin"].split()[:4])
    if case["kind"] == "refuse":
        r = R.run(case["args"], case["stdin"], case["seed"], "plain", 30)
        out.n += 1
        if r.hang or r.rc == 0 or r.rc < 0 or '"order"' in r.out:
            out.bad("refuse", "exit %s for a malformed seed" % r.rc + where)
        out.sig.append("refused %s %s" % (case["args"][1], len(case["stdin"])))
        return
    r, curves, pr = A.audit_case(case, out, CODES, timeout=60 if case["weight"] < 2000 else 150)
    if r.hang:
        return
    L, rfc = case["spec"]["bits"], case["rfc"]
    if r.rc != 0:
        out.bad("fail", "exit %s %s" % (r.rc, r.err[-150:]) + where)
    for i, c in enumerate(curves):
        try:
            fin = R.hx(c.seed)
            assert len(c.seed) <= 42
        except Exception:
            out.bad("seed", "printed seed %r" % c.seed + where)
            continue
        sd = case["seeds"][i]
        if sd is None:
            if not seeds.bp_explain(c, fin, L, rfc):
                out.bad("derive", "p=%#x a=%#x b=%#x G=%s not derived by the procedure before seed %s" % (
                    c.p, c.a, c.b, [g[0] for g in c.gens], c.seed) + where)
        else:
            ok = False
            for strict in (True, False):
                m = seeds.brainpool(int(sd, 16), L, rfc, strict)
                if seeds.bp_same(c, m):
                    ok = True
                    break
            if not ok:
                out.bad("derive", "p=%#x a=%#x b=%#x N=%#x G=%s, expected %s" % (c.p, c.a, c.b, c.N, [g[0] for g in c.gens],
                                                                      {k: hex(v) if isinstance(v, int) else v for k, v in m.items()}) + where)
        out.inc("derived")
        out.sig.append("%s %d %s %s" % (rfc, L, case["seedsrc"], c.seed))
    if case["seedsrc"] == "random" and len({c.seed for c in curves}) < len(curves):
        out.bad("seed", "random seeds repeat" + where)
