"""C13: pairing-friendly curves belong to their family."""
from vf import auditcheck as A, data_family, family as F, run as R, workload as W, ec

RULE = "one distinct observation per (family, parameter) of an audited curve"
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "count", "crash", "json", "shape"]
MIN_DISTINCT = 100
ASSUME = ["'bits' is the size of the family's parameter z", "the order is p+1-t where r(u) > 4 sqrt(p)"]


def setup():
    A.setup()


def given_case(rng, fam, zs, bad_first=False, count=1):
    bits = max(3, max(abs(z).bit_length() for z in zs) + rng.choice([0, 0, 0, 1, 7]))
    spec, args = {"field": "fp", "bits": bits, "family": fam, "count": count}, ["--fp", "--family=" + fam]
    v = F.at(fam, max(zs, key=abs))
    if v[0].bit_length() <= 170:
        W.common(rng, spec, args, count=False)
    else:
        args.append("--points=none")
        spec["points"] = "none"
        spec["light"], spec["known_prime"] = True, [F.at(fam, z)[1] for z in zs]
    if count > 1:
        args.append("-c%d" % count)
    args.append(str(bits))
    lines = []
    if bad_first:
        while True:
            z = rng.getrandbits(bits - 1) * rng.choice([1, -1])
            v = F.at(fam, z)
            if not (v and v[0] > 3 and v[1] > 1 and ec.is_prime(v[0])):
                lines.append(W.num(rng, z))
                break
    lines += [W.num(rng, z) for z in zs]
    return W.case("given", args, spec, "\n".join(lines) + "\n", rng.getrandbits(40),
                  {"KSS40": 1000, "KSS36": 300}.get(fam, bits * 10), fam=fam, zs=list(zs))


def cases(tier, rng):
    n = 380 if tier == "quick" else 3000
    cs = []
    for fam, zs in data_family.Z.items():
        k = {"KSS40": 1, "KSS36": 6}.get(fam, n // 7) if tier == "quick" else {"KSS40": 4, "KSS36": 49}.get(fam, n // 7)
        for _ in range(k):
            cnt = 1 if fam.startswith("KSS") else rng.choice([1, 1, 1, 2, 3])
            cs.append(given_case(rng, fam, rng.sample(zs, cnt), rng.random() < 0.2, cnt))
    for _ in range(n // 5):
        c = W.w_family(rng)
        c["fam"] = c["spec"]["family"]
        cs.append(c)
    for _ in range(n // 10):        # parameters that are no good: the run ends without a curve
        fam = rng.choice(sorted(F.FAM))
        bits = rng.randint(4, 20)
        while True:
            z = rng.getrandbits(bits) * rng.choice([1, -1])
            v = F.at(fam, z)
            if not (v and v[0] > 3 and v[1] > 1 and ec.is_prime(v[0]) and ec.is_prime(v[1])):
                break
        cs.append(W.case("bad", ["--fp", "--family=" + fam, str(bits)], {"field": "fp", "bits": bits, "family": fam},
                         W.num(rng, z) + "\n", rng.getrandbits(40), 0, fam=fam))
    return cs


def parse_seed(s):
    return R.hx(s)


def run(case, out):
    r, curves, pr = A.audit_case(case, out, CODES, timeout=90)
    where = " [ecgen %s, seed %s, %s]" % (" ".join(case["args"]), case["seed"], case["stdin"].split())
    fam = case["fam"]
    if r.hang:
        return
    if case["kind"] == "bad":
        if r.rc == 0 or curves:
            out.bad("bad", "a curve for a parameter not giving primes" + where)
        out.sig.append("refused %s" % fam)
        out.n += 1
        return
    if r.rc != 0:
        out.bad("fail", "exit %s: %s" % (r.rc, r.err[-150:]) + where)
    for i, c in enumerate(curves):
        if c.seed is None:
            out.bad("seed", "no seed printed" + where)
            continue
        try:
            z = parse_seed(c.seed)
        except ValueError:
            out.bad("seed", "%r" % c.seed + where)
            continue
        if case["kind"] == "given" and i < len(case["zs"]) and z != case["zs"][i]:
            out.bad("seed", "printed %s, given %d" % (c.seed, case["zs"][i]) + where)
        if abs(z) >> case["spec"]["bits"] and abs(z) != 1 << case["spec"]["bits"]:
            out.bad("seed", "%s larger than %d bits" % (c.seed, case["spec"]["bits"]) + where)
        v = F.at(fam, z)
        if not v:
            out.bad("family", "no p(%d)" % z + where)
            continue
        p, rr, t = v
        if c.p != p:
            out.bad("family", "p = %#x is not p(z), z = %d" % (c.p, z) + where)
            continue
        if not ec.is_prime(rr) or c.N % rr:
            out.bad("family", "r = %#x does not divide the order or is not prime" % rr + where)
        k = F.FAM[fam]["k"]
        if rr > 100 and (pow(p, k, rr) != 1 or any(pow(p, d, rr) == 1 for d in range(1, k))):
            out.bad("family", "embedding degree" + where)
        if t is not None and rr * rr > 16 * p and c.N != p + 1 - t:
            out.bad("family", "order is not p+1-t" + where)
        out.sig.append("%s %d" % (fam, z))
