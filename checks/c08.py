"""C08: ANSI X9.62 curves verify against their printed seed."""
from vf import auditcheck as A, run as R, seeds, workload as W

RULE = ("one distinct observation per (field kind, size, seed source, seed length) of a curve verified against its "
        "printed seed, or of a refused seed")
CODES = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "count", "crash", "json", "shape", "con"]
MIN_DISTINCT = 100
ASSUME = ["seeds of whole bytes", "over a given prime shorter than the requested size either size is accepted as t"]


def setup():
    A.setup()


def large(rng):
    """more than one hash block"""
    field = rng.choice(["fp", "f2m", "f2m"])
    bits = rng.randint(161, 190) if field == "fp" else rng.choice([161, 162, 163, 167, 170, 193, 200, 233])
    spec = {"field": field, "bits": bits, "points": "none", "light": True}
    sd = W.hexseed(rng, rng.choice([160, 160, 168, 256]))
    src = rng.choice(["arg", "input", "random"])
    args = ["--" + field, "--points=none", "--ansi" + ("=" + sd if src == "arg" else "")]
    lines = [sd] if src == "input" else []
    if field == "fp" and rng.random() < 0.5:
        lines.append(str(W.rand_prime(rng, bits)))
        args.append("--random=seed" if src == "random" else "--random=a")
    else:
        args.append("--random=seed,field" if src == "random" else "--random=field")
    return W.case("ansi", args + [str(bits)], spec, "\n".join(lines) + "\n", rng.getrandbits(40), 900, seedsrc=src,
                  seeds=[sd] if src != "random" else [None])


def cases(tier, rng):
    n = 520 if tier == "quick" else 5000
    cs = [W.w_ansi(rng) for _ in range(n)]
    for _ in range(n // 12):
        cs.append(large(rng))
    for w in (0, 1, -1):        # sums of the seed wrapping around
        for bits in (163, 193):
            sd = "%040x" % ((w - 1) % (1 << 160))
            cs.append(W.case("ansi", ["--f2m", "--points=none", "--ansi=" + sd, "--random=field", str(bits)],
                             {"field": "f2m", "bits": bits, "points": "none", "light": True}, "", rng.getrandbits(40), 900,
                             seedsrc="arg", seeds=[sd]))
    for sd, bits, rs in (("f" * 39 + "e", 321, 1), ("6b1d9dc4a1e1231d205fd7af0cab9c149323acbd", 322, 2),
                         ("6b1d9dc4a1e1231d205fd7af0cab9c149323acbd", 329, 1)):
        cs.append(W.case("ansi", ["--f2m", "--points=none", "--ansi=" + sd, "--random=field", str(bits)],
                         {"field": "f2m", "bits": bits, "points": "none", "light": True}, "", rs, 900, seedsrc="arg", seeds=[sd]))
    for _ in range(n // 12):    # refused seeds
        good = W.hexseed(rng)
        bad = rng.choice([good[:39], good[:rng.randint(1, 38)], good[:20] + "g" + good[21:], good + "z", "xyz", "0x" + good[:39],
                          "-" + good, good[:10] + " " + good[11:], "0x0x" + good])
        if rng.random() < 0.5:
            cs.append(W.case("refuse", ["--fp", "-r", "--ansi=" + bad, "12"], {"field": "fp", "bits": 12}, "", 1))
        else:
            if " " in bad:
                continue
            then = rng.random() < 0.6
            cs.append(W.case("reread" if then else "refuse", ["--fp", "--random=field", "--ansi", "12"],
                             {"field": "fp", "bits": 12}, bad + "\n" + (good + "\n" if then else ""), rng.getrandbits(40),
                             seedsrc="input", seeds=[good]))
    return cs


def run(case, out):
    where = " [ecgen %s, seed %s, %s]" % (" ".join(case["args"]), case["seed"], case["stdin"].split()[:4])
    if case["kind"] == "refuse":
        r = R.run(case["args"], case["stdin"], case["seed"], "plain", 30)
        out.n += 1
        if r.hang or r.rc == 0 or r.rc < 0 or '"order"' in r.out:
            out.bad("refuse", "exit %s for a malformed seed" % r.rc + where)
        out.sig.append("refused %s %s" % (case["args"][-2][:7], len(case["stdin"])))
        return
    r, curves, pr = A.audit_case(case, out, CODES, timeout=60)
    if r.hang:
        return
    if r.rc != 0 and len(curves) == 0 and case["kind"] == "reread":
        out.bad("fail", "exit %s %s" % (r.rc, r.err[-150:]) + where)
    given = [s for s in case["seeds"]]
    i = 0
    for c in curves:
        s = c.seed or ""
        if not s.startswith("0x") or len(s) < 42:
            out.bad("seed", "printed seed %r" % s + where)
            continue
        s = s[2:]
        if case["seedsrc"] == "random":
            if len(s) != 40 or int(s, 16) >> 159 > 1:
                out.bad("seed", "random seed %s" % s + where)
        else:
            # the seeds are taken in order; one not giving a curve for its field is passed over
            while i < len(given) and given[i].lower() != s:
                if case["seedsrc"] == "arg":
                    break
                i += 1
            if i >= len(given) or given[i].lower() != s:
                out.bad("seed", "printed %s, given %s" % (s, [g[:50] for g in given[:3]]) + where)
            if case["seedsrc"] == "input":
                i += 1
        if not seeds.ansi_ok(c, s, case["spec"]["bits"]):
            out.bad("verify", "p/m %s a=%#x b=%#x do not verify against seed %s" % (c.d["field"], c.a, c.b, s) + where)
        out.inc("verified")
        out.sig.append("%s %d %s %d" % (case["spec"]["field"], case["spec"]["bits"], case["seedsrc"], len(s)))
    if case["seedsrc"] == "random" and len({c.seed for c in curves}) < len(curves):
        out.bad("seed", "random seeds repeat" + where)
