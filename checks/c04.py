"""C04: requested constraints hold for every emitted curve."""
import json, random
from vf import auditcheck as A, emul, run as R, workload as W

RULE = A.RULE
CODES = ["con", "count", "status", "oracle"]
MIN_DISTINCT = 100


def setup():
    A.setup()


# given curves over small fields whose order a point counting algorithm for large fields gets wrong
SEA = [(3467, 900, 929), (4001, 1706, 914), (4597, 3669, 1116), (5387, 4943, 4370), (9239, 835, 7106)]


def dense(rng):
    """long lists of small curves of which those meeting a constraint are taken"""
    bits = rng.choice([8, 9, 10, 11, 12, 13, 13, 14, 14, 15, 16])
    con, opt = rng.choice([({"prime": True}, "-p")] * 3 + [({"smooth": bits + 1}, "-B%d" % (bits + 1)), ({"smooth": bits - 3}, "-B%d" % (bits - 3)),
                          ({"cofactor": 2}, "-k2"), ({"cofactor": 3}, "-k3"), ({"unique": True}, "-u"), ({}, "-v")])
    lines = []
    n = 0
    if bits >= 12:
        for p, a, b in rng.sample(SEA, len(SEA)):
            if p.bit_length() <= bits:
                lines += ["%d" % p, "%d" % a, "%d" % b]
                n += 1
    while n < 160:
        p = W.rand_prime(rng, rng.randint(max(3, bits - 2), bits))
        if p < 5:
            continue
        lines += [W.num(rng, p), W.num(rng, rng.randrange(p)), W.num(rng, rng.randrange(p))]
        n += 1
    return W.case("coninput", ["--fp", opt, "-c10", "--points=none", bits], {"field": "fp", "bits": bits, "count": 10, "points": "none", **con},
                  "\n".join(lines) + "\n", seed=rng.getrandbits(40), weight=50)


def kobmix(rng):
    """Koblitz curves that have to meet a second (and third) constraint"""
    a = rng.choice([0, 1])
    bits = rng.randint(14, 40)
    spec, args = {"field": "fp", "rand_field": True, "koblitz": a}, ["--fp", "-r", "-K%d" % a]
    con = rng.choice(["smooth"] * 3 + ["cofactor"] * 3 + (["prime"] if a else []) + ["hex", "unique"])
    if con == "smooth":
        spec["smooth"] = int(bits * rng.choice([0.5, 0.6, 0.75]))
        args.append("-B%d" % spec["smooth"])
    elif con == "cofactor":       # x^3+1 has a point of order six
        bits = min(bits, 32)
        spec["cofactor"] = rng.choice([6, 12, 18, 24] if a == 0 else [1, 2, 3, 4, 5, 6, 7, 9, 12])
        args.append("-k%d" % spec["cofactor"])
    elif con == "prime":
        spec["prime"] = True
        args.append("-p")
    elif con == "hex":
        spec["hex"] = "%02x" % rng.randrange(256)
        args.append("--hex-check=0x" + spec["hex"])
        bits = max(bits, 20)
    if con == "unique" or (rng.random() < 0.4 and spec.get("cofactor", 1) in (1, 2, 3, 5, 6, 7)):
        spec["unique"] = True
        args.append("-u")
    W.common(rng, spec, args)
    args.append(bits)
    rng.shuffle(args)
    spec["bits"] = bits
    return W.case("random", args, spec, seed=rng.getrandbits(40), weight=bits * spec.get("count", 1))


def hexfind(rng):
    """a given curve, then the same again with a piece of one of its printed parameters as the hex string to look for"""
    c = W.w_input(rng, bits=rng.randint(20, 60), method="default")
    c["args"] = [x for x in c["args"] if not x.startswith(("--points", "-c", "--metadata", "-u"))]
    spec = {"field": c["spec"]["field"], "bits": c["spec"]["bits"]}
    if rng.random() < 0.5:
        c["args"].insert(0, "--points=none")
        spec["points"] = "none"
    return W.case("hexfind", c["args"], spec, c["stdin"], seed=rng.getrandbits(40), weight=50, pick=rng.getrandbits(30))


def values(d):
    yield from [("a", d["a"]), ("b", d["b"]), ("order", d["order"])]
    if "p" in d["field"]:
        yield "p", d["field"]["p"]
    for g in d.get("subgroups") or []:
        yield from [("gx", g["x"]), ("gy", g["y"])]
        for q in g.get("points") or []:
            yield from [("px", q["x"]), ("py", q["y"])]


def run_hexfind(case, out):
    r = R.run(case["args"], case["stdin"], case["seed"], "plain", 30)
    if r.hang or r.rc != 0:
        return
    doc = json.loads(r.out)
    if len(doc) != 1:
        return
    rng = random.Random(case["pick"])
    vs = {}
    for k, v in values(doc[0]):
        vs.setdefault(k, []).append(v[2:])
    for k in sorted(vs):
        v = rng.choice(vs[k])
        others = [w for j in vs for w in vs[j] if w != v]
        sub = [v[i:i + n] for n in (2, 3, 4) for i in range(len(v) - n + 1)]
        alone = [x for x in sub if not any(x in w for w in others)]
        if not alone:
            continue
        h = rng.choice(alone)
        arg = rng.choice(["", "0x"]) + rng.choice([h, h.upper()])
        a = ["--hex-check=" + arg] + case["args"]
        r = R.run(a, case["stdin"], case["seed"], "plain", 30)
        out.n += 1
        out.inc("hex_found_in_" + k)
        out.sig.append("hexfind %s %s %d" % (case["spec"]["field"], k, len(h)))
        if r.hang:
            out.inconclusive += 1
        elif r.rc != 0 or '"order"' not in r.out:
            out.bad("hexfind", "exit %s: the hex string is in %s (0x%s) of the only curve given [ecgen %s, seed %s]" % (
                r.rc, k, v, " ".join(a), case["seed"]))
        else:
            d = json.loads(r.out)
            if [d[0][x] for x in ("a", "b", "order")] != [doc[0][x] for x in ("a", "b", "order")]:
                out.bad("hexfind", "another curve [ecgen %s, seed %s]" % (" ".join(a), case["seed"]))


def cases(tier, rng):
    n = 1500 if tier == "quick" else 12000
    cs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            c = W.w_constrained_input(rng)
        elif r < 0.75:
            c = W.w_random(rng, constraint=rng.choice(["prime", "cofactor", "cofactor", "smooth", "koblitz", "hex", "hex", "none"]))
        elif r < 0.80:
            c = W.w_ansi(rng)
            if c["spec"]["field"] == "fp" and "--random=" not in " ".join(c["args"]) and "-r" in c["args"]:
                b = int(c["args"][-1])
                if b > 12:
                    w = rng.choice(["-p", "-k4", "-u"])
                    c["args"].insert(0, w)
                    c["spec"].update({"-p": {"prime": True}, "-k4": {"cofactor": 4}, "-u": {"unique": True}}[w])
        elif r < 0.88:      # hex string with points and metadata, several curves
            bits = rng.randint(24, 64)
            f = rng.choice(["fp", "f2m"])
            h = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([2, 3])))
            spec = {"field": f, "bits": bits, "hex": h, "rand_field": True}
            args = ["--" + f, "-r", "--hex-check=" + rng.choice(["", "0x", "0X"]) + h, str(bits)]
            W.common(rng, spec, args)
            c = W.case("hex", args, spec, seed=rng.getrandbits(40), weight=bits * 3)
        else:
            c = W.mixed(rng, 1)[0]
        cs.append(c)
    for _ in range(n // 25):
        cs.append(dense(rng))
    for _ in range(n // 20):
        cs.append(hexfind(rng))
    for _ in range(n // 12):
        cs.append(kobmix(rng))
    return cs


def run(case, out):
    if case["kind"] == "hexfind":
        return run_hexfind(case, out)
    r, curves, pr = A.audit_case(case, out, CODES)
    if r.hang:
        return
    if case["kind"] == "coninput":
        sp = case["spec"]
        toks = case["stdin"].split("\n")[:-1]
        if "--twist" in case["args"]:
            return
        want, enough, certain = emul.curves(sp["field"], sp["bits"], toks, sp.get("count", 1), emul.acceptor(sp["field"], sp))
        out.inc("sequences_emulated")
        if not certain:
            out.inc("sequences_partly_emulated")
        where = "[ecgen %s, seed %s]" % (" ".join(case["args"]), case["seed"])
        d = emul.compare(curves, want, sp["field"])
        if d:
            out.bad("skipped", d + where)
        elif certain and len(curves) != len(want):
            out.bad("skipped", "%d curves emitted, %d of the given ones satisfy the constraints %s" % (len(curves), len(want), where))
        elif certain and (r.rc == 0) != enough:
            out.bad("status", "exit status %d with %d curves %s" % (r.rc, len(curves), where))
    elif case["kind"] in ("random", "hex", "input", "partial") and r.rc != 0:
        out.bad("status", "exit status %d: %s [ecgen %s, seed %s]" % (r.rc, r.err[-100:], " ".join(case["args"]), case["seed"]))
