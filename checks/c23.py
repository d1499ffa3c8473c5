"""C23: random choices lie in, and spread over, their documented range; runs and threads are seeded apart."""
import collections, math, os, random, subprocess, tempfile
from vf import auditcheck as A, build, ec, family, run as R, workload as W

RULE = "one distinct observation per (kind of choice, size class) whose draws were all checked to lie in the range and to cover it"
MIN_DISTINCT = 60
ASSUME = ["full coverage is demanded where the range is small enough that a fair generator misses a value with probability below e^-25; "
          "elsewhere every bit taking both values, and every eighth of the range its share to within 6.5 standard deviations",
          "threads are told apart by the large values PARI's generator hands them; fewer than two such threads is inconclusive"]


def exe():
    return build.link("plain", "rnd", ["rnd.c"], with_main=False)


def setup():
    exe()
    A.setup("plain")


def cases(tier, rng):
    q = tier == "quick"
    cs = []
    C = lambda kind, **k: cs.append(dict(kind=kind, seed=rng.getrandbits(40), **k))
    for rep in range(1 if q else 12):
        for b in range(2, 13):
            C("draw", op="prime", b=b)
            C("draw", op="field", b=b) if b > 2 else 0
            C("draw", op="int", b=b)
        for b in [13, 16, 24, 31, 32, 33, 48, 63, 64, 65, 66, 96, 127, 128, 129, 160, 192, 224, 256, 257, 384, 521] + [rng.randint(13, 600) for _ in range(6 if q else 30)]:
            for op in ("prime", "field", "int"):
                if op == "int" or b < 200 or not q or b == 256:
                    C("draw", op=op, b=b, weight=5 if b > 128 else 1)
        for n in list(range(0, 11)) + [12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 159, 160, 161, 255, 256, 257, 1000, 1023] + [rng.randint(11, 700) for _ in range(6)]:
            C("draw", op="bits", b=n)
        for _ in range(30 if q else 100):
            k = rng.choice([0, 1, 2, 3, 7, 8, 9, 50, 255, 256, 257, 500])
            lo = rng.choice([0, 0, 1, rng.randint(0, 100), (1 << 64) - rng.randint(0, 300), (1 << 128) - 1, rng.getrandbits(200)])
            C("draw", op="range", lo=lo, hi=lo + k)
        for _ in range(20):
            b = rng.choice([20, 33, 63, 64, 65, 100, 128, 200, 521])
            lo = rng.choice([0, 1, rng.getrandbits(b), rng.getrandbits(b + 10)])
            C("draw", op="range", lo=lo, hi=lo + rng.getrandbits(b) + (1 << b))
        for op in ("elem", "a", "b"):
            for b in list(range(3, 10)) + [16, 32, 63, 64, 65, 127, 128, 192, 256, 384, 521]:
                C("draw", op=op, kind2="fp", p=W.rand_prime(rng, b))
            for m in list(range(3, 10)) + [16, 31, 32, 33, 63, 64, 65, 127, 128, 163, 233, 571]:
                C("draw", op=op, kind2="f2m", p=m)
        for b in (3, 4, 5, 6):
            C("curves", args=["--fp", "-r"], b=b)
            C("curves", args=["--f2m", "-r"], b=b)
        for b in (4, 5):
            C("curves", args=["--fp", "-rfield"], b=b, only=["p"], stdin=True)
            C("curves", args=["--fp", "-rfield,a"], b=b, only=["p", "a"], stdin=True)
            C("curves", args=["--fp", "-rb,field"], b=b, only=["p", "b"], stdin=True)
            C("curves", args=["--fp", "-rfield,equation"], b=b)
            C("curves", args=["--f2m", "-rfield,b"], b=b, only=["b"], stdin=True)
        for b in (16, 40, 64):
            C("seeds", args=["--fp", "--ansi", "-r", "-u"], b=b)
            C("seeds", args=["--f2m", "--ansi", "-r", "-u"], b=b)
        for b in (16, 32):
            C("seeds", args=["--fp", "--brainpool", "-r"], b=b)
            C("seeds", args=["--fp", "--brainpool-rfc", "-r"], b=b)
        for fam, b in (("BN", 6), ("BN", 7), ("BN", 8), ("BN", 9), ("BLS12", 8)):
            C("zs", fam=fam, b=b)
        for _ in range(8 if q else 40):
            C("points", field=rng.choice(["fp", "f2m"]), b=rng.choice([4, 5, 5, 6]))
        for _ in range(4):
            C("point", field=rng.choice(["fp", "f2m"]), b=3, weight=3)
        for mode in ("urandom", "none"):
            C("runs", what="rnd", n=300, mode=mode, weight=4)
            C("runs", what="--fp -r --points=none 128", n=40, mode=mode, weight=4)
            C("runs", what="--f2m -r -u --points=none 41", n=40, mode=mode, weight=4)
        for i in range(12 if q else 60):
            C("threads", args=[rng.choice(["--fp", "--fp", "--f2m"]), "-r", "--invalid=2-%d" % rng.choice([30, 60, 100]), "--threads=%d" % rng.choice([2, 3, 4, 8]),
                               rng.choice([64, 65, 67, 72])], mode=["urandom", "seeded", "seeded", "none"][i % 4], timeout=rng.random() < 0.2, weight=2)
    return cs


def draws(lines):
    """feed the harness; returns for each line its list of words"""
    p = subprocess.run([exe()], input="".join(l + "\n" for l in lines), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    out = p.stdout.split("\n")
    if p.returncode or "end" not in out:
        return None, "exit %s %s" % (p.returncode, p.stderr[-200:])
    return [l.split()[1:] for l in out[:len(lines)]], None


def need(k):
    return int(k * (math.log(k + 1) + 25)) + 1


def spread(out, name, vals, lo, hi, fixed=()):
    """integers drawn from [lo, hi): in range, every eighth of it served, every free low bit both ways"""
    n = len(vals)
    size = hi - lo
    cells = [0] * 8
    for v in vals:
        if not lo <= v < hi:
            out.bad("range", "%s: drew %d outside [%d, %d)" % (name, v, lo, hi))
            return
        cells[(v - lo) * 8 // size] += 1
    sd = math.sqrt(n * 7 / 64)
    if any(abs(c - n / 8) > 6.5 * sd + 1 for c in cells):
        out.bad("spread", "%s: %d draws fell into the eighths of the range %s" % (name, n, cells))
    orr = andd = vals[0] - lo
    for v in vals:
        orr |= v - lo
        andd &= v - lo
    for i in range(max(0, size.bit_length() - 1)):
        if i not in fixed and (not orr >> i & 1 or andd >> i & 1):
            out.bad("bit", "%s: bit %d is the same in %d draws" % (name, i, n))
            return
    if size >> 60 and len(set(vals)) < n:
        out.bad("repeat", "%s: a value of %d bits came twice in %d draws" % (name, size.bit_length(), n))


def cover(out, name, vals, want, ok=None):
    want = set(want)
    got = collections.Counter(vals)
    bad = [v for v in got if v not in want and v not in (ok or ())]
    if bad:
        out.bad("range", "%s: drew %s, not among the %d values documented (%s..)" % (name, bad[:5], len(want), sorted(want)[:4]))
        return
    miss = [v for v in want if v not in got]
    if miss:
        out.bad("cover", "%s: never drew %s in %d draws over %d values" % (name, sorted(miss)[:8], len(vals), len(want)))
        return
    # a grossly uneven generator
    n, k = len(vals), len(want)
    big = max(got.values())
    if k > 1 and big > n / k + 8 * math.sqrt(n / k) + 8 and big > 4 * n / k:
        out.bad("spread", "%s: %s came %d times in %d draws over %d values" % (name, got.most_common(1), big, n, k))


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_draw(case, out):
    op, b = case["op"], case.get("b")
    size = None
    if op in ("prime", "field"):
        name = "%s of %d bits" % (op, b)
        small = b <= 12
        want = [x for x in range(1 << (b - 1), (1 << b) + 1) if ec.is_prime(x)] if small else None
        n = min(need(len(want)) * 2, 20000) if small else (160 if b <= 128 else 50)
        line = "%s %d %d" % (op, n, b)
    elif op == "int":
        name = "integer of %d bits" % b
        small = b <= 9
        want = range(1 << (b - 1), (1 << b) + 1) if small else None
        n = need(len(want)) if small else 400
        line = "int %d %d" % (n, b)
    elif op == "bits":
        name = "string of %d bits" % b
        small = b <= 8
        want = range(1 << b) if small else None
        n = need(1 << b) if small else 400
        line = "bits %d %d" % (n, b)
    elif op == "range":
        lo, hi = case["lo"], case["hi"]
        name = "range [%d, %d)" % (lo, hi)
        small = hi - lo <= 1000
        want = range(lo, max(hi, lo + 1)) if small else None
        n = need(len(want)) if small else 400
        line = "range %d %d %d" % (n, lo, hi)
    else:
        k = case["p"]
        q = k if case["kind2"] == "fp" else 1 << k
        name = "%s over %s %d" % (op, case["kind2"], k)
        small = q <= 512
        want = range(q) if small else None
        n = need(q) if small else 400
        line = "%s %d %s %d" % (op, n, case["kind2"], k)
    slow = op in ("prime", "field") and b > 64
    res, err = draws([line] if slow else [line, line])
    if err:
        out.bad("crash", name + ": " + err)
        return
    if op == "bits":
        vs = []
        for w in res[0]:
            hd, _, body = w.partition(":")
            full = int(body or "0", 16)
            pad = -b % 8
            if hd != "+%d" % b or len(body) != 2 * ((b + 7) // 8) or full & ((1 << pad) - 1):
                out.bad("range", "%s: got %s" % (name, w))
                return
            vs.append(full >> pad)
    else:
        bad = [w for w in res[0] if not w.lstrip("-").isdigit()]
        if bad:
            out.bad("range", "%s: got %s" % (name, bad[:3]))
            return
        vs = list(map(int, res[0]))
    out.n += len(vs)
    out.inc("draws." + op, len(vs))
    if len(vs) != n:
        out.bad("range", "%s: %d values for %d draws" % (name, len(vs), n))
        return
    if small:
        cover(out, name, vs, want)
    elif op in ("prime", "field"):
        bad = [v for v in vs if not ec.is_prime(v)]
        if bad:
            out.bad("range", "%s: %d is no prime" % (name, bad[0]))
        spread(out, name, vs, 1 << (b - 1), 1 << b, (0,))
    elif op == "int":
        spread(out, name, [v for v in vs if v != 1 << b] if b < 40 else vs, 1 << (b - 1), 1 << b)
    elif op == "bits":
        spread(out, name, vs, 0, 1 << b)
    elif op == "range":
        # bits of a range that is no power of two: the top one may be rare
        spread(out, name, vs, lo, hi, (max(0, (hi - lo).bit_length() - 2),))
    else:
        spread(out, name, vs, 0, q, (max(0, q.bit_length() - 2),))
    if not slow and (len(want) if small else 1 << 30) > 4 and res[0] == res[1]:
        out.bad("repeat", name + ": the same draws twice")
    out.sig.append("%s %s" % (op, "%d values" % len(want) if small else "%d bits" % ((b or case.get("p", case.get("hi", 1)).bit_length() if op == "range" else b or case["p"]) // 16 * 16)))
    out.sample = {"what": name, "draws": len(vs), "first": vs[:4]}


def curves(case, args, stdin="", seed=None, timeout=90, env=None):
    r = R.run(args, stdin, case["seed"] if seed is None else seed, "plain", timeout, env)
    if r.hang:
        return None
    try:
        return [R.Curve(d) for d in R.parse(r.out)]
    except (ValueError, KeyError):
        return []


def run_curves(case, out):
    b, fp = case["b"], "--fp" in case["args"]
    ps = [x for x in range(1 << (b - 1), 1 << b) if ec.is_prime(x)] if fp else [0]
    q = 1 << b
    n = min(30000, need(q * len(ps)))
    n = max(n, need(q * q)) if b == 3 else n
    only = case.get("only", ["p", "a", "b"])
    stdin = ""
    if case.get("stdin"):
        left = [v for v in ("a", "b") if v not in only]
        stdin = "".join("0x%x\n" % (1 + i % 5 if v == "b" else 1) for i in range(n * 3) for v in left)
    cs = curves(case, case["args"] + ["-c%d" % n, "--points=none", b], stdin)
    if not cs or len(cs) < n:
        out.inc("short" if cs is not None else "cut_off")
        out.inconclusive += 1
        if not cs:
            return
    name = "%s %d" % (" ".join(case["args"]), b)
    out.n += len(cs)
    out.inc("curves", len(cs))
    if fp:
        cover(out, "p of " + name, [c.p for c in cs], ps)
    for p in ps:
        g = [c for c in cs if not fp or c.p == p]
        qq = p if fp else q
        if "a" in only:
            cover(out, "a of %s, p = %d" % (name, p), [c.a for c in g], range(qq))
        if "b" in only:
            ok = range(0 if fp else 1, qq)
            if "a" not in only and fp:
                ok = [v for v in ok if (4 + 27 * v * v) % p]     # a is always 1
            cover(out, "b of %s, p = %d" % (name, p), [c.b for c in g], ok)
        if b == 3 and "a" in only and "b" in only:
            pairs = [(a, bb) for a in range(qq) for bb in range(qq) if (bb if not fp else (4 * a**3 + 27 * bb * bb) % p)]
            cover(out, "(a, b) of %s" % name, [(c.a, c.b) for c in g], pairs)
    out.sig.append("curves " + name)
    out.sample = {"what": name, "curves": len(cs)}


def run_seeds(case, out):
    n = 90 if case["b"] < 60 else 60
    cs = curves(case, case["args"] + ["-c%d" % n, "--points=none", case["b"]], timeout=150)
    if cs is None or len(cs) < 60:
        out.inconclusive += 1
        return
    name = "seeds of %s %d" % (" ".join(case["args"]), case["b"])
    vs = [R.hx(c.seed) for c in cs]
    out.n += len(vs)
    out.inc("seeds", len(vs))
    # the printed Brainpool seed is the one the curve was found at, a little after the random one
    low = 0 if "--ansi" in case["args"] else 8
    top = 159 if "--ansi" in case["args"] else 160
    o = a = vs[0]
    for v in vs:
        o |= v
        a &= v
    stuck = [i for i in range(low, top) if not o >> i & 1 or a >> i & 1]
    if stuck:
        out.bad("bit", "%s: bits %s the same in %d seeds" % (name, stuck[:10], len(vs)))
    if max(vs) >> 161:
        out.bad("range", "%s: %x" % (name, max(vs)))
    if len(set(vs)) < len(vs):
        out.bad("repeat", name + ": a seed came twice")
    out.sig.append(name)


def run_zs(case, out):
    b, fam = case["b"], case["fam"]
    lo, hi = 1 << (b - 1), 1 << b
    ok = [z for k in range(lo, hi + 1) for z in (k, -k) for v in [family.at(fam, z)]
          if v and v[0] > 3 and ec.is_prime(v[0]) and ec.is_prime(v[1])]
    n = need(len(ok))
    cs = curves(case, ["--fp", "--family=" + fam, "-r", "-c%d" % n, "--points=none", b], timeout=120)
    if cs is None or len(cs) < n:
        out.inconclusive += 1
        return
    zs = [R.hx(c.seed) for c in cs]
    out.n += len(zs)
    out.inc("seeds", len(zs))
    cover(out, "parameter of --family=%s -r %d" % (fam, b), zs, ok)
    out.sig.append("z %s %d %d" % (fam, b, len(ok)))


def small_curve(rng, field, b):
    """parameters of a small curve, as input lines"""
    while True:
        if field == "fp":
            p = W.rand_prime(rng, b)
            a, bb = rng.randrange(p), rng.randrange(p)
            if p > 3 and (4 * a**3 + 27 * bb * bb) % p:
                return "0x%x\n0x%x\n0x%x\n" % (p, a, bb)
        else:
            e = W.rand_poly(rng, b)
            return "0x%x\n0x%x\n0x%x\n0x%x\n0x%x\n" % (*e, rng.randrange(1 << b), rng.randrange(1, 1 << b))


def group(c):
    E = ec.Fp(c.p, c.a, c.b) if c.prime else ec.F2m(c.m, c.poly, c.a, c.b)
    res = []
    for g in c.gens:
        pts, P = [], g[0]
        for _ in range(g[1] - 1):
            pts.append(P)
            P = E.add(P, g[0])
        res.append(pts)
    return res


def run_points(case, out):
    rng = random.Random(case["seed"])
    inp = small_curve(rng, case["field"], case["b"])
    n = 8000
    cs = curves(case, ["--" + case["field"], "--points=%drandom" % n, case["b"]], inp)
    if not cs or not cs[0].gens:
        out.inc("no_curve")
        return
    c = cs[0]
    name = "points of %s %s" % (case["field"], inp.split())
    for g, pts in zip(c.gens, group(c)):
        got = [p[0] for p in g[3]]
        if len(got) < n / len(c.gens) / 3:
            out.bad("spread", "%s: %d of %d random points on one of %d generators" % (name, len(got), n, len(c.gens)))
            return
        if len(got) >= need(len(pts)):
            cover(out, name, got, pts)
            out.sig.append("points %s %d %d" % (case["field"], len(c.gens), len(pts)))
        out.n += len(got)
        out.inc("points", len(got))
    out.sample = {"what": name, "generators": len(c.gens)}


def run_point(case, out):
    """one random point per run; as a multiple of its generator (which may differ from run to run)"""
    rng = random.Random(case["seed"])
    inp = small_curve(rng, case["field"], case["b"])
    ks = collections.defaultdict(list)
    logs = {}
    for i in range(330):
        cs = curves(case, ["--" + case["field"], "--points=random", case["b"]], inp, seed=case["seed"] + i)
        if not cs or not cs[0].gens:
            out.inc("no_curve")
            return
        c = cs[0]
        for j, (g, pts) in enumerate(zip(c.gens, group(c))):
            for p in g[3]:
                if p[0] not in pts:
                    out.bad("range", "point %s is no multiple of its generator %s" % (p[0], g[0]))
                    return
                ks[j, g[1]].append(pts.index(p[0]) + 1)
    out.n += 330
    out.inc("points", 330)
    if len(ks) > 1 and any(len(v) < 20 for v in ks.values()):
        out.bad("spread", "%s: random points per generator: %s" % (inp.split(), {k: len(v) for k, v in ks.items()}))
    for (j, n), v in ks.items():
        if len(v) >= need(n - 1) * 0.8:
            cover(out, "point as a multiple of generator %d of order %d of %s %s" % (j, n, case["field"], inp.split()), v, range(1, n))
            out.sig.append("point %s %d %d" % (case["field"], j, n))


def run_runs(case, out):
    env = {"VF_NORND": "1"} if case["mode"] == "none" else {}
    vals = []
    for i in range(case["n"]):
        if case["what"] == "rnd":
            p = subprocess.run([exe()], input="int 2 128\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60,
                               env=dict({k: v for k, v in os.environ.items() if not k.startswith("VF_")}, **env))
            v = p.stdout.split("\n")[0]
        else:
            r = R.run(case["what"].split(), "", None, "plain", 60, env)
            v = r.out if r.rc == 0 and not r.hang else ""
        if v:
            vals.append(v)
    out.n += len(vals)
    out.inc("runs", len(vals))
    if len(vals) < case["n"] // 2:
        out.inconclusive += 1
        return
    dup = [v for v, k in collections.Counter(vals).items() if k > 1]
    if dup:
        out.bad("seeding", "%d of %d separate runs (%s, randomness source: %s) drew what another drew" % (
            len(vals) - len(set(vals)), len(vals), case["what"], case["mode"]))
    out.sig.append("runs %s %s" % (case["what"], case["mode"]))


def run_threads(case, out):
    with tempfile.TemporaryDirectory() as d:
        log = d + "/log"
        env = {"VF_RNDLOG": log}
        if case["mode"] == "none":
            env["VF_NORND"] = "1"
        args = list(case["args"])
        if case["timeout"]:
            args.insert(0, "--timeout=1")
            env["VF_TMO"] = "every:90"
        r = R.run(args, "", case["seed"] if case["mode"] == "seeded" else None, "plain", 90, env)
        per = collections.defaultdict(list)
        if os.path.exists(log):
            for l in open(log):
                t, h = l.split()
                per[t].append(h)
    out.n += sum(map(len, per.values()))
    out.inc("threads", len(per))
    if len(per) < 3:
        out.inconclusive += 1
        return
    owner = {}
    for t, hs in per.items():
        for h in hs:
            if owner.setdefault(h, t) != t:
                out.bad("seeding", "threads %s and %s drew the same value of 64 bits [ecgen %s, %s]" % (owner[h], t, " ".join(map(str, args)), case["mode"]))
                return
    out.sig.append("threads %d %s %s" % (len(per), case["args"][0], case["mode"]))
    out.sample = {"args": args, "threads": len(per), "values": sum(map(len, per.values()))}
