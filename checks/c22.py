"""C22: bad command lines are refused; an accepted option takes effect or is reported as ignored."""
import itertools, os, random, re, tempfile
from vf import auditcheck as A, audit, data_cm, data_family, ec, run as R, workload as W

RULE = ("one distinct observation per (kind of bad command line, value) refused, and per (method, field kind, source of parameters, options, "
        "each in effect or reported ignored) of a run with curves")
MIN_DISTINCT = 300
ASSUME = ["with --invalid the option -u describes the invalid curves, not the curve they are for",
          "with --twist the options -K and -r describe the curve that is twisted",
          "a run cut off by the watchdog while looking for a curve is inconclusive"]

SEEDALG = ["--ansi", "--brainpool", "--brainpool-rfc", "--nums"]
METHODS = ["-n13", "--supersingular", "--anomalous", "--invalid", "--twist", "--family=BN"] + SEEDALG
H40 = "0123456789abcdef0123456789abcdef01234567"


def setup():
    A.setup()


def bad_lines():
    """(kind, args): all of these must be refused"""
    L = []
    for m in ["", *METHODS]:
        L.append(("no field", ["-r", m, "10"]))
        for f in (["--fp", "--f2m"], ["--f2m", "--fp"]):
            L.append(("both fields", f + ["-r", m, "10"]))
    for x, y in itertools.permutations(METHODS, 2):
        L.append(("two methods", ["--fp", x, y, "16"] + (["-r"] if "--nums" not in (x, y) else [])))
    L.append(("three methods", ["--fp", "--twist", "--invalid", "--ansi", "-r", "10"]))
    for k in (2, 3):
        for t in itertools.permutations(["-p", "-k2", "-B6"], k):
            for m in ["", "--twist", "--ansi", "--supersingular", "--brainpool", "--invalid"]:
                L.append(("order constraints", ["--fp", "-r", m, *t, "12"]))
            L.append(("order constraints", ["--f2m", "-r", *t, "12"]))
    for m in ("-n13", "--supersingular", "--anomalous", "--family=BN", "--brainpool", "--brainpool-rfc", "--nums", "--brainpool=" + H40):
        L.append(("prime-field method", ["--f2m", m, "10"] + (["-r"] if m != "--nums" else [])))
        L.append(("prime-field method", [m, "-u", "--f2m", "10"] + (["-r"] if m != "--nums" else [])))
    V = lambda kind, opts, vals, base: [L.append((kind, base + [o + v, "12"])) for o in opts for v in vals]
    V("order", ["-n", "--order="], ["abc", "12,", ",12", "1,,2", "0x", "-7", "7;8", "1.5", "12x", "0x1g", "seven", "0b11", "3,5,x", "+7"], ["--fp"])
    V("order", ["--order="], ["", ",", " "], ["--fp"])
    V("range", ["-i", "--invalid="], ["a-b", "5-x", "-5", "5--9", "5-9x", "x", "5..9", "2,3", "5-9-11", "+5", "0x5", "2-1e3"], ["--fp", "-r"])
    V("seed", ["--ansi="], ["zz", "12", "123", H40[:39], H40[:39] + "g", "0x" + H40[:39], "0x", H40[:20], "x" * 40, H40 + "z", "-" + H40[:38]], ["--fp", "-r"])
    V("seed", ["--brainpool=", "--brainpool-rfc="], ["zz", "12", H40[:39], H40 + "0", H40[:39] + "g", H40 * 2, "0x" + H40 + "00", "y" * 40, "0x" + H40[:38]], ["--fp"])
    V("family", ["--family=", "-F"], ["XX", "BN2", "bls", "KSS", "KSS17", "BLS", "B", "BNBN", "12", "KSS400"], ["--fp", "-r"])
    V("family", ["--family="], ["", " "], ["--fp", "-r"])
    for m in (["--fp", "-r"], ["--f2m", "-r"], ["--fp", "-n13"], ["--fp", "-r", "--supersingular"], ["--fp", "--twist"]):
        V("points", ["--points="], ["foo", "primex", "5", "-3random", "randomrandom", "", "x10random", "10 random", "none1", "allx", "Random5", "1.5random", "nonprimes", "rand"], m)
        V("koblitz", ["-K", "--koblitz="], ["2", "x", "-1", "0x", "10", "7", "1.0", "zero", "01x"], m)
        V("hex", ["--hex-check="], ["xyz", "0xg", "12 3", "-5", "ff,", "0x1g", "g"], m)
        V("random", ["-r", "--random="], ["foo", "field,foo", "a;b", "seed field", "A", "fields", "a,b,c", "equations"], m)
    for m in (["--fp", "-r"], ["--f2m", "-r", "--invalid=2-20"], ["--fp", "-r", "--anomalous"]):
        V("threads", ["--threads="], ["x", "4x", "-2", "0", "", "1.5", "two", "auto4", "x4"], m)
        V("memory", ["--memory=", "-m", "--thread-stack="], ["x", "12q", "-5", "100mm", "m", "1.5g", "k100", "10mx"], m)
        V("memory", ["--memory=", "--thread-stack="], [""], m)
        V("time", ["--timeout="], ["x", "5x", "-3", "5mm", "", "m", "1.5h", "h5", "5sec", "ten"], m)
    for m in (["--fp", "-r"], ["--f2m", "-r"], ["--fp", "--nums"], ["--fp", "-r", "--family=BN"], ["--fp", "--twist", "-K"]):
        for v in ("x", "10x", "0x10", "1e2", "ten", "12.5", "", "x12", "12,", "16bits", "0", "0x0", "00"):
            L.append(("size", m + [v]))
        L.append(("size", m + ["--", "-5"]))
        L.append(("no size", list(m)))
        L.append(("two sizes", m + ["10", "12"]))
    # drop the placeholders of "no method"; an empty size is a case of its own
    return [(k, [x for i, x in enumerate(a) if x or (k == "size" and i == len(a) - 1)]) for k, a in L]


OPTS = ["prime", "cofactor", "smooth", "koblitz", "unique", "hex", "points", "metadata", "count", "random"]


def base(rng, m):
    """(args, stdin, bits, field, given): a run of method m that gives curves without options"""
    f = "fp"
    bits = rng.randint(9, 18)
    given = None
    if m in ("input", "twist", "invalid.input"):
        f = rng.choice(["fp", "fp", "f2m"])
        bits = rng.randint(6, 16) if m != "invalid.input" else rng.randint(9, 14)
        lines = []
        given = []
        for _ in range(120):
            l, fl, a, b = W.curve_input(rng, f, bits)
            lines += l
        args = ["--" + f] + {"input": [], "twist": ["--twist"], "invalid.input": ["--invalid=2-%d" % rng.randint(5, 23)]}[m]
        return args, "\n".join(lines) + "\n", bits, f
    if m in ("random", "rtwist"):
        f = rng.choice(["fp", "f2m"])
        return ["--" + f, "-r"] + (["--twist"] if m == "rtwist" else []), "", bits, f
    if m == "invalid":
        f = rng.choice(["fp", "f2m"])
        return ["--" + f, "-r", "--invalid=2-%d" % rng.randint(5, 23)] + ([] if rng.random() < 0.5 else ["--threads=3"]), "", rng.randint(9, 14), f
    if m == "ansi":
        f = rng.choice(["fp", "f2m"])
        r = rng.random()
        if r < 0.4:
            return ["--" + f, "--ansi", "-r"], "", bits, f
        if r < 0.7:
            return ["--" + f, "--ansi=" + W.hexseed(rng), "-r"], "", bits, f
        lines = []
        for _ in range(80):
            lines.append(W.hexseed(rng))
            lines += W.curve_input(rng, f, bits)[0][:-2]
        return ["--" + f, "--ansi"], "\n".join(lines) + "\n", bits, f
    if m == "bp":
        alg = rng.choice(["--brainpool", "--brainpool-rfc"])
        bits = rng.randint(8, 24)
        r = rng.random()
        if r < 0.5:
            return ["--fp", alg, "-r"], "", bits, f
        if r < 0.75:
            return ["--fp", alg + "=" + W.hexseed(rng)], "", bits, f
        return ["--fp", alg], "".join(W.hexseed(rng) + "\n" for _ in range(30)), bits, f
    if m == "nums":
        return ["--fp", "--nums"], "", rng.randint(8, 26), f
    if m == "family":
        if rng.random() < 0.5:
            return ["--fp", "--family=BN", "-r"], "", rng.randint(6, 10), f
        fam = rng.choice(["BN", "BLS12"])
        zs = [z for z in data_family.Z[fam] if abs(z).bit_length() < 13] or [min(data_family.Z[fam], key=abs)]
        return ["--fp", "--family=" + fam], "".join("%d\n" % rng.choice(zs) for _ in range(20)), 14, f
    if m == "anomalous":
        return ["--fp", "--anomalous", "-r"], "", rng.randint(8, 20), f
    if m == "ss":
        if rng.random() < 0.5:
            return ["--fp", "--supersingular", "-r"], "", bits, f
        return ["--fp", "--supersingular"], "".join("0x%x\n" % W.rand_prime(rng, bits) for _ in range(60)), bits, f
    if m == "cm":
        if rng.random() < 0.4:
            N = rng.choice([n for n in data_cm.PRIME if n.bit_length() <= 60])
        else:
            N = 1
            for x in rng.choice([f for f in data_cm.COMPOSITE if sum(x.bit_length() for x in f) <= 40]):
                N *= x
        return ["--fp", "-n%d" % N], "", max(8, N.bit_length()), f
    raise ValueError(m)


BASES = ["input", "twist", "random", "rtwist", "invalid", "invalid.input", "ansi", "bp", "nums", "family", "anomalous", "ss", "cm"]


def option_case(rng, m, opts):
    args, stdin, bits, f = base(rng, m)
    args = list(args)
    sp = {}
    if len({"prime", "cofactor", "smooth"} & set(opts)) > 1:
        keep = rng.choice(sorted({"prime", "cofactor", "smooth"} & set(opts)))
        opts = [o for o in opts if o not in ("prime", "cofactor", "smooth") or o == keep]
    add = []
    for o in opts:
        if o == "prime":
            if f == "f2m" and not stdin:
                continue        # hardly any exists
            add.append(rng.choice(["-p", "--prime"]))
            sp[o] = True
        elif o == "cofactor":
            k = rng.choice([2, 3, 4, 6]) if f == "fp" else rng.choice([2, 4, 6])
            add.append(rng.choice(["-k%d", "--cofactor=%d"]) % k)
            sp[o] = k
        elif o == "smooth":
            s = max(4, int(bits * rng.choice([0.5, 0.7]))) if m not in ("bp", "nums", "family", "anomalous", "cm") else rng.randint(3, 6)
            add.append(rng.choice(["-B%d", "--smooth=%d"]) % s)
            sp[o] = s
        elif o == "koblitz":
            if m in ("random", "rtwist") and set(opts) & {"prime", "cofactor", "smooth", "unique"}:
                continue        # may not exist at this size
            a = rng.choice([None, 0, 1])
            add.append("-K" if a is None else rng.choice(["-K%d", "--koblitz=%d"]) % a)
            sp[o] = a or 0
        elif o == "unique":
            add.append(rng.choice(["-u", "--unique"]))
            sp[o] = True
        elif o == "hex":
            h = rng.choice("0123456789abcdefABCDEF") if m in ("nums", "cm", "bp", "family") or rng.random() < 0.4 else "".join(
                rng.choice("0123456789abcdef") for _ in range(2))
            add.append("--hex-check=" + h)
            sp[o] = h
        elif o == "points":
            p = rng.choice(["prime", "all", "nonprime", "none", "random", "3random", "8random"])
            add.append("--points=" + p)
            sp[o] = p
        elif o == "metadata":
            add.append("--metadata")
            sp[o] = True
        elif o == "count":
            n = rng.choice([2, 3, 4])
            add.append(rng.choice(["-c%d", "--count=%d"]) % n)
            sp[o] = n
        elif o == "random":
            if "-r" in args or m == "nums":
                continue
            add.append("-r")
            sp[o] = True
            if m in ("input", "twist", "invalid.input", "ss") or (m in ("ansi", "bp", "family") and not any(x.startswith(("--ansi=", "--brainpool")) and "=" in x for x in args)):
                stdin = ""
    args += add
    rng.shuffle(args)
    args.append(str(bits))
    return {"kind": "opt", "method": m, "field": f, "args": args, "stdin": stdin, "sp": sp, "bits": bits, "seed": rng.getrandbits(40)}


def cases(tier, rng):
    q = tier == "quick"
    cs = [{"kind": "bad", "what": k, "args": a, "stdin": rng.choice(["", "0xd\n0x1\n0x1\n" * 30]), "out": rng.random() < 0.15, "seed": rng.getrandbits(30)}
          for k, a in bad_lines()]
    if not q:
        # the same among other, good options
        for _ in range(6000):
            k, a = rng.choice(bad_lines())
            if k in ("size", "no size", "two sizes"):
                continue
            extra = rng.sample(["-u", "--metadata", "--points=all", "-c2", "--verbose", "--threads=2", "--timeout=5m", "--memory=200m", "--hex-check=a"], 2)
            a = a[:-1] + [e for e in extra if e.split("=")[0] not in " ".join(a)] + a[-1:]
            cs.append({"kind": "bad", "what": k, "args": a, "stdin": "", "out": False, "seed": rng.getrandbits(30)})
    for rep in range(1 if q else 8):
        for m in BASES:
            for o in OPTS:
                for _ in range(3):
                    cs.append(option_case(rng, m, [o]))
            for o in itertools.combinations(OPTS, 2):
                cs.append(option_case(rng, m, list(o)))
            for _ in range(25):
                cs.append(option_case(rng, m, rng.sample(OPTS, rng.choice([3, 3, 4, 5]))))
    for c in cs:
        c["weight"] = len(c.get("sp", {}))
    return cs


NAMES = {"prime": r"prime\b", "cofactor": "cofactor", "smooth": "smooth", "koblitz": "koblitz", "unique": "unique", "hex": "hex",
         "points": "points", "metadata": "metadata", "count": "count", "random": "random"}


def ignored(err, o):
    return any(re.search(r"\b-{0,2}" + NAMES[o], l.replace("invalid_prime", "")) for l in err.split("\n") if re.search("ignor", l, re.I))


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_bad(case, out):
    where = "[ecgen %s] (%s)" % (" ".join(map(repr, case["args"])), case["what"])
    with tempfile.TemporaryDirectory() as d:
        args = list(case["args"])
        f = d + "/o"
        if case["out"]:
            args = ["-o" + f] + args
        r = R.run(args, case["stdin"], case["seed"], "plain", 20)
        written = open(f, errors="replace").read() if case["out"] and os.path.exists(f) else ""
    out.n += 1
    out.inc("refused", 1 if r.rc and not r.hang else 0)
    text = r.out + written
    if r.hang:
        out.bad("accepted", "runs on " + where)
    elif r.rc == 0:
        out.bad("accepted", "exit 0, %d bytes of output %s" % (len(text), where))
    elif "{" in text:
        out.bad("accepted", "a curve was printed %s" % where)
    elif r.rc < 0 or r.rc in (97, 98):
        out.bad("crash", "exit %s %s" % (r.rc, where))
    elif not r.err.strip():
        out.bad("silent", "no message " + where)
    elif "PARI" in r.err or text.strip():
        out.bad("late", "not a usage error: %r %s" % (r.err.strip()[:120], where))
    else:
        out.sig.append("bad %s %s" % (case["what"], " ".join(case["args"])))
        out.sample = {"args": case["args"], "stderr": r.err.strip()[:100], "exit": r.rc}


def factors(n):
    fs, p = {}, 2
    while p * p <= n and p < 1 << 20:
        while n % p == 0:
            fs[p] = fs.get(p, 0) + 1
            n //= p
        p += 1 + (p > 2)
    if n > 1:
        fs[n] = fs.get(n, 0) + 1
    return fs


def effect(o, v, c, case):
    """why option o = v has no effect on curve c, or None"""
    N = c.N
    fs = factors(N)
    if o == "prime":
        return None if ec.is_prime(N) else "order %d" % N
    if o == "cofactor":
        return None if N % v == 0 and ec.is_prime(N // v) else "order %d" % N
    if o == "smooth":
        return None if N == 1 or max(fs).bit_length() <= v else "order %d" % N
    if o == "unique":
        return None if len(c.gens) <= 1 else "%d generators" % len(c.gens)
    if o == "koblitz":
        if "twist" in case["method"]:
            if not c.prime:
                return None if c.b == 1 else "b = %#x" % c.b
            return None if (pow(v, 3, c.p) * c.b**2 - pow(c.a, 3, c.p)) % c.p == 0 else "not a twist of y^2=x^3+%dx+1" % v
        return None if c.a == v and c.b == 1 else "a = %#x, b = %#x" % (c.a, c.b)
    if o == "hex":
        strs = [c.d["a"], c.d["b"], c.d["order"], c.d.get("seed") or "", c.d["field"].get("p", "")]
        for g in c.d.get("subgroups", []):
            for p in [g] + g.get("points", []):
                strs += [p["x"], p["y"]]
        return None if any(v.lower() in s.lower() for s in strs) else "%s not in %s" % (v, strs)
    if o == "metadata":
        return None if isinstance(c.meta, dict) and c.meta else "no metadata"
    if o == "points":
        total = sum(len(g[3]) for g in c.gens)
        if v == "none":
            return "%d points" % total if total else None
        if v.endswith("random"):
            n = int(v[:-6] or 1) if c.gens else 0
            return None if total == n else "%d points, %d asked for" % (total, n)
        for g in c.gens:
            got, want = sorted(p[1] for p in g[3]), audit.want_orders(v, g[1], sorted(fs))
            if got != want:
                return "points of orders %s on a generator of order %d" % (got[:10], g[1])
        return None
    return None


def run_opt(case, out):
    where = "[ecgen %s, seed %s, input %s]" % (" ".join(case["args"]), case["seed"], case["stdin"].split()[:8])
    r = R.run(case["args"], case["stdin"], case["seed"], "plain", 4)
    sp = case["sp"]
    if r.hang:
        out.inconclusive += 1
        out.inc("cut_off." + case["method"])
        return
    if r.rc < 0 or "bug in PARI" in r.err:
        out.bad("crash", "exit %s %s %s" % (r.rc, r.err[-100:], where))
        return
    try:
        doc = R.parse(r.out)
        cs = [R.Curve(d) for d in doc]
    except Exception:
        if r.rc == 0:
            out.bad("json", "%r %s" % (r.out[:80], where))
        cs = []
        doc = []
    state = []
    for o, v in sp.items():
        if ignored(r.err, o):
            state.append(o + ":ignored")
            out.inc("ignored." + o)
            continue
        if o == "count":
            n = len(doc)
            if r.rc == 0 and n != v and not case["method"].startswith("invalid"):
                out.bad("count", "%d curves %s" % (n, where))
            elif r.rc == 0 and case["method"].startswith("invalid"):
                out.bad("count", "neither in effect nor reported ignored " + where)
        elif o == "random":
            if r.rc != 0 and not cs and not case["stdin"] and not set(sp) & {"prime", "cofactor", "smooth", "koblitz", "unique", "hex"}:
                out.bad("random", "exit %s without input, not reported ignored: %s %s" % (r.rc, r.err.strip()[-100:], where))
        else:
            for i, c in enumerate(cs):
                if i == 0 and o == "unique" and case["method"].startswith("invalid"):
                    continue        # the curve the invalid curves are for
                why = effect(o, v, c, case)
                if why:
                    out.bad("silent." + o, "curve %d of %d: %s; not reported ignored %s" % (i, len(cs), why, where))
                    break
        state.append("%s:%s" % (o, v))
        out.inc("effective." + o, len(cs))
    out.n += max(1, len(cs))
    if cs:
        out.sig.append("%s %s %s" % (case["method"], case["field"], " ".join(sorted(re.sub(r":\d+$", "", s) for s in state))))
        out.sample = {"args": " ".join(case["args"]), "state": state, "curves": len(cs)}
    else:
        out.inc("no_curve." + case["method"])
