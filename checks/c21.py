"""C21: timeouts at any point do not corrupt the result."""
import os, random, tempfile
from vf import auditcheck as A, data_family, ec, run as R, workload as W
from . import c08, c09, c10, c11, c12, c13, c14, c15

RULE = ("one distinct observation per (method, field kind, number of curves, where the timeouts came: hook events or heap operations, "
        "single or repeated, early or late, poisoned stack) of a run with at least one delivered timeout whose result was audited")
MIN_DISTINCT = 100
ALL = ["field", "coeff", "nonsing", "order", "oracle", "gen", "pt", "meta", "con", "count", "status", "crash", "json", "shape"]
ASSUME = ["timeouts are delivered where the program calls PARI or the allocator and, in real time, anywhere else",
          "a run not ending under the watchdog is inconclusive unless it happens for several seeds and never without timeouts"]
MAXF = 40       # timeouts per run


def setup():
    A.setup()


def repeat(case, n=MAXF + 25):
    case["stdin"] = (case["stdin"] if case["stdin"].strip() else "") * n
    return case


def sub(rng, m):
    """(oracle, case) of a run that finishes quickly, whatever happens to it"""
    if m == "random":
        c = W.w_random(rng, lo=5, hi=40)
        while "-p" in c["args"] and int([a for a in c["args"] if a.isdigit()][0]) < 14:
            c = W.w_random(rng, lo=5, hi=40)
        return "audit", c
    if m == "input":
        f = rng.choice(["fp", "f2m"])
        c = W.w_input(rng, f, lo=8, hi=30)
        return "stream", c
    if m == "twist":
        c = W.w_input(rng, rng.choice(["fp", "f2m"]), method="twist", lo=8, hi=30)
        return "twist", c
    if m == "rtwist":
        f = rng.choice(["fp", "f2m"])
        b = rng.randint(6, 30)
        spec = {"field": f, "bits": b, "rand_field": True}
        args = ["--" + f, "-r", "--twist"]
        W.common(rng, spec, args)
        return "audit", W.case("rtwist", args + [str(b)], spec, seed=rng.getrandbits(40))
    if m == "coninput":
        return "stream", W.w_constrained_input(rng)
    if m == "partial":
        return "audit", W.w_partial(rng, 6, 30)
    if m == "ansi":
        c = W.w_ansi(rng, 6)
        while c["spec"]["bits"] > 40:
            c = W.w_ansi(rng, 6)
        c["seeds"] = c["seeds"] * (MAXF + 25)
        return "c08", c
    if m == "bp":
        c = W.w_brainpool(rng, 22)
        if c["seedsrc"] == "input":
            c["seeds"] = c["seeds"][:1] * len(c["seeds"])
            c["stdin"] = "\n".join(c["seeds"]) + "\n"
        return "c09", c
    if m == "nums":
        return "c10", W.w_nums(rng, bits=rng.choice([5, 6, 8, 9, 10, 11, 12, 14, 16, 18]))
    if m == "cm":
        c = W.w_cm(rng, 60, rng.choice(["prime", "composite"]))
        return "c11", c
    if m == "anomalous":
        return "c12", W.w_anomalous(rng, 40)
    if m == "ss":
        c = W.w_supersingular(rng, 40)
        if c["given"]:
            c["given"] = c["given"][:1] * len(c["given"])
            c["stdin"] = "%d\n" % c["given"][0][0] * len(c["given"])
        return "c12", c
    if m == "family":
        if rng.random() < 0.6:
            fam = rng.choice(["BN", "BLS12", "KSS16", "KSS18", "BLS24"])
            z = rng.choice(sorted(data_family.Z[fam], key=abs)[:6])
            n = rng.choice([1, 1, 2])
            c = c13.given_case(rng, fam, [z] * n, False, n)
        else:
            b = rng.randint(6, 10)
            c = W.case("family", ["--fp", "--family=BN", "-r", str(b)], {"field": "fp", "bits": b, "family": "BN"},
                       seed=rng.getrandbits(40), fam="BN")
        return "c13", c
    if m == "invalid":
        while True:
            c = rng.choice(c15.cases("quick", random.Random(rng.getrandbits(40)))[:60])
            if c["kind"] in ("one", "closed", "empty") or rng.random() < 0.1:
                break
        if c["given"]:
            c["tripled"], c["given"] = True, None
        return "c15", c
    raise ValueError(m)


METHODS = {"random": 14, "input": 14, "twist": 8, "rtwist": 4, "coninput": 8, "partial": 4, "ansi": 8, "bp": 8, "nums": 5, "cm": 8,
           "anomalous": 6, "ss": 6, "family": 10, "invalid": 16}


def cases(tier, rng):
    k = 1 if tier == "quick" else 8
    cs = []
    for m, n in METHODS.items():
        for i in range(n * k):
            o, c = sub(rng, m)
            c = repeat(c)
            cs.append({"kind": "tmo", "method": m, "oracle": o, "case": c, "fires": 6 if tier == "quick" else 24,
                       "rng": rng.getrandbits(40), "weight": c.get("weight", 0) if m != "bp" else 2000})
    for v, s in (("1", 1), ("7", 7), ("90s", 90), ("2m", 120), ("1h", 3600), ("3d", 3 * 86400), (None, 0), ("0", 0)):
        for m in ("random", "input", "ansi", "cm", "anomalous", "family", "invalid"):
            o, c = sub(rng, m)
            cs.append({"kind": "value", "method": m, "case": c, "value": v, "seconds": s, "weight": 0})
    # a timeout inside an allocation of a function that does not know about them
    cs.append({"kind": "tmo", "method": "random", "oracle": "audit", "fires": 0, "plans": [{"VF_TMOHEAP": "from:qsort_r:1", "VF_TMO": "log"}],
               "rng": 1, "case": W.case("random", ["--fp", "-r", "40"], {"field": "fp", "bits": 40, "rand_field": True}, seed=5)})
    for bits in (500, 620):
        cs.append({"kind": "real", "bits": bits, "rng": rng.getrandbits(30), "weight": 9000})
    return cs


def run(case, out):
    try:
        globals()["run_" + case["kind"]](case, out)
    finally:
        R.FORCE = None


def logged(args, c, env, limit=20):
    """a run with the events counted; (result, [hook events, fired, armed, seconds, seed reads, poisonings, heap events])"""
    fd, f = tempfile.mkstemp()
    os.close(fd)
    try:
        R.FORCE = (args, {**env, "VF_TMOLOG": f})
        r = R.run(c["args"], c["stdin"], c["seed"], "plain", limit, c.get("env"))
        n = [int(x) for x in open(f).read().split()]
    finally:
        R.FORCE = None
        os.unlink(f)
    return r, n if len(n) == 7 else None


def run_value(case, out):
    c = case["case"]
    r, n = logged(["--timeout=" + case["value"]] if case["value"] is not None else [], c, {"VF_TMO": "log"})
    if r.hang or n is None:
        out.inconclusive += 1
        return
    out.n += 1
    where = "[ecgen --timeout=%s %s]" % (case["value"], " ".join(c["args"]))
    if case["seconds"] == 0:
        if n[2]:
            out.bad("armed", "a time limit of %d s without being asked for %s" % (n[3], where))
    elif n[2]:
        if n[3] != case["seconds"]:
            out.bad("value", "a time limit of %d s %s" % (n[3], where))
    else:
        out.inc("not_armed")
        return
    out.sig.append("value %s %s" % (case["value"], case["method"]))


def run_real(case, out):
    """slow steps are cut off in real time and the input is read on"""
    rng = random.Random(case["rng"])
    bits = case["bits"]
    lines = []
    for _ in range(2):
        while True:
            p = rng.getrandbits(bits) | 1 << (bits - 1) | 1
            if pow(3, p - 1, p) == 1 and ec.is_prime(p):
                break
        lines += ["%d" % p, "%d" % rng.randrange(p), "%d" % rng.randrange(p)]
    stdin = "\n".join(lines) + "\n"
    r = R.run(["--fp", "--points=none", "--timeout=1", str(bits)], stdin, 1, "plain", 90)
    where = "[ecgen --timeout=1, two given curves of %d bits]" % bits
    out.n += 1
    if r.hang:
        out.bad("uncut", "a step is not cut off " + where)
    elif r.rc < 0:
        out.bad("crash", "exit %s %s" % (r.rc, where))
    else:
        R.parse(r.out)
        out.sig.append("real time %d, exit %s" % (bits, r.rc))
    r = R.run(["--fp", "--points=none", str(bits)], stdin, 1, "plain", 5)
    if not r.hang and r.rc:
        out.bad("cut", "exit %s without a time limit [%d bits]" % (r.rc, bits))


def stream_has(c, toks, field, bits):
    """do the field and coefficients come one after another in the input?"""
    def val(t):
        try:
            return int(t, 0)
        except ValueError:
            return None
    v = [val(t) for t in toks]
    n = 3 if field == "fp" else 6
    for i in range(len(v) - n + 1):
        w = v[i:i + n]
        if None in w:
            continue
        if field == "fp":
            if w[0] == c.p and w[1] % c.p == c.a and w[2] % c.p == c.b:
                return True
        else:
            poly = 1 << w[0] | 1 if 0 <= w[0] <= bits else 0
            for e in w[1:4]:
                if 0 < e < bits:
                    poly |= 1 << e
            if poly == c.poly and w[4] == c.a and w[5] == c.b:
                return True
    return False


def twist_of_stream(c, toks, field):
    v = [int(t, 0) for t in toks]
    n = 3 if field == "fp" else 6
    for i in range(len(v) - n + 1):
        w = v[i:i + n]
        if field == "fp":
            if w[0] == c.p and not c14.is_twist(c, *w):
                return True
        elif w[0] == c.m and not c14.is_twist(c, w[1:4], w[4], w[5]):
            return True
    return False


def judge(case, c, o, plan):
    """audit the run under the forced timeouts with the oracle of its method"""
    orc = case["oracle"]
    r = None
    if orc in ("audit", "stream", "twist"):
        r, curves, pr = A.audit_case(c, o, ALL, timeout=20)
        where = " [ecgen %s, seed %s]" % (" ".join(c["args"]), c["seed"])
        if not r.hang:
            sp = c["spec"]
            toks = c["stdin"].split()
            k = c.get("period") or len(toks)
            ring = toks[:k] + toks[:6]
            for x in curves:
                if orc == "stream" and not stream_has(x, ring, sp["field"], sp["bits"]):
                    o.bad("leak", "p/poly, a=%#x, b=%#x do not follow one another in the input" % (x.a, x.b) + where)
                if orc == "twist" and not twist_of_stream(x, ring, sp["field"]):
                    o.bad("leak", "not the twist of a curve in the input" + where)
            if r.rc != 0 and case["base_rc"] == 0:
                o.bad("status", "exit %s: %s" % (r.rc, r.err[-120:]) + where)
    else:
        m = globals()[orc]
        m.run(c, o)
        if orc == "c15" and c.get("tripled"):
            pass


def run_tmo(case, out):
    c = case["case"]
    rng = random.Random(case["rng"])
    toks = c["stdin"].split()
    c["period"] = len(toks) // (MAXF + 25) if toks else 0
    r, n = logged(["--timeout=1"], c, {"VF_TMO": "log", "VF_TMOHEAP": "log"})
    if r.hang or n is None:
        out.inconclusive += 1
        out.inc("base_cut_off." + case["method"])
        return
    case["base_rc"] = r.rc
    ev, hv = n[0], n[6]
    out.inc("hook_events", ev)
    out.inc("heap_events", hv)
    hangs = 0
    for i in range(case["fires"] + len(case.get("plans", []))):
        kind = rng.choice(["hook", "hook", "hook", "heap"])
        lim = ev if kind == "hook" else hv
        if lim == 0:
            continue
        how = rng.choice(["one", "one", "few", "many"])
        if how == "one":
            fire = [rng.randint(1, lim)]
        elif how == "few":
            fire = sorted(rng.randint(1, 2 * lim) for _ in range(rng.randint(2, 5)))
        else:
            step = rng.randint(max(1, lim // 6), lim)
            fire = [step * j for j in range(1, MAXF // 2)]
        env = {"VF_TMO": "log", "VF_TMOHEAP": ",".join(map(str, fire))} if kind == "heap" else {"VF_TMO": ",".join(map(str, fire))}
        if i >= case["fires"]:
            env, fire, how = dict(case["plans"][i - case["fires"]]), [1], "at"
        poison = rng.random() < 0.5
        if poison:
            env["VF_POISON"] = "65536"
        fd, f = tempfile.mkstemp()
        os.close(fd)
        R.FORCE = (["--timeout=1"], {**env, "VF_TMOLOG": f})
        o = type(out)()
        try:
            judge(case, c, o, env)
        finally:
            R.FORCE = None
            t = open(f).read().split()
            os.unlink(f)
        fired = int(t[1]) if len(t) == 7 else 0
        out.n += o.n
        out.inc("timeouts_delivered", fired)
        out.inc("runs_with_timeouts", 1 if fired else 0)
        if R.ABANDONED:
            o.problems = [("heap", "%s [ecgen %s, seed %s]" % (R.ABANDONED, " ".join(c["args"]), c["seed"]))]
            out.inc("heap_operations_abandoned")
        for code, det in o.problems:
            out.bad(code, "%s; timeouts %s" % (det, env))
        if any(code == "crash" for code, _ in o.problems):
            break
        if o.inconclusive:
            hangs += 1
            out.inc("cut_off." + case["method"])
            if hangs >= 3:
                break
            continue
        if fired:
            out.inc("after_timeouts." + case["method"])
            pos = min(9, 10 * fire[0] // lim)
            out.sig.append("%s %s %s %s %s %s %s" % (case["method"], c["spec"]["field"], c["spec"].get("count", 1), kind, how, pos, poison))
            out.sample = {"args": "--timeout=1 " + " ".join(c["args"]), "timeouts": env, "delivered": fired, "events": lim}
    out.inconclusive += 1 if hangs else 0
