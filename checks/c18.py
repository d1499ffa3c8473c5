"""C18: no memory error, undefined behaviour or crash, whatever the options, inputs, failures and interruptions."""
import os, random, re, subprocess, tempfile
from vf import auditcheck as A, build, run as R, workload as W
from . import c07, c08, c15, c17, c20, c21, c22, c24

RULE = ("one distinct observation per (workload, method, field kind, size class of 4 bits, options used, exit status, monitors) of a run that ended, "
        "and per operation of the driven libraries")
MIN_DISTINCT = 400
ASSUME = ["PARI is not instrumented: what ecgen hands to it is watched by poisoning what was released and by memcheck",
          "running out of memory or of PARI's stack ends the run by design"]

ASAN = "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:handle_segv=2:handle_sigbus=2:handle_sigfpe=2:handle_abort=2:" \
       "handle_sigill=2:symbolize=1:malloc_fill_byte=190:max_malloc_fill_size=65536:free_fill_byte=165:max_free_fill_size=65536:" \
       "detect_stack_use_after_return=%d:strict_string_checks=1:detect_invalid_pointer_pairs=0"
BAD = re.compile(r"ERROR: AddressSanitizer: .*|runtime error: .*|bug in PARI.*|incorrect type in .*|corrupted .*|double free.*|free\(\): .*|malloc\(\): .*|"
                 r"stack smashing.*|Segmentation Fault.*|forbidden .*|buffer overflow detected.*|gerepile.*significant pointers lost.*")


def vg():
    """ecgen without the allocator monitor, which memcheck replaces"""
    return build.link("plain", "ecgen-vg", heap=False)


def strs():
    try:
        return build.link("asan", "strs", ["strs.c"], with_main=False)
    except build.BuildError:
        return None         # the helpers are internal: they are exercised through ecgen anyway


def setup():
    A.setup("plain", "asan")
    vg()
    strs()
    c20.exe("asan")
    c24.exe("asan")


# ---- hostile input

TOK = ["0", "1", "2", "3", "4", "-1", "-2", "-3", "", " ", "x", "0x", "0b", "0b101", "0xg", "+", "-", "--", "-0", "00", "0x0", "1e5", "1.5", "\t7", "7 ", " 7", "7x",
       "%s%n", "\x01", "\x7f", "é", "\x00", "1\x002", "(1)", "[1,2]", "x^2+1", "Mod(1,2)", "a", "O(2^5)", "\"s\"", "\\q", "1/2", "I", "'", "{", "quit"]


def token(rng, bits):
    r = rng.random()
    if r < 0.35:
        return rng.choice(TOK)
    if r < 0.6:
        return W.num(rng, rng.getrandbits(bits))
    if r < 0.75:
        return "%d" % rng.choice([1 << bits, (1 << bits) - 1, (1 << bits) + 1, -(1 << bits), 1 << (bits - 1), 1 << 63, 1 << 64, (1 << 64) - 1, 1 << 31, -(1 << 31), -(1 << 63)])
    if r < 0.85:
        return rng.choice(["", "0x", "-", "0x-"]) + "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([1, 16, 39, 40, 41, 63, 64, 65, 200, 5000, 70000])))
    if r < 0.9:
        return "".join(chr(rng.randint(1, 126)) for _ in range(rng.randint(0, 60)))
    return "0x" + W.hexseed(rng)


def hostile_stdin(rng, text, bits):
    t = text.split("\n")
    r = rng.random()
    if r < 0.25 and t:
        for _ in range(rng.randint(1, 4)):
            t.insert(rng.randint(0, len(t)), token(rng, bits))
    elif r < 0.5:
        t = [token(rng, bits) for _ in range(rng.choice([1, 3, 10, 40]))]
    elif r < 0.7 and t:
        for _ in range(rng.randint(1, 3)):
            t[rng.randrange(len(t))] = token(rng, bits)
    elif r < 0.85:
        t = t[:rng.randint(0, min(len(t), 12))]
    s = "\n".join(t)
    if rng.random() < 0.2:
        s = s[:rng.randint(0, len(s))]
    return s


FLAGS = ["--fp", "--f2m", "-r", "--random=field", "--random=a,b", "--random=equation", "--random=seed", "--random=field,b", "-p", "-k1", "-k4", "-k9999999999", "-B4", "-B0",
         "-K", "-K1", "-u", "--hex-check=a", "--hex-check=" + "0" * 3000, "--points=all", "--points=none", "--points=random", "--points=0random", "--points=5random",
         "--points=nonprime", "-c0", "-c2", "-c-1", "--metadata", "-v", "-v2", "-v9", "--threads=3", "--threads=auto", "--thread-stack=100k", "--memory=2m", "--memory=50k", "--memory=1",
         "--timeout=1", "-n7,13", "-n91", "-n" + "9" * 400, "-n0", "-n1", "-n2", "-n-7", "-n7,7", "--anomalous", "--supersingular", "--twist", "--invalid", "-i2-3", "-i0-0", "-i3-2",
         "-i99999999999999999999-3", "-i2-99999", "--family=BN", "--family=KSS40", "--threads=300", "--ansi", "--brainpool", "--brainpool-rfc", "--nums", "--ansi=" + "ab" * 20, "--ansi=" + "0" * 40,
         "--ansi=" + "f" * 400, "--brainpool=" + "00" * 20, "--brainpool-rfc=" + "ff" * 20, "--ansi=", "--brainpool=", "--order=", "--seed=zz", "-?", "--usage", "--version", "--nosuch",
         "-o", "--output=", "--output=/nonexistent/x", "--input=/nonexistent/x", "--input=/dev/null", "--output=/dev/full", "--output=/dev/null", "--append", "--data-dir=/nonexistent", "--verbose=/dev/null",
         "--verbose=/nonexistent/y", "", "-", "--", "%n%s", "-" * 300]


def hostile_args(rng):
    bits = rng.choice(["8", "9", "10", "12", "16", "1", "2", "3", "0", "-1", "4", "5", "6", "999999999999", "4294967297", "18446744073709551616", "0x8", "8 ", "x", "", "1e1"])
    a = [rng.choice(["--fp", "--f2m"])] if rng.random() < 0.9 else []
    a += [rng.choice(FLAGS) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))] + [bits]
    rng.shuffle(a)
    if rng.random() < 0.05:
        a = a * 40
    return a


# ---- workloads

def small(rng):
    while True:
        c = W.mixed(rng, 1)[0]
        if c["spec"]["bits"] <= 80:
            return c


def plain_case(rng):
    """(workload, args, stdin, seed)"""
    r = rng.random()
    if r < 0.45:
        c = small(rng)
        return "mixed." + c["kind"], c["args"], c["stdin"], c["seed"]
    if r < 0.6:
        m = rng.choice(c22.BASES)
        c = c22.option_case(rng, m, rng.sample(c22.OPTS, rng.randint(0, 5)))
        return "options." + m, c["args"], c["stdin"], c["seed"]
    if r < 0.8:
        c = rng.choice(POOL["c07"])
        return "sequence", c["args"], c07.feed(c) if "toks" in c and "src" in c else c["stdin"], c["seed"]
    if r < 0.9:
        c = rng.choice(POOL["c15"])
        return "invalid", c["args"], c["stdin"], c["seed"]
    c = c17.cut(rng, rng.choice([None, "twist"])) if rng.random() < 0.6 else c17.partial_seed(rng)
    return "cut", c["args"], c["stdin"], c["seed"]


POOL = {}


def cases(tier, rng):
    q = tier == "quick"
    k = 1 if q else 12
    POOL["c07"] = [c for c in c07.cases("quick", rng) if c["spec"]["bits"] <= 64]
    POOL["c15"] = c15.cases("quick", rng)
    cs = []

    def add(kind, w, args, stdin, seed, **kw):
        cs.append({"kind": kind, "w": w, "args": args, "stdin": stdin, "seed": seed, "sar": rng.random() < 0.3, "weight": kw.pop("weight", 1), **kw})

    for _ in range(1000 * k):
        add("asan", *plain_case(rng))
    for _ in range(36 * k):       # cryptographic sizes, and seeds that are longer than one digest
        for c in (W.w_big(rng), c08.large(rng)):
            add("asan", "large." + c["kind"], c["args"], c["stdin"], c["seed"], weight=20)
    for _ in range(500 * k):      # hostile input to otherwise good runs
        w, a, s, sd = plain_case(rng)
        add("asan", "hostile." + w, a, hostile_stdin(rng, s, rng.randint(3, 40)), sd)
    for kind, a in c22.bad_lines() if not q else rng.sample(c22.bad_lines(), 300):
        add("asan", "refused", a, "", 1)
    for _ in range(500 * k):
        add("asan", "args", hostile_args(rng), hostile_stdin(rng, "", 12) if rng.random() < .7 else "", rng.getrandbits(40), short=True)
    for m, n in c21.METHODS.items():
        for _ in range(n * k // (2 if q else 1)):
            o, c = c21.sub(rng, m)
            c = c21.repeat(c)
            add("tmo", "timeouts." + m, c["args"], c["stdin"], c["seed"], rng=rng.getrandbits(40), fires=3)
    for _ in range(110 * k):
        w, a, s, sd = plain_case(rng)
        if any(x.startswith("--threads") for x in a) or "sar" in w:
            continue
        add("diff", w, a, s if rng.random() < .7 else hostile_stdin(rng, s, 12), sd)
    for i in range(44 * (k if q else 8)):
        c = c21.sub(rng, list(c21.METHODS)[i % len(c21.METHODS)])[1]
        a = [x for x in c["args"] if not x.startswith("--threads")]
        add("memcheck", "memcheck." + c["kind"], a, c["stdin"], c["seed"], weight=500, bits=c["spec"]["bits"])
    for _ in range(12 * k):
        c = rng.choice(POOL["c15"])
        a = [x for x in c["args"] if not x.startswith("--threads")]
        n = rng.choice([1, 2, 3, 7])
        add("asan", "nothread", a + ["--threads=%d" % n], c["stdin"], c["seed"], nothread=rng.randint(0, n))
    for _ in range(40 * k):
        add("bits", "bits", [], "", rng.getrandbits(40), ops=400, max=rng.choice([9, 17, 40, 300, 1300]))
    for _ in range(40 * k):
        add("objs", "objs", [], "", rng.getrandbits(40))
    for _ in range(12 * k):
        add("strs", "strs", [], "", rng.getrandbits(40))
    return cs


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def shown(case, env=None):
    s = case["stdin"] if isinstance(case["stdin"], str) else ""
    return "[ecgen %s, seed %s%s] input %r" % (" ".join(map(repr, case["args"])) if "" in case["args"] else " ".join(case["args"]), case["seed"],
                                               ", %s" % env if env else "", s[:160])


def verdict(r, out, where):
    """a run under the monitors: True if it was clean"""
    fr = re.findall(r"#\d+ 0x\S+ in (\S+) \S*?/((?:src|lib)/\S+)", r.err)[:5]
    m = BAD.search(r.err)
    if m and (r.rc != 0 or "AddressSanitizer" in m.group(0) or "runtime error" in m.group(0)):
        loc = re.search(r"((?:src|lib)/\S+:\d+):\d+: runtime error", r.err)
        out.bad("report", "%s at %s %s" % (m.group(0)[:160], loc.group(1) if loc else fr, where))
        return False
    if r.rc < 0 or r.rc in (97, 98):
        out.bad("crash", "exit %s: %s %s" % (r.rc, r.err[-200:], where))
        return False
    return True


def drive(case, variant, env=None, limit=12):
    with tempfile.TemporaryDirectory(prefix="vf18") as d:
        stdin = case["stdin"]
        if not isinstance(stdin, bytes):
            stdin = stdin.encode("utf-8", "replace")
        return R.run([a.replace("\0", "") for a in case["args"]], stdin, case["seed"], variant, limit, env, cwd=d)


def opts(args):
    return ",".join(sorted({re.sub(r"=.*|\d+.*", "", a) for a in args if a.startswith("-")}))[:120]


def record(case, r, out, mon):
    out.n += 1
    out.inc("runs." + case["w"])
    out.inc("exit.%s" % r.rc)
    m = re.search(r"\*\*\*\s+(.*)", r.err)
    if m and "seadata" not in m.group(1):
        out.inc("pari." + re.sub(r"[\d.:]+.*", "", m.group(1))[:50].strip())
    bits = [int(a) for a in case["args"] if a.isdigit() and len(a) < 5]
    out.sig.append("%s %s %s %s %s" % (case["w"], opts(case["args"]), (bits[-1] + 3) // 4 if bits else "-", r.rc, mon))
    out.sample = {"workload": case["w"], "args": " ".join(case["args"])[:200], "exit": r.rc, "monitors": mon}


def run_asan(case, out):
    env = {"ASAN_OPTIONS": ASAN % case["sar"], "VF_POISON": "65536"} if case["seed"] % 2 else {"ASAN_OPTIONS": ASAN % case["sar"]}
    if "nothread" in case:
        env["VF_NOTHREAD"] = case["nothread"]
    r = drive(case, "asan", env, 3 if case.get("short") else 15)
    if r.hang:
        out.inconclusive += 0 if case.get("short") else 1
        out.inc("cut_off." + case["w"])
        if BAD.search(r.err) and "Sanitizer" in r.err:
            verdict(r, out, shown(case))
        return
    if verdict(r, out, shown(case)):
        record(case, r, out, "asan")


def run_tmo(case, out):
    rng = random.Random(case["rng"])
    fd, f = tempfile.mkstemp()
    os.close(fd)
    try:
        c = dict(case, args=["--timeout=1"] + case["args"])
        base = {"ASAN_OPTIONS": ASAN % case["sar"], "VF_TMOLOG": f}
        r = drive(c, "asan", {**base, "VF_TMO": "log"}, 30)
        t = open(f).read().split()
        if r.hang or len(t) < 7:
            out.inconclusive += 1
            if not r.hang:
                verdict(r, out, shown(c))
            return
        ev = int(t[0])
        for _ in range(case["fires"] if ev else 0):
            fire = sorted(rng.randint(1, ev) for _ in range(rng.choice([1, 1, 3, 8])))
            env = {"VF_TMO": ",".join(map(str, fire)), "VF_POISON": "65536"}
            open(f, "w").close()
            r = drive(c, "asan", {**base, **env}, 20)
            if r.hang:
                out.inc("cut_off." + case["w"])
                continue
            if not verdict(r, out, shown(c, env)):
                return
            t = open(f).read().split()
            out.inc("timeouts_delivered", int(t[1]) if len(t) > 1 else 0)
            record(c, r, out, "asan, %d timeouts, poisoned stack" % len(fire))
    finally:
        os.unlink(f)


def run_diff(case, out):
    """released or uninitialised memory must not influence what is printed"""
    a = drive(case, "plain", None, 10)
    if a.hang:
        out.inconclusive += 1
        return
    if not verdict(a, out, shown(case)):
        return
    for env in ({"VF_POISON": "65536"}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "90", "VF_POISON": "4096"}):
        b = drive(case, "plain", env, 40)
        if b.hang:
            out.inc("cut_off.compared")
            continue
        if not verdict(b, out, shown(case, env)):
            return
        if (a.rc, a.out) != (b.rc, b.out):
            x = drive(case, "plain", None, 40)
            if (x.rc, x.out) != (a.rc, a.out):
                out.inc("not_reproducible." + case["w"])
                return
            i = next((i for i, (p, s) in enumerate(zip(a.out, b.out)) if p != s), min(len(a.out), len(b.out)))
            out.bad("memory", "the contents of released or fresh memory show in the output: exit %s/%s, ...%r / ...%r %s" % (
                a.rc, b.rc, a.out[max(0, i - 30):i + 40], b.out[max(0, i - 30):i + 40], shown(case, env)))
            return
        record(case, b, out, "compared " + ",".join(sorted(env)))


def run_memcheck(case, out):
    with tempfile.TemporaryDirectory(prefix="vf18") as d:
        log = d + "/log"
        e = {k: v for k, v in os.environ.items() if not k.startswith("VF_")}
        e.update(VF_SEED=str(case["seed"]))
        cmd = ["valgrind", "-q", "--log-file=" + log, "--num-callers=30", "--undef-value-errors=yes", vg()] + case["args"]
        try:
            p = subprocess.run(cmd, input="\n".join(case["stdin"].split("\n")[:30]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env=e, cwd=d)
        except subprocess.TimeoutExpired:
            p = None
        text = open(log).read() if os.path.exists(log) else ""
    n = 0
    for blk in re.split(r"==\d+== \n", text):
        head = re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Syscall|Source and|Mismatched|Jump).*)", blk)
        own = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+) \((\w+\.c:\d+)\)", blk)
        if head and own:
            n += 1
            out.bad("memcheck", "%s in %s %s" % (head.group(1), own[:4], shown(case)))
            break
        if head:
            out.inc("memcheck.outside")
    if p is None:
        out.inc("cut_off." + case["w"])
        out.inconclusive += 1
    elif not n and case["args"]:
        r = R.Result()
        r.rc, r.err = p.returncode, p.stderr
        if verdict(r, out, shown(case)):
            record(case, r, out, "memcheck")


def run_bits(case, out):
    o = type(out)()
    c20.run({"kind": "chain", "seed": case["seed"], "ops": case["ops"], "variant": "asan", "max": case["max"]}, o)
    for code, det in o.problems:
        if code == "crash":
            out.bad("report", "bit strings: " + det)
    out.n += o.n
    out.sig += ["bits " + str(s) for s in o.sig]


def run_objs(case, out):
    o = type(out)()
    c24.run({"kind": "pool", "seed": case["seed"], "ops": 500, "variant": "asan"}, o)
    for code, det in o.problems:
        if code == "memory":
            out.bad("report", "objects: " + det)
    out.n += o.n
    out.sig += ["objs " + s for s in o.sig]


def run_strs(case, out):
    exe = strs()
    if not exe:
        out.inc("no_string_helpers")
        return
    rng = random.Random(case["seed"])

    def s(null=False):
        r = rng.random()
        if null and r < 0.1:
            return None
        return "".join(rng.choice(",ab0F:\x01\xff" if r < .6 else "0123456789abcdefABCDEFx") for _ in range(rng.choice([0, 1, 2, 3, 8, 60, 500])))

    def enc(x):
        return "-" if x is None else x.encode("latin1").hex() or "."
    lines, want, sigs = [], [], []
    for _ in range(250):
        op = rng.choice(["join", "concat", "joinv", "joinv", "hex", "cnt"])
        sep = rng.choice([None, "", ",", ", ", s()])
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 20, 21, 40, 50])
        if op == "hex":
            x = rng.choice([s(), "0x" + s(), "0X" + s(), "0x", "0X1", "0", "x", "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(0, 90)))])
            lines.append("hex " + enc(x))
            y = x[2:] if len(x) > 2 and x[:2] in ("0x", "0X") else x
            want.append(enc(y) if all(ch in "0123456789abcdefABCDEF" for ch in y) else "-")
        elif op == "cnt":
            x, ch = s(), rng.choice(",ab0")
            lines.append("cnt %s %s" % (enc(ch), enc(x)))
            want.append(str(x.count(ch)))
        else:
            a = [s(op != "joinv") for _ in range(n)]
            lines.append(" ".join([op, enc(sep)] + [enc(x) for x in a]))
            want.append(enc(("" if op == "concat" else sep or "").join(x or "" for x in a)))
        sigs.append("strs %s %d %s" % (op, n if "j" in op else 0, enc(sep)[:4] if "j" in op else ""))
    p = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120,
                       env=dict(os.environ, ASAN_OPTIONS=ASAN % 0, UBSAN_OPTIONS=R.SAN_ENV["UBSAN_OPTIONS"]))
    got = p.stdout.split("\n")
    for i, (l, w) in enumerate(zip(lines, want)):
        if i >= len(got) - 1:
            out.bad("report", "string helpers: exit %s after %s: %s" % (p.returncode, l[:200], p.stderr[:400]))
            return
        out.n += 1
        if got[i] != w:
            out.bad("string", "%s gives %s, expected %s" % (l[:200], got[i][:200], w[:200]))
            return
        out.sig.append(sigs[i])
    if p.returncode:
        out.bad("report", "string helpers: exit %s: %s" % (p.returncode, p.stderr[:400]))
