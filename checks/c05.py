"""C05: the binary field chosen for a degree."""
import os, subprocess
from vf import build, run as R, workload as W

RULE = "one distinct observation per degree whose polynomial was tested for irreducibility"
MIN_DISTINCT = 9000
ASSUME = ["the field generator called directly (as the unit tests do) chooses as it does in the program; program runs confirm it for small degrees"]


def setup():
    R.binary("plain")
    build.link("plain", "tables", ["tables.c"], with_main=False)


def cases(tier, rng):
    cs = []
    step = 100
    for lo in range(2, 10001, step):
        cs.append({"kind": "table", "lo": lo, "hi": min(lo + step - 1, 10000), "weight": lo})
    for m in list(range(2, 33)) + rng.sample(range(33, 60 if tier == "quick" else 130), 12 if tier == "quick" else 90):
        cs.append({"kind": "run", "m": m, "seeds": [rng.getrandbits(40), rng.getrandbits(40)], "weight": m})
    return cs


def query(mode, lo, hi, timeout=300):
    p = subprocess.run([build.link("plain", "tables", ["tables.c"], with_main=False), mode, str(lo), str(hi)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    return p


def run(case, out):
    if case["kind"] == "table":
        p = query("fields", case["lo"], case["hi"])
        seen = set()
        for l in p.stdout.splitlines():
            f = l.split(None, 1)
            if len(f) < 2 or not f[0].isdigit():
                continue
            m = int(f[0])
            out.n += 1
            verdict = f[1].split()[0]
            if verdict != "irr":
                out.bad("field.%s" % verdict, l[:200])
                seen.add(m)
                continue
            exps = [int(x) for x in f[1].split(":")[1].split()]
            seen.add(m)
            if len(exps) not in (3, 5) or exps[-1] != 0 or exps[0] != m or "p2:" not in f[1]:
                out.bad("shape", l[:200])
            out.sig.append("m%d" % m)
            out.inc("terms_%d" % len(exps))
            out.sample = l[:120]
        for m in range(case["lo"], case["hi"] + 1):
            if m not in seen:
                out.bad("none", "no field for degree %d (exit %s, %s)" % (m, p.returncode, p.stderr[-200:]))
        return
    m = case["m"]
    q = query("fields", m, m).stdout
    fields = set()
    for k, sd in enumerate(case["seeds"]):
        args = ["--f2m", "-r", "--points=none", "-c", "2", str(m)]
        r = R.run(args, "", sd, "plain", 60)
        if r.hang:
            out.inconclusive += 1
            return
        try:
            cs = [R.Curve(d) for d in R.parse(r.out)]
        except ValueError as e:
            out.bad("doc", "ecgen %s: %s" % (" ".join(args), e))
            return
        if r.rc or len(cs) != 2:
            out.bad("fail", "ecgen %s seed %s: exit %s, %d curves" % (" ".join(args), sd, r.rc, len(cs)))
        for c in cs:
            out.n += 1
            fields.add((c.m,) + tuple(sorted([e for e in (c.e1, c.e2, c.e3) if e], reverse=True)) + (0,))
    exps = tuple(int(x) for x in q.split(":")[1].split()) if ":" in q else None
    if fields != {exps}:
        out.bad("program", "degree %d: the program printed %s, the generator chose %s" % (m, sorted(fields), exps))
    out.sig.append("run m%d" % m)
