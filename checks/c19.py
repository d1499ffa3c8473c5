"""C19: no data race, no deadlock in threaded invalid-curve generation."""
import re
from vf import auditcheck as A, run as R
from . import c15

RULE = ("one distinct observation per (field kind, size, threads, number of primes, grouping and order of the "
        "curves in the output) under the race detector or injected delays")
ASSUME = ["PARI itself is not instrumented: races inside PARI are out of scope",
          "a deadlock is a run that twice does not end within a generous watchdog"]
MIN_DISTINCT = 40


def setup():
    A.setup("plain", "tsan")


def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    cs = []
    for c in c15.cases(tier, rng):
        if c["threads"] == 1:
            c["threads"] = rng.choice([2, 3, 5, 8, 12])
            c["args"] = [x for x in c["args"] if not x.startswith("--threads")] + ["--threads=%d" % c["threads"]]
        c["env"] = {"VF_DELAY": "%d:%d" % (rng.getrandbits(30), rng.choice([20, 200, 2000, 10000]))} if rng.random() < .75 else {}
        c["variant"] = "tsan" if rng.random() < 0.75 else "plain"
        if rng.random() < 0.15:
            c["args"].insert(0, "--timeout=1")
            if rng.random() < 0.7:
                c["env"]["VF_TMO"] = "every:%d" % rng.choice([60, 100, 250])
                c["stdin"] = c["stdin"] * 40
        if rng.random() < 0.15:
            c["args"].insert(0, "-v")
        if rng.random() < 0.12:
            c["env"]["VF_NOTHREAD"] = "%d" % rng.randint(1, c["threads"])
        cs.append(c)
    return cs


def run(case, out):
    where = "[ecgen %s, seed %s, %s] %s" % (" ".join(case["args"]), case["seed"], case.get("env"), case["stdin"].split())
    for limit in (90, 180):
        r = R.run(case["args"], case["stdin"], case["seed"], case["variant"], limit, case.get("env"))
        if not r.hang:
            break
    if r.hang and not c15.possible(case):
        out.inc("impossible")
        return
    if r.hang:
        out.bad("deadlock", "does not end " + where)
        return
    out.inc("runs." + case["variant"])
    out.inc("threads", case["threads"])
    m = re.search(r"WARNING: ThreadSanitizer: (.*)\n((?:.*\n){0,14})", r.err)
    if m:
        fr = re.findall(r"#\d+ (\S+) \S*/(src/\S+)", r.err)[:6]
        out.bad("race", "%s %s %s" % (m.group(1), fr, where))
        return
    if r.rc is not None and (r.rc < 0 or r.rc == 96):
        out.bad("crash", "exit %s %s %s" % (r.rc, r.err[-200:], where))
        return
    if "VF_NOTHREAD" in (case.get("env") or {}):
        out.inc("runs_lacking_threads")
        if r.rc:
            return      # giving up is fine, too
    c15.judge(case, r, out, c15.CODES)
