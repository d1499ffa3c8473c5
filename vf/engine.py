"""Runs the cases of a check in parallel, collects what its oracle saw, writes evidence and verdict."""
import argparse, importlib, json, multiprocessing as mp, os, random, re, signal, sys, time, traceback
from . import build, gp

VERIF = build.VERIF
REPLAY = os.path.join(VERIF, "replay")
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Out:
    """What one case showed."""

    def __init__(self):
        self.problems = []      # (code, detail)
        self.sig = []           # signatures of non-trivial things observed
        self.n = 0              # evaluations of the oracle (documents, curves, calls ...)
        self.count = {}         # named counters
        self.sample = None
        self.inconclusive = 0

    def bad(self, code, detail=""):
        self.problems.append((code, str(detail)[:600]))

    def inc(self, k, v=1):
        self.count[k] = self.count.get(k, 0) + v


def findings(prop):
    """(regex over 'code detail case') of the findings listed for the property"""
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def _work(arg):
    mod, case = arg
    m = importlib.import_module(mod)
    for attempt in (0, 1):
        o = Out()
        try:
            m.run(case, o)
            return case, o, None
        except gp.GPTimeout as e:
            if attempt:
                o.inconclusive += 1
                return case, o, None
        except Exception:
            if attempt:
                return case, o, traceback.format_exc()
    return case, o, None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _descendants():
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read()
                kids.setdefault(int(f[f.rindex(")") + 2:].split()[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    res, todo = [], [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            res.append(k)
            todo.append(k)
    return res


def _stop(pool):
    """stop the workers and what they started"""
    pids = _descendants()
    pool.terminate()
    for k in pids:
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass


def execute(prop, tier, seed, procs=8, replay=None):
    mod = "checks." + prop.lower()
    m = importlib.import_module(mod)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    try:
        m.setup()
    except build.BuildError as e:
        print("build failed: %s" % str(e)[-3000:], file=sys.stderr)
        return 2
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        rng = random.Random("%s %s" % (prop, seed))
        cases = m.cases(tier, rng)
        for i, c in enumerate(cases):
            c.setdefault("id", i)
    soft = 360 if tier == "quick" else 3000
    tot = Out()
    sigs = set()
    samples, errors, viol = [], [], []
    seen = set()
    fnd = findings(prop)
    known = {}
    skipped = done = 0
    rng = random.Random(seed)
    # a sample of the short cases, then the long ones, then the rest
    cases.sort(key=lambda c: -c.get("weight", 0))
    half = len(cases) // 2
    cases = cases[half:][::4] + cases[:half] + [c for i, c in enumerate(cases[half:]) if i % 4]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs if len(cases) > 1 else 1, initializer=_init) as pool:
        it = pool.imap_unordered(_work, ((mod, c) for c in cases), chunksize=1)
        for _ in range(len(cases)):
            try:
                left = soft - (time.time() - t0)
                if left <= 0:
                    raise mp.TimeoutError
                case, o, e = it.next(timeout=left)
            except mp.TimeoutError:
                skipped = len(cases) - done
                _stop(pool)
                break
            except StopIteration:
                break
            done += 1
            if e:
                errors.append((case, e))
                if len(errors) > 20:
                    _stop(pool)
                    break
            tot.n += o.n
            tot.inconclusive += o.inconclusive
            for k, v in o.count.items():
                tot.inc(k, v)
            sigs.update(map(str, o.sig))
            if o.sample is not None and (len(samples) < 4 or rng.random() < 0.002):
                samples = (samples + [o.sample])[-6:]
            fresh = []
            for code, det in o.problems:
                s = "%s %s %s" % (code, det, json.dumps(case, sort_keys=True))
                hit = [d for r, d in fnd if r.search(s)]
                if hit:
                    known[hit[0]] = known.get(hit[0], 0) + 1
                else:
                    fresh.append((code, det))
            if fresh:
                viol.append((case, fresh))
                if len(viol) >= 12 or time.time() - t0 > 150:
                    _stop(pool)
                    skipped = len(cases) - done
                    break
    if hasattr(m, "finish") and not replay:
        o = Out()
        m.finish(tot, sigs, o, tier)
        if o.problems:
            viol.append(({"finish": True}, o.problems))
    for d, k in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, d, k))
    for i, (case, pr) in enumerate(viol):
        path = os.path.join(REPLAY, "%s-%s-%d.json" % (prop, case.get("id", "x"), os.getpid()))
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "problems": pr,
                       "how": "cd /verif && ./check %s replay %s" % (prop, path)}, f, indent=1)
        if i < 12:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            for code, det in pr[:4]:
                print("   %s: %s" % (code, det[:300]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot.n, "distinct_nontrivial": len(sigs), "rule": m.RULE,
                       "samples": samples or ["(none)"], "cases_run": done, "cases_planned": len(cases),
                       "cases_skipped_by_watchdog": skipped, "inconclusive": tot.inconclusive,
                       "harness_errors": len(errors), "observed": dict(sorted(tot.count.items()))},
          "assumptions": getattr(m, "ASSUME", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    if not replay:
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%s: %d cases, %d evaluations, %d distinct, %d inconclusive, %d skipped, %d violations, %.1fs" % (
        prop, tier, seed, done, tot.n, len(sigs), tot.inconclusive, skipped, len(viol), time.time() - t0))
    for case, e in errors[:3]:
        print("harness error on %s\n%s" % (json.dumps(case)[:300], e), file=sys.stderr)
    if viol:
        return 1
    if errors:
        return 2
    if not replay and (tot.n == 0 or len(sigs) < getattr(m, "MIN_DISTINCT", 1)):
        print("observed too little to decide", file=sys.stderr)
        return 2
    return 0


def main(argv):
    sys.path.insert(0, VERIF)
    prop, tier = argv[0].upper(), (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = argv[2] if tier == "replay" else None
    build.prune()
    return execute(prop, "quick" if replay else tier, seed, replay=replay)
