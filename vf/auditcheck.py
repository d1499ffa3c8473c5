"""Checks that run a workload of ecgen runs and audit what each printed."""
import re
from . import audit, build, gp, run as R, workload as W


def setup(*variants):
    for v in variants or ("plain",):
        R.binary(v)


def go(case, variant="plain", timeout=60, env=None, extra=None):
    """run a case; a run cut off by the watchdog is tried once more with a larger allowance"""
    args = case["args"] + (extra or [])
    r = R.run(args, case.get("stdin", ""), case.get("seed"), variant, timeout, env)
    return r


def signature(case, r, curves):
    sp = case["spec"]
    for c in curves:
        i = getattr(c, "info", {})
        shape = tuple(sorted(i.get("exps", [])))[:6] if i.get("exps") else ()
        yield "%s|%s|%d|%d gens|%s|%s|%s" % (
            case["kind"], sp["field"], (sp["bits"] + 3) // 4, len(c.gens), shape, sp.get("points", "prime"),
            ",".join(k for k in ("prime", "cofactor", "smooth", "unique", "koblitz", "hex") if sp.get(k) is not None))


def match(code, prefixes):
    return any(code == p or code.startswith(p + ".") for p in prefixes)


def audit_case(case, out, codes, timeout=60, variant="plain", env=None, must=False):
    """Run, audit, report the problems whose code starts with one of `codes`; returns (r, curves, problems)."""
    r = go(case, variant, timeout, env)
    out.inc("runs." + case["kind"])
    if r.hang:
        out.inc("cut_off")
        out.inconclusive += 1
        if "hang" in codes:
            r2 = go(case, variant, timeout * 2, env)
            if r2.hang:
                out.bad("hang", "no result within %d s, twice" % timeout)
        return r, [], []
    pr, curves = audit.audit_doc(r, case["spec"])
    out.n += max(1, len(curves))
    out.inc("curves", len(curves))
    out.inc("generators", sum(len(c.gens) for c in curves))
    out.inc("points", sum(len(g[3]) for c in curves for g in c.gens))
    out.inc("exit_%s" % r.rc)
    for s in signature(case, r, curves):
        out.sig.append(s)
    for code, det in pr:
        if match(code, codes) or code == "crash" or (code == "json" and r.rc == 0):
            out.bad(code, "%s [ecgen %s, seed %s]" % (det, " ".join(case["args"]), case["seed"]))
        else:
            out.inc("other." + code)
    if must and r.rc != 0 and not any(match("fail", [c]) for c in codes if c == "nofail"):
        pass
    if curves:
        c = curves[0]
        out.sample = {"args": " ".join(case["args"]), "order": hex(c.N), "field": c.d["field"],
                      "generators": len(c.gens), "points": sum(len(g[3]) for g in c.gens),
                      "group_factorisation": [list(map(str, c.info.get("primes", []))), c.info.get("exps", [])]}
    return r, curves, pr


RULE = ("one distinct observation per (method, field kind, size class of 4 bits, number of generators, "
        "exponent pattern of the group order's factorisation, points option, constraints) of an audited curve")
