"""C07: given parameters are used exactly, or rejected."""
import os, tempfile
from vf import auditcheck as A, audit, ec, emul, run as R, workload as W

RULE = "one distinct observation per (field kind, size, source, pattern of accepted and rejected values, result)"
MIN_DISTINCT = 100


def setup():
    A.setup()


JUNK = ["", " ", "x", "0x", "-", "--3", "1e3", "12abc", "0xfg", "abc", "0b101", "+5", "1 2", "\t", "0x-3", "'5'", "5.0", "é"]


def bad_field(rng, field, bits):
    """tokens for a rejected field, with a note"""
    r = rng.random()
    if r < 0.25:
        return [rng.choice(JUNK)], "junk"
    if field == "fp":
        if r < 0.5:
            v = rng.getrandbits(bits)
            if bits > 8 and r < 0.42:
                return [W.num(rng, W.pseudoprime(rng, bits))], "pseudoprime"
            while ec.is_prime(v):
                v = rng.getrandbits(bits)
            return [W.num(rng, v)], "composite"
        if r < 0.65:
            return [W.num(rng, W.rand_prime(rng, bits + rng.randint(1, 9)))], "large"
        if r < 0.8:
            return [rng.choice(["0", "1", "-1", "-2", "-7", "4", "-" + str(W.rand_prime(rng, bits))])], "small"
        p = W.rand_prime(rng, max(3, bits // 2))
        return [W.num(rng, p * p) if (p * p).bit_length() <= bits else W.num(rng, 9)], "square"
    if r < 0.4:
        return [W.num(rng, bits + rng.choice([-1, 1, 2]))], "size"
    if r < 0.7:
        e = W.rand_poly(rng, bits, irreducible=False)
        if e:
            return [W.num(rng, bits)] + [W.num(rng, x) for x in e], "reducible"
    if r < 0.8:
        return [W.num(rng, bits), "0", "0", "0"], "zero"
    k = rng.randint(0, 2)
    return [W.num(rng, bits)] + [W.num(rng, rng.randrange(1, bits)) for _ in range(k)] + [
        rng.choice(["-1", "x", "", str(bits), "65536", "70000"])], "exponent"


def sequence(rng, field, bits, n):
    toks, note = [], []
    made = 0
    while made < n:
        for _ in range(W.pick(rng, [(0, 50), (1, 30), (2, 15), (4, 5)])):
            t, w = bad_field(rng, field, bits)
            toks += t
            note.append(w)
        if field == "fp":
            p = W.rand_prime(rng, bits if rng.random() < .8 else rng.randint(3, bits))
            toks.append(W.num(rng, p))
            lim = 1 << bits
            sing = rng.random() < 0.15
            if sing:
                z = rng.randrange(p)
                ab = [-3 * z * z % p, 2 * z**3 % p]
            else:
                ab = [W.pick(rng, [(rng.randrange(lim), 60), (rng.randrange(p), 20), (-rng.randrange(1, lim), 15),
                                   (-1, 4), (-2, 4), (0, 4), (1, 3), (lim - 1, 3), (-(lim - 1), 2)]) for _ in range(2)]
        else:
            e = W.rand_poly(rng, bits)
            if rng.random() < 0.2:
                rng.shuffle(e)
            toks += [W.num(rng, bits)] + [W.num(rng, x) for x in e]
            lim = 1 << bits
            sing = rng.random() < 0.15
            ab = [W.coef(rng, lim), 0 if sing else W.coef(rng, lim)]
        for v in ab:
            for _ in range(W.pick(rng, [(0, 80), (1, 14), (3, 6)])):
                toks.append(rng.choice(JUNK + [str(lim), hex(lim + rng.randrange(99)), "-" + str(lim)]))
                note.append("badcoef")
            toks.append(W.num(rng, v))
        if sing:
            note.append("singular")
        else:
            note.append("ok")
            made += 1
    return toks, note


def cases(tier, rng):
    n = 1700 if tier == "quick" else 20000
    cs = []
    for _ in range(n):
        field = rng.choice(["fp", "f2m"])
        bits = W.bits_fp(rng, 3, 104) if field == "fp" else W.bits_f2m(rng, 4, 96)
        count = W.pick(rng, [(1, 40), (2, 30), (3, 20), (5, 10)])
        if bits > 100:
            count = 1
        toks, note = sequence(rng, field, bits, count)
        r = rng.random()
        if r < 0.35:     # end of the input at some position
            toks = toks[:rng.randint(0, len(toks))]
            note.append("cut")
        elif r < 0.5:
            toks += ["7"] * 3
        src = rng.choice(["stdin", "stdin", "file"])
        if src == "file":
            toks = [t for t in toks]
        spec = {"field": field, "bits": bits, "count": count}
        args = ["--" + field, str(bits)] + (["-c%d" % count] if count > 1 or rng.random() < 0.3 else [])
        if rng.random() < 0.5:
            args.append("--points=none")
            spec["points"] = "none"
        cs.append({"kind": "given", "spec": spec, "args": args, "toks": toks, "src": src, "note": note,
                   "eol": rng.choice([True, True, False]), "sep": rng.choice(["", "", " ", "\n"]),
                   "seed": rng.getrandbits(40), "weight": bits * count})
    for _ in range(n // 5):
        cs.append(W.w_partial(rng))
    for _ in range(n // 12):
        c = W.w_supersingular(rng)
        if c.get("given"):
            cs.append(c)
    for _ in range(n // 20):
        cs.append(invalid_start(rng))
    return cs


def invalid_start(rng):
    bits = rng.randint(5, 12)
    bad = []
    for _ in range(rng.choice([0, 1, 2])):
        bad += bad_field(rng, "fp", bits)[0]
    lines, p, a, b = W.curve_input(rng, "fp", bits)
    cut = rng.random() < 0.2
    toks = bad + lines
    return {"kind": "invalid", "spec": {"field": "fp", "bits": bits}, "args": ["--fp", "-i2-3", "--points=none", str(bits)],
            "toks": toks, "src": "stdin", "note": ["inv"], "eol": True, "sep": "", "seed": rng.getrandbits(40), "want": [p, a, b]}


def feed(case):
    toks = case["toks"]
    if case["src"] == "stdin":
        return "\n".join(toks) + ("\n" if case["eol"] and toks else "")
    return ("," + case["sep"]).join(toks) + ("\n" if case["eol"] and toks else "")


def run(case, out):
    where = "[ecgen %s, seed %s]" % (" ".join(case["args"]), case["seed"])
    if case["kind"] == "partial":
        r, curves, pr = A.audit_case(case, out, ["field"])
        if r.hang:
            return
        if r.rc != 0:
            out.bad("used", "exit %s: %s %s" % (r.rc, r.err[-100:], where))
        # with one curve (or several) the values given in turn; a singular one makes the program read the next
        gv = case["given"]
        i = 0
        for c in curves:
            f = c.p if c.prime else c.poly
            def fits(g):
                gf = g[0]
                if gf is not None and not c.prime:
                    gf = 1 << c.m | 1
                    for e in g[0]:
                        gf |= (1 << e) if e else 0
                if gf is not None and gf != f:
                    return False
                for v, w in ((g[1], c.a), (g[2], c.b)):
                    if v is not None and (v % c.p if c.prime else v) != w:
                        return False
                return True
            j = i
            while j < len(gv) and not fits(gv[j]):
                j += 1
            if j - i > 2 or j >= len(gv):
                out.bad("used", "the given values %s are not those of (%#x, %#x, %#x) %s" % (gv[i:i + 2], f, c.a, c.b, where))
                break
            i = j + 1
        prompts = r.err.split()
        for g, pname in ((gv[0][0], "p:" if case["spec"]["field"] == "fp" else "m:"), (gv[0][1], "a:"), (gv[0][2], "b:")):
            if g is None and pname in prompts:
                out.bad("asked", "asked for %s %s" % (pname, where))
        return
    if case["kind"] == "supersingular":
        r, curves, pr = A.audit_case(case, out, ["field"])
        if not r.hang and [c.p for c in curves] != [g[0] for g in case["given"]]:
            out.bad("used", "fields %s, given %s %s" % ([c.p for c in curves], case["given"], where))
        return
    text = feed(case)
    if case["src"] == "stdin":
        toks = text.split("\n")
        if toks[-1] == "":
            toks.pop()
        r = R.run(case["args"], text, case["seed"])
    else:
        toks = text.split(",")
        if toks[-1] == "":
            toks.pop()
        with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
            f.write(text)
            f.flush()
            r = R.run(case["args"] + ["-f", f.name], "", case["seed"])
    out.inc("runs." + case["src"])
    where += " input %r" % (toks[:14],)
    if r.hang:
        r = R.run(case["args"], text, case["seed"], timeout=120) if case["src"] == "stdin" else r
        sp = case["spec"]
        if r.hang and case["kind"] == "given" and not emul.curves(sp["field"], sp["bits"], toks, sp["count"])[1]:
            out.bad("hang", "does not end " + where)
            return
        if r.hang:
            out.inconclusive += 1
            return
    sp = case["spec"]
    if case["kind"] == "invalid":
        out.n += 1
        want, enough, _ = emul.curves("fp", sp["bits"], toks, 1)
        try:
            doc = R.parse(r.out)
        except ValueError:
            doc = []
        if want and (not doc or (R.hx(doc[0]["field"]["p"]), R.hx(doc[0]["a"]), R.hx(doc[0]["b"])) != want[0]):
            out.bad("used", "first curve of the invalid set is not the given one %s" % where)
        if not want and (doc or r.rc == 0):
            out.bad("used", "no curve was given: exit %s, %d curves %s" % (r.rc, len(doc), where))
        return
    pr, curves = audit.audit_doc(r, sp)
    out.n += max(1, len(curves))
    want, enough, certain = emul.curves(sp["field"], sp["bits"], toks, sp["count"])
    out.inc("curves", len(curves))
    for n in case["note"]:
        out.inc("input." + n)
    out.sig.append("%s %d %s %s %s" % (sp["field"], sp["bits"], case["src"], ",".join(case["note"])[:80], r.rc))
    d = emul.compare(curves, want, sp["field"])
    if any(c in ("crash", "json") for c, _ in pr):
        out.bad("broken", "%s %s" % (pr[:1], where))
    elif d:
        out.bad("used", d + " " + where)
    elif certain and len(curves) != len(want):
        out.bad("used", "%d curves, expected %d %s %s" % (len(curves), len(want), r.err[-100:], where))
    elif certain and (r.rc == 0) != enough:
        out.bad("status", "exit status %d with %d of %d curves %s" % (r.rc, len(curves), sp["count"], where))
    out.sample = {"args": " ".join(case["args"]), "tokens": toks[:10], "expected": [list(map(hex, w)) for w in want[:2]],
                  "exit": r.rc}
