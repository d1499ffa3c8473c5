"""C17: one well-formed document, an honest exit status, whatever the outcome and the output."""
import os, re, shutil, tempfile
from vf import audit, auditcheck as A, emul, run as R, workload as W
from . import c15

RULE = ("one distinct observation per (method, field kind, output kind, verbosity, number of curves asked for and "
        "emitted, exit status, kind of fault)")
MIN_DISTINCT = 150
ASSUME = ["a fatal error inside PARI ends the run without a document", "an output file that cannot be opened is reported on stderr; the document then goes to standard output or the run fails"]
CODES = ["json", "shape", "count", "status", "crash"]
SINKS = ["stdout", "file", "over", "append", "appendnew", "append2"]


def setup():
    A.setup()


def cut(rng, method=None):
    """a run over several given curves whose input ends early, or that ends in rejected ones"""
    field = W.pick(rng, [("fp", 60), ("f2m", 40)])
    bits = rng.randint(4, 40)
    n = rng.choice([1, 2, 3, 4, 6])
    toks, ends = [], []
    for _ in range(n):
        l, *_ = W.curve_input(rng, field, bits)
        if rng.random() < 0.2:
            toks.append(rng.choice(["x", "", "4", "0"]))
        toks += l
        ends.append(len(toks))
    k = rng.choice([rng.randint(0, len(toks)), rng.choice([0] + ends), len(toks), len(toks)])
    toks = toks[:k]
    args = ["--" + field, "-c%d" % n, str(bits)] + (["--twist"] if method == "twist" else [])
    spec = {"field": field, "bits": bits, "count": n}
    if rng.random() < 0.5:
        args.append("--points=none")
        spec["points"] = "none"
    if rng.random() < 0.3:
        args.append("--metadata")
        spec["metadata"] = True
    return W.case("cut", args, spec, "".join(t + "\n" for t in toks), seed=rng.getrandbits(40), toks=toks, twist=method == "twist")


def partial_seed(rng):
    """ANSI and Brainpool runs whose list of seeds ends early"""
    n = rng.choice([2, 3, 4])
    k = rng.randint(0, n - 1)
    if rng.random() < 0.5:
        bits = rng.randint(8, 24)
        spec, args = {"field": "fp", "bits": bits, "count": n, "hashexp": True}, ["--fp", "--ansi", "--random=field", "-c%d" % n, str(bits)]
    else:
        bits = rng.randint(6, 20)
        spec, args = {"field": "fp", "bits": bits, "count": n}, ["--fp", rng.choice(["--brainpool", "--brainpool-rfc"]), "-c%d" % n, str(bits)]
    return W.case("seedcut", args, spec, "".join(W.hexseed(rng) + "\n" for _ in range(k)), seed=rng.getrandbits(40), most=k)


def invalid(rng):
    c = c15.cases("tiny", rng)[0]
    c["kind"] = "invalid"
    return c


def cases(tier, rng):
    n = 1500 if tier == "quick" else 15000
    cs = []
    inv = c15.cases("quick", rng)
    for c in inv:
        c["kind"] = "invalid"
    for i in range(n):
        r = rng.random()
        if r < 0.3:
            c = cut(rng, "twist" if rng.random() < 0.2 else None)
        elif r < 0.36:
            c = partial_seed(rng)
        elif r < 0.5:
            c = rng.choice(inv)
            c = dict(c, seed=rng.getrandbits(40), args=list(c["args"]))
            if rng.random() < 0.25 and c["stdin"].strip():
                t = c["stdin"].split("\n")[:-1]
                t = t[:rng.randrange(len(t))]
                c["stdin"] = "".join(x + "\n" for x in t)
                c["kind"] = "invalidcut"
        else:
            c = W.mixed(rng, 1)[0]
            while c["spec"]["bits"] > 64:
                c = W.mixed(rng, 1)[0]
        c["sink"] = W.pick(rng, [("stdout", 30)] + [(s, 8) for s in SINKS[1:]] + [
            ("full", 8), ("stdoutfull", 5), ("limit", 8), ("limitout", 4), ("closed", 3), ("nodir", 3), ("isdir", 2)])
        c["verb"] = W.pick(rng, [("", 60), ("v", 20), ("file", 15), ("badfile", 5)])
        if c["sink"] == "closed":
            c["verb"] = c["verb"][:1] if c["verb"] in ("", "v") else ""     # (a file opened would take its place)
        if c.get("opt") and not c["opt"].endswith("-") and c15.covered(c["opt"], 0, [])[1] == []:
            c["kind"] = "empty"
        c["limit"] = rng.choice([0, 1, 2, 3, 10, rng.randint(1, 400), rng.randint(1, 2000)])
        c["old"] = rng.choice(["", "x", "[]\n", "#" * 5000, "line\nline", "[\n{}\n"])
        cs.append(c)
    # every usage error leaves standard output empty and fails (more of these in C22)
    for a in (["--fp"], ["8"], ["--fp", "--f2m", "8"], ["--fp", "8", "9"], ["--fp", "-n0x", "8"], ["--fp", "--nosuch", "8"], []):
        cs.append({"kind": "usage", "args": a, "stdin": "", "seed": 1, "sink": "stdout", "verb": "", "spec": {}, "limit": 0, "old": ""})
    return cs


def run(case, out):
    d = tempfile.mkdtemp(prefix="vf17")
    try:
        _run(case, out, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(case, out, d):
    args, sink, old = list(case["args"]), case["sink"], case["old"].encode()
    f = os.path.join(d, "out.json")
    kw, dest = {}, None
    if sink == "file":
        args += ["-o", f]
    elif sink == "over":
        open(f, "wb").write(old + b"z" * 3000)
        args += ["--output=" + f]
    elif sink in ("append", "append2", "appendnew"):
        if sink != "appendnew":
            open(f, "wb").write(old)
        args = args + ["-o", f, "-a"] if case["seed"] % 2 else ["--append", "-o", f] + args
    elif sink == "full":
        args += ["-o", "/dev/full"]
    elif sink == "stdoutfull":
        kw["stdout"] = "/dev/full"
    elif sink == "limit":
        args += ["-o", f]
        kw["fsize"] = case["limit"]
    elif sink == "limitout":
        open(f, "wb").close()
        kw["stdout"] = f
        kw["fsize"] = case["limit"]
    elif sink == "closed":
        kw["stdout"] = "closed"
    elif sink == "nodir":
        args += ["-o", os.path.join(d, "no", "such")]
    elif sink == "isdir":
        args += ["-o", d]
    if case["verb"] == "v":
        args.insert(0, "-v")
    elif case["verb"] == "file":
        args.insert(0, "--verbose=" + os.path.join(d, "log"))
    elif case["verb"] == "badfile":
        args.insert(0, "-v" + os.path.join(d, "no", "log"))
    where = "[ecgen %s, seed %s, %s]" % (" ".join(args), case["seed"], sink)
    env = case.get("env")
    r = R.run(args, case["stdin"], case["seed"], "plain", 40, env, **kw)
    out.inc("sink." + sink)
    out.inc("runs." + case["kind"])
    if r.hang:
        out.inconclusive += 1
        return
    out.n += 1
    emitted = -1
    if r.rc < 0 or "bug in PARI" in r.err:
        out.bad("crash", "exit %s %s %s" % (r.rc, r.err[-200:], where))
        return
    if case["kind"] == "usage":
        if r.rc == 0 or r.out.strip():
            out.bad("usage", "exit %d, output %r %s" % (r.rc, r.out[:80], where))
        out.sig.append("usage %s" % " ".join(case["args"]))
        return
    fatal = "***" in r.err
    if sink in ("full", "stdoutfull", "closed"):
        if r.rc == 0:
            out.bad("status.write", "exit 0 though nothing could be written %s" % where)
        if sink == "full" and r.out.strip():
            out.bad("mixed", "standard output holds %r %s" % (r.out[:80], where))
        out.sig.append("%s %s %s" % (case["kind"], sink, r.rc))
        return
    text = r.out
    if sink in ("file", "over", "append", "append2", "appendnew", "limit", "limitout"):
        try:
            raw = open(f, "rb").read()
        except OSError:
            raw = b""
        if sink in ("append", "append2") and not raw.startswith(old):
            out.bad("append", "the previous content %r is not kept: %r %s" % (old[:40], raw[:80], where))
            return
        if sink in ("append", "append2"):
            raw = raw[len(old):]
        if sink != "limitout" and text:
            out.bad("mixed", "standard output holds %r though a file was asked for %s" % (text[:80], where))
        if sink == "append2":
            # once more: a second document after the first
            r2 = R.run(args, case["stdin"], case["seed"] + 1, "plain", 40, env)
            again = open(f, "rb").read()
            if not again.startswith(old + raw):
                out.bad("append", "a second run did not keep the first document %s" % where)
            elif not r2.hang and again[len(old + raw):]:
                try:
                    R.parse(again[len(old + raw):].decode())
                except ValueError as e:
                    out.bad("json", "second document: %s %s" % (e, where))
        text = raw.decode("utf-8", "replace")
        if sink in ("limit", "limitout"):
            try:
                R.parse(text)
                whole = True
            except ValueError:
                whole = False
            if r.rc == 0 and not whole:
                out.bad("status.write", "exit 0 but the document was cut off after %d bytes %s" % (len(text), where))
            out.sig.append("%s %s whole=%s %s" % (case["kind"], sink, whole, r.rc))
            if not whole:
                return
    if sink in ("nodir", "isdir"):
        if "ailed to open" not in r.err and r.rc == 0:
            out.bad("open", "no error reported %s" % where)
        if r.rc != 0 and not text.strip():
            out.sig.append("%s %s %s" % (case["kind"], sink, r.rc))
            return
    r.out = text
    if fatal:
        out.inc("pari_error")
        if r.rc == 0:
            out.bad("status", "exit 0 after a PARI error %s %s" % (r.err[-150:], where))
        return
    sp = dict(case["spec"])
    inv = case["kind"].startswith(("invalid", "empty"))
    # only the document: other properties judge the curves
    pr = []
    try:
        doc = R.parse(text)
    except ValueError as e:
        if not (r.rc and not text.strip()):
            pr.append(("json", "%s: %r" % (e, text[:160])))
        doc = []
    for c in doc:
        pr += audit.shape(c, sp)
        s = c.get("seed")
        if s is not None and not re.fullmatch(r"-?0x[0-9a-f]+", s):
            pr.append(("shape.seed", repr(s)))
        if sp.get("metadata") and not (isinstance(c.get("meta"), dict) and all(isinstance(v, str) for v in c["meta"].values())):
            pr.append(("shape.meta", repr(c.get("meta"))))
    want = sp.get("count", 1)
    if not inv:
        if r.rc == 0 and len(doc) != want:
            pr.append(("status", "exit 0 with %d of %d curves" % (len(doc), want)))
        if r.rc != 0 and len(doc) >= want:
            pr.append(("status", "exit %d with all %d curves" % (r.rc, len(doc))))
        # a trailing or repeated document
    elif case["kind"] == "invalid":
        if r.rc != 0 or not doc:
            pr.append(("status", "exit %d with %d curves: %s" % (r.rc, len(doc), r.err[-100:])))
    elif case["kind"] == "invalidcut" and r.rc == 0:
        pr.append(("status", "exit 0 though no curve was given"))
    if case["kind"] == "cut" and not case["twist"]:
        ws, enough, certain = emul.curves(sp["field"], sp["bits"], case["toks"], want)
        if certain and len(doc) != len(ws):
            pr.append(("objects", "%d objects, %d curves were given completely %r" % (len(doc), len(ws), case["toks"][:12])))
        if certain and (r.rc == 0) != enough:
            pr.append(("status", "exit %d with %d of %d curves" % (r.rc, len(doc), want)))
    if case["kind"] == "seedcut" and len(doc) > case["most"]:
        pr.append(("objects", "%d objects from %d seeds" % (len(doc), case["most"])))
    for code, det in pr:
        out.bad(code, "%s %s" % (det, where))
    out.n += len(doc)
    out.inc("objects", len(doc))
    out.inc("exit_%d" % r.rc)
    out.sig.append("%s %s %s %s %d/%d %d" % (case["kind"], sp.get("field"), sink, case["verb"], len(doc), want, r.rc))
    out.sample = {"args": " ".join(args), "sink": sink, "objects": len(doc), "asked": want, "exit": r.rc}
