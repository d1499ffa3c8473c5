"""The oracle over one run's output. Returns a list of (code, detail) problems.

spec keys (all optional except field, bits):
  field 'fp'|'f2m', bits, count, points ('prime','all','nonprime','none','random', ('N', n)),
  prime, cofactor, smooth, unique, koblitz, hex, metadata, method, rand_field (bool: prime must have
  exactly `bits` bits), gens ('any' default, 'one'), extra checks are made by the callers.
"""
import json
from . import ec, gp
from .run import Curve, hx, parse

DOC_CURVE = {"field", "seed", "a", "b", "order", "subgroups", "meta"}


def width(bits):
    return 2 * ((bits + 7) // 8)


def _fmt(s, w):
    """fixed-width zero-padded hex of w digits, more only when the value needs them"""
    if not isinstance(s, str) or not s.startswith("0x") or s != s.lower():
        return False
    body = s[2:]
    if not body or any(c not in "0123456789abcdef" for c in body):
        return False
    return len(body) == w or (len(body) > w and body[0] != "0")


def shape(d, spec):
    """Is the curve object in the documented shape?"""
    bad = []
    w = width(spec["bits"])
    if set(d) - DOC_CURVE:
        bad.append(("shape", "unknown keys %s" % sorted(set(d) - DOC_CURVE)))
    for k in ("field", "a", "b", "order"):
        if k not in d:
            bad.append(("shape", "no " + k))
    if bad:
        return bad
    f = d["field"]
    want = {"p"} if spec["field"] == "fp" else {"m", "e1", "e2", "e3"}
    if not isinstance(f, dict) or set(f) != want:
        bad.append(("shape", "field %r" % (f,)))
        return bad
    if spec["field"] == "fp" and not _fmt(f["p"], w):
        bad.append(("shape.pad", "p %r" % f["p"]))
    for k in ("a", "b", "order"):
        if not _fmt(d[k], w):
            bad.append(("shape.pad", "%s %r" % (k, d[k])))
    if "subgroups" in d:
        if not isinstance(d["subgroups"], list):
            return bad + [("shape", "subgroups")]
        for g in d["subgroups"]:
            if not isinstance(g, dict) or not {"x", "y", "order", "cofactor"} <= set(g) \
                    or set(g) - {"x", "y", "order", "cofactor", "points"}:
                bad.append(("shape", "subgroup keys %s" % (sorted(g) if isinstance(g, dict) else g)))
                continue
            for p in [g] + list(g.get("points", [])):
                if not isinstance(p, dict) or not {"x", "y", "order"} <= set(p):
                    bad.append(("shape", "point %r" % (p,)))
                elif not (_fmt(p["x"], w) and _fmt(p["y"], w)):
                    bad.append(("shape.pad", "point %s %s" % (p["x"], p["y"])))
    return bad


def divisors(primes, exps):
    ds = [1]
    for p, e in zip(primes, exps):
        ds = [d * p**k for d in ds for k in range(e + 1)]
    return ds


def want_orders(mode, order, primes):
    pf, ex = [], []
    for p in primes:
        k = 0
        while order % p == 0:
            order //= p
            k += 1
        if k:
            pf.append(p)
            ex.append(k)
    if mode == "prime":
        return sorted(pf)
    ds = [d for d in divisors(pf, ex) if d > 1]
    if mode == "all":
        return sorted(ds)
    if mode == "nonprime":
        return sorted(d for d in ds if d not in pf)
    return None


def audit_curve(c, spec, gp_timeout=120, brute=1024):
    """c: Curve. Returns (problems, info)."""
    bad, info = [], {}
    B = lambda code, det="": bad.append((code, det))
    bits = spec["bits"]
    # --- field
    if c.prime:
        if not ec.is_prime(c.p):
            B("field", "p = %#x is not prime" % c.p)
            return bad, info
        if c.p.bit_length() > bits and not spec.get("nofield") and not spec.get("family"):
            B("field", "p = %#x is larger than %d bits" % (c.p, bits))
        if spec.get("rand_field") and c.p.bit_length() != bits:
            B("field.size", "p = %#x does not have %d bits" % (c.p, bits))
        u = None
    else:
        if c.m != bits:
            B("field.size", "m = %d" % c.m)
        if not (c.m > c.e1 > 0 and c.e1 > c.e2 >= c.e3 >= 0) and not (c.m > 0 and c.e1 > 0):
            B("field", "exponents %r" % ((c.m, c.e1, c.e2, c.e3),))
            return bad, info
        if gp.q("type(vffield(%d,%d,%d,%d))" % (c.m, c.e1, c.e2, c.e3)) != "t_FFELT":
            B("field", "x^%d+x^%d+x^%d+x^%d+1 is reducible" % (c.m, c.e1, c.e2, c.e3))
            return bad, info
    lim = c.q
    for n, v in (("a", c.a), ("b", c.b)):
        if not 0 <= v < lim:
            B("coeff", "%s = %#x not reduced" % (n, v))
            return bad, info
    for g in c.gens:
        for P, *_ in [(g[0],)] + [(p[0],) for p in g[3]]:
            if not (0 <= P[0] < lim and 0 <= P[1] < lim):
                B("gen.curve", "coordinates not reduced")
                return bad, info
    # --- group
    cof = 1 if spec.get("cofactor") and not spec.get("unique") else 0
    if c.prime:
        if (4 * c.a**3 + 27 * c.b**2) % c.p == 0 or c.p == 2:
            B("nonsing", "singular")
            return bad, info
        gens = "[" + ",".join("[[%d,%d],%d,%d,[%s]]" % (*g[0], g[1], g[2], ",".join(
            "[[%d,%d],%d]" % (*p[0], p[1]) for p in g[3])) for g in c.gens) + "]"
        expr = "vfrun(ellinit([%d,%d],%d),%d,%d,%d,%s,%d,0)" % (c.a, c.b, c.p, c.p, c.p, c.N, gens, cof)
    else:
        if c.b == 0:
            B("nonsing", "singular")
            return bad, info
        F = "vfel(%d,vfu)"
        gens = "[" + ",".join("[[%s,%s],%d,%d,[%s]]" % (F % g[0][0], F % g[0][1], g[1], g[2], ",".join(
            "[[%s,%s],%d]" % (F % p[0][0], F % p[0][1], p[1]) for p in g[3])) for g in c.gens) + "]"
        expr = "vfu=%s;vfrun(ellinit([1,%s,0,0,%s],vfu),2,%d,%d,%s,%d,0)" % (
            c.gp_field(), F % c.a, F % c.b, c.q, c.N, gens, cof)
        expr = "my(vfr);" + expr.replace(";vfrun", ";vfr=vfrun") + ";vfr"
    if spec.get("light"):
        expr = "vflight=1;addprimes([%s]);" % ",".join(map(str, spec.get("known_prime", []))) + expr
    else:
        expr = "vflight=0;" + expr
    res = gp.q(expr, gp_timeout)
    try:
        codes, card, fa = gp.vec(res)
    except Exception:
        B("oracle", "gp said %r" % res[:200])
        return bad, info
    if codes == ["gperr"]:
        B("oracle", "gp error %s" % card)
        return bad, info
    primes = fa[0]
    info["card"], info["primes"], info["exps"] = card, primes, fa[1]
    for code in codes:
        B(code, {"order": "stated %#x, true %#x" % (c.N, card)}.get(code, ""))
    if c.q <= brute:
        n = ec.count_fp(c.p, c.a, c.b) if c.prime else ec.count_f2m(c.m, c.poly, c.a, c.b)
        if n != c.N:
            B("order", "stated %d, counted %d" % (c.N, n))
        E = ec.Fp(c.p, c.a, c.b) if c.prime else ec.F2m(c.m, c.poly, c.a, c.b)
        for g in c.gens:
            for P, o in [(g[0], g[1])] + g[3]:
                if not E.on(P):
                    B("gen.curve", "own arithmetic: not on curve")
                elif E.mul(o, P) is not None:
                    B("gen.order", "own arithmetic")
    # --- points
    mode = spec.get("points", "prime")
    if not bad or all(not b[0].startswith(("gen", "pt", "order")) for b in bad):
        total = sum(len(g[3]) for g in c.gens)
        if mode in ("prime", "all", "nonprime"):
            for g in c.gens:
                got, want = sorted(p[1] for p in g[3]), want_orders(mode, g[1], primes)
                if got != want:
                    B("pt.set", "%s points of a generator of order %#x: %s, expected %s" % (
                        mode, g[1], got[:20], want[:20]))
        elif mode == "none":
            if total:
                B("pt.set", "%d points with none" % total)
        elif mode == "random":
            if total != (1 if c.gens else 0):
                B("pt.count", "%d points, one random" % total)
        elif isinstance(mode, (tuple, list)):
            if total != (mode[1] if c.gens else 0):
                B("pt.count", "%d points, %d asked for" % (total, mode[1]))
    # --- requested constraints
    if spec.get("prime") and not ec.is_prime(card):
        B("con.prime", "order %#x" % card)
    k = spec.get("cofactor")
    if k:
        if card % k or not ec.is_prime(card // k):
            B("con.cofactor", "order %#x with cofactor %d" % (card, k))
        elif not spec.get("unique") and (not c.gens or c.gens[0][1] != card // k or c.gens[0][2] != k):
            B("gen.cof", "first generator has order %#x, cofactor %d" % (
                c.gens[0][1] if c.gens else 0, c.gens[0][2] if c.gens else 0))
    s = spec.get("smooth")
    if s and primes and max(primes).bit_length() > s:
        B("con.smooth", "order %s bound %d" % (primes, s))
    if spec.get("unique") and len(c.gens) != (0 if card == 1 else 1):
        B("con.unique", "%d generators" % len(c.gens))
    kb = spec.get("koblitz")
    if kb is not None and (c.a != kb or c.b != 1):
        B("con.koblitz", "a = %#x b = %#x" % (c.a, c.b))
    h = spec.get("hex")
    if h:
        d = c.d
        strs = [d["a"], d["b"], d["order"], (d.get("seed") or "")]
        if c.prime:
            strs.append(d["field"]["p"])
        for g in d.get("subgroups", []):
            strs += [g["x"], g["y"]]
            for p in g.get("points", []):
                strs += [p["x"], p["y"]]
        if not any(h.lower() in t.lower() for t in strs):
            B("con.hex", h)
    # --- metadata
    if spec.get("metadata"):
        bad += audit_meta(c, card)
    elif c.meta is not None:
        B("meta", "metadata without the option")
    return bad, info


def audit_meta(c, N):
    bad = []
    B = lambda code, det="": bad.append((code, det))
    m = c.meta
    keys = {"j", "discriminant", "frobenius"} | ({"embedding_degree", "cm_discriminant", "conductor"}
                                                 if c.prime else set())
    if not isinstance(m, dict):
        return [("meta", "no metadata")]
    if not keys <= set(m):
        return [("meta", "keys %s" % sorted(m))]
    try:
        v = {k: int(m[k]) for k in m}
    except (ValueError, TypeError):
        return [("meta", "not decimal %r" % m)]
    if c.prime:
        p = c.p
        d4, d27 = 4 * c.a**3, 27 * c.b**2
        disc = -16 * (d4 + d27) % p
        j = 1728 * d4 * pow(d4 + d27, -1, p) % p
    else:
        f = ec.F2m(c.m, c.poly, c.a, c.b)
        disc, j = c.b, f.inv(c.b) if c.b != 1 else 1
    if v["j"] != j:
        B("meta.j", "%d, expected %d" % (v["j"], j))
    if v["discriminant"] != disc:
        B("meta.disc", "%d, expected %d" % (v["discriminant"], disc))
    t = c.q + 1 - N
    if v["frobenius"] != t:
        B("meta.trace", "%d, expected %d" % (v["frobenius"], t))
    if c.prime:
        if gp.q("vfcm(%d,%d,%d,%d)" % (t, c.p, v["cm_discriminant"], v["conductor"])) != "1":
            B("meta.cm", "t=%d p=%d D=%d f=%d" % (t, c.p, v["cm_discriminant"], v["conductor"]))
        r = gp.q("vfembed(%d,%d,%d)" % (c.p, N, v["embedding_degree"]))
        if r == "0":
            B("meta.embed", "p=%d N=%d k=%d" % (c.p, N, v["embedding_degree"]))
    return bad


def audit_doc(r, spec, expect=None, gp_timeout=120, curves_out=None):
    """Audit a finished run (Result). expect: number of curves if the run succeeded."""
    bad = []
    if r.hang:
        return [("hang", "did not finish")], []
    if r.rc is None or r.rc < 0:
        return [("crash", "signal %s" % (-r.rc if r.rc else r.rc))], []
    if r.rc and "bug in PARI" in r.err:      # PARI turns a segmentation fault into this and a plain exit
        return [("crash", "exit %s, %s" % (r.rc, r.err[r.err.index("bug in PARI"):][:80]))], []
    try:
        doc = parse(r.out)
    except ValueError as e:
        if r.rc != 0 and r.out.strip() == "":
            return [], []
        return [("json", "%s: %r" % (e, r.out[:120]))], []
    n = spec.get("count", 1) if expect is None else expect
    if r.rc == 0 and n >= 0 and len(doc) != n:
        bad.append(("count", "%d curves, %d requested, exit 0" % (len(doc), n)))
    if r.rc != 0 and n >= 0 and len(doc) >= n:
        bad.append(("status", "all %d curves but exit status %d" % (len(doc), r.rc)))
    curves = []
    for d in doc:
        sh = shape(d, spec)
        bad += sh
        if any(x[0] == "shape" for x in sh):
            continue
        try:
            c = Curve(d)
        except Exception as e:
            bad.append(("shape", "%s: %r" % (e, str(d)[:150])))
            continue
        b, info = audit_curve(c, spec, gp_timeout)
        c.info = info
        bad += b
        curves.append(c)
    return bad, curves
