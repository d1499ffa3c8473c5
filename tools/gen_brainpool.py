#!/usr/bin/env python3
"""Offline: seeds from which the Brainpool procedures succeed at once for large sizes (vf/data_bp.py; reach only)."""
import sys, random
sys.path.insert(0, "/verif")
from multiprocessing import Pool
from vf import run as R, seeds


def t(a):
    rfc, bits, sd = a
    r = R.run(["--fp", "--brainpool-rfc" if rfc else "--brainpool", "-r", "--points=none", bits], "", sd, timeout=900)
    try:
        c = R.Curve(R.parse(r.out)[0])
    except Exception as e:
        return None
    fin = R.hx(c.seed)
    for d in range(1, 4000):
        m = seeds.brainpool((fin - d) % seeds.M160, bits, rfc, one=True) if 0 <= c.p - seeds.bp_hash((fin - d) % seeds.M160, (bits - 1) % 160 + 1, (bits - 1) // 160) < 50000 else None
        if m and m["final"] == fin and seeds.bp_same(c, m):
            return rfc, bits, "%040x" % ((fin - d) % seeds.M160)
    print("unexplained", a, c.seed, flush=True)


if __name__ == "__main__":
    jobs = [(rfc, b, s) for b in (160, 161, 162, 168, 175, 184, 192, 200, 224) for rfc in (False, True) for s in (1, 2)]
    jobs += [(rfc, b, s) for b in (256, 320) for rfc in (False, True) for s in (3,)]
    res = []
    with Pool(4) as p:
        for x in p.imap_unordered(t, jobs):
            if x:
                res.append(x)
                with open("/verif/vf/data_bp.py", "w") as f:
                    f.write('"""Seeds giving a Brainpool curve at once (tools/gen_brainpool.py); reach only."""\nSEEDS = %r\n' % sorted(res))
