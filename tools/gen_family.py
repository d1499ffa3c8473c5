#!/usr/bin/env python3
"""Offline: family parameters for which ecgen quickly gives a curve (written to vf/data_family.py; reach only)."""
import sys, random
sys.path.insert(0, "/verif")
from multiprocessing import Pool
from vf import run, family as F, ec
run.binary()
LIM = {"BN": 2**34, "BLS12": 2**34, "BLS24": 2**28, "KSS16": 2**20, "KSS18": 2**22, "KSS36": 2**16, "KSS40": 2**18}
WANT = {"BN": 160, "BLS12": 140, "BLS24": 80, "KSS16": 90, "KSS18": 80, "KSS36": 50, "KSS40": 24}


def good(f, z):
    v = F.at(f, z)
    return v and v[0] > 3 and v[1] > 1 and ec.is_prime(v[1]) and ec.is_prime(v[0])


def search(f):
    rng = random.Random(f)
    zs = set()
    small = 400 if f in ("BN", "BLS12") else 4000
    for z in range(-small, small):
        if good(f, z):
            zs.add(z)
    n = 0
    while len(zs) < WANT[f] * 2 and n < 400000:
        n += 1
        z = rng.getrandbits(rng.randint(4, LIM[f].bit_length())) % LIM[f] * rng.choice([1, -1])
        if good(f, z):
            zs.add(z)
    zs = sorted(zs, key=abs)
    while len(zs) > WANT[f]:
        zs.pop(rng.randrange(len(zs)))
    return f, zs


def t(a):
    f, z = a
    r = run.run(["--fp", "--family=" + f, "--points=none", max(3, abs(z).bit_length())], "%d\n" % z, 1, timeout=20)
    return f, z, r.rc, r.wall


if __name__ == "__main__":
    with Pool(8) as p:
        found = p.map(search, list(F.FAM), chunksize=1)
        res = p.map(t, [(f, z) for f, zs in found for z in zs], chunksize=1)
    d = {}
    for f, z, rc, w in res:
        if rc == 0 and w < 4:
            d.setdefault(f, []).append(z)
    with open("/verif/vf/data_family.py", "w") as o:
        o.write('"""Parameters for which each family has a curve (tools/gen_family.py); reach only."""\nZ = %r\n' % d)
    for f in F.FAM:
        r = [x for x in res if x[0] == f]
        print(f, len(r), "ok", len(d.get(f, [])), "rc", sorted({x[2] for x in r}), "max z bits",
              max([abs(z).bit_length() for z in d.get(f, [0])]), "slowest", max(x[3] for x in r))
