#!/usr/bin/env python3
"""Offline: orders for which the CM search of the tree as committed is quick (written to vf/data_cm.py)."""
import sys, random, time
sys.path.insert(0, "/verif")
from multiprocessing import Pool
from vf import run, workload as W
run.binary()
rng = random.Random(20)
prim, comp = [], []
for bits in list(range(9, 66)) + [72, 80, 96, 112, 128]:
    for _ in range(14 if bits < 66 else 10):
        prim.append(W.rand_prime(rng, bits))
    for _ in range(6):
        fs = W.smooth_number(rng, bits)
        comp.append(fs)
        h = W.rand_prime(rng, max(3, bits - rng.randint(1, 6)))
        comp.append([h, rng.choice([2, 3, 4, 5, 6, 8, 9, 12])])
def t(fs):
    n = 1
    for f in fs: n *= f
    b = max(8, n.bit_length())
    r = run.run(["--fp", "-n%d" % n if len(fs) == 1 else "-n" + ",".join(map(str, fs)), b], "", 1, timeout=6)
    return fs, r.rc, r.wall
if __name__ == "__main__":
    with Pool(8) as p:
        a = p.map(t, [[x] for x in prim], chunksize=1)
        b = p.map(t, comp, chunksize=1)
    with open("/verif/vf/data_cm.py", "w") as f:
        f.write('"""Orders whose CM discriminant search is quick (tools/gen_cm.py); reach only."""\n')
        f.write("PRIME = %r\n" % [x[0][0] for x in a if x[1] == 0 and x[2] < 2.5])
        f.write("COMPOSITE = %r\n" % [x[0] for x in b if x[1] == 0 and x[2] < 2.5])
    print(len(prim), sum(x[1] == 0 and x[2] < 2.5 for x in a), len(comp), sum(x[1] == 0 and x[2] < 2.5 for x in b))
    for lo in range(8, 130, 8):
        s = [x for x in a if lo <= x[0][0].bit_length() < lo + 8]
        s2 = [x for x in b if lo <= sum(map(lambda v: v.bit_length(), x[0])) < lo + 8]
        print(lo, len(s), sum(x[1] == 0 for x in s), len(s2), sum(x[1] == 0 for x in s2), [x[:2] for x in s2 if x[1] not in (0, -9)][:3])
