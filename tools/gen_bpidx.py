"""Brainpool seeds on whose way a curve of prime order comes up whose embedding degree is around the bound, or below it.
Writes vf/data_bpidx.py."""
import os, sys, random, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import seeds


def job(x):
    k, until = x
    rng = random.Random(k)
    res = []
    while time.time() < until:
        sd, L, rfc = rng.getrandbits(160), rng.randint(10, 36), rng.random() < 0.5
        w = []
        seeds.brainpool(sd, L, rfc, True, watch=w)
        if any(60 <= i <= 400 for i in w):
            res.append((rfc, L, "%040x" % sd, max(w)))
    return res


if __name__ == "__main__":
    end = time.time() + float(sys.argv[1])
    with Pool(4) as p:
        res = [r for l in p.map(job, [(k, end) for k in range(4)]) for r in l]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + "/vf/data_bpidx.py", "w") as f:
        f.write('"""Brainpool seeds with embedding degrees around the bound (tools/gen_bpidx.py); reach only."""\nSEEDS = %r\n' % sorted(res, key=lambda r: r[3]))
    print(len(res), [r[3] for r in sorted(res, key=lambda r: r[3])])
