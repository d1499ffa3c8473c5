"""Brainpool seeds at the end of their range whose prime field comes from hash blocks that wrap around, and that reach a
curve soon enough. Writes vf/data_bpwrap.py: (rfc, bits, seed, seconds ecgen's kind of search takes)."""
import os, sys, time, subprocess
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import seeds


def job(x):
    L, rfc = x
    v = (L - 1) // 160
    w = L - 160 * v - 1
    for k in range(v, 0, -1):        # the first seed of them with a prime: later starts end in the same one
        s = seeds.M160 - k
        p = seeds.prime34(seeds.bp_hash(s, w + 1, v), True)
        if p.bit_length() == L:
            sd = "%040x" % s
            t = time.time()
            try:
                r = subprocess.run([os.environ.get("ECGEN", "/repo/ecgen"), "--fp", "--points=none", ("--brainpool-rfc=" if rfc else "--brainpool=") + sd, str(L)],
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            except subprocess.TimeoutExpired:
                return None
            return (rfc, L, sd, round(time.time() - t)) if r.returncode == 0 else None
    return None


if __name__ == "__main__":
    js = [(L, rfc) for L in range(161, int(sys.argv[1])) for rfc in (False, True)]
    js += [(L, rfc) for L in range(321, 350) for rfc in (False, True)]
    with Pool(4) as p:
        res = [r for r in p.imap_unordered(job, js) if r]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + "/vf/data_bpwrap.py", "w") as f:
        f.write('"""Brainpool seeds at the end of their range (tools/gen_bpwrap.py); reach only."""\nSEEDS = %r\n' % sorted(res, key=lambda r: r[3]))
    print(len(res))
