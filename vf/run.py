"""Running ecgen and reading what it printed."""
import json, os, re, resource, signal, subprocess, tempfile, time
from . import build

_bins = {}


def binary(variant="plain"):
    if variant not in _bins:
        _bins[variant] = build.ecgen(variant)
    return _bins[variant]


# (leading options, environment) added to every run; set by checks that reuse another check's oracle
FORCE = None
ABANDONED = None     # what the allocator monitor (heap.c) said in the last run

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:"
                    "handle_segv=1:detect_stack_use_after_return=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=96:second_deadlock_stack=1:report_signal_unsafe=0",
}


class Result:
    __slots__ = ("rc", "out", "err", "hang", "wall", "files", "argv", "stdin")

    @property
    def crash(self):
        return self.rc is not None and self.rc < 0 and not self.hang


def run(args, stdin="", seed=1, variant="plain", timeout=60, env=None, cwd=None, stdout=None, fsize=None):
    """Run ecgen; never raises. stdin: text given on standard input (empty = end of input at once)."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VF_TMO", "VF_DELAY", "VF_NOTHREAD", "VF_SEED", "VF_POISON"))}
    e.update(SAN_ENV)
    e["VF_PARENT"] = str(os.getpid())
    if seed is not None:
        e["VF_SEED"] = str(seed)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    if FORCE:
        e.update(FORCE[1])
        args = FORCE[0] + list(args)
    argv = [binary(variant)] + [str(a) for a in args]
    r = Result()
    r.argv, r.stdin, r.hang, r.files = [str(a) for a in args], stdin, False, {}
    t = time.time()
    # stdout: a file to redirect standard output to, or "closed"; fsize: limit on the size of files written
    pre = None
    if fsize is not None or stdout == "closed":
        def pre():
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            if stdout == "closed":
                os.close(1)
    so = open(stdout, "r+b") if stdout and stdout != "closed" else None
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=so or subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, start_new_session=True, preexec_fn=pre)
    if so:
        so.close()
    data = stdin if isinstance(stdin, bytes) else stdin.encode()
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.hang = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    r.rc = p.returncode
    out = out or b""
    r.out, r.err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    r.wall = time.time() - t
    global ABANDONED
    m = re.search(r"VF: (a timeout left .*)", r.err) if r.rc == 94 else None
    ABANDONED = m.group(1) if m else None
    return r


def _nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


def parse(out):
    """Strict: the document must be one JSON array of objects; returns list or raises ValueError."""
    d = json.loads(out, object_pairs_hook=_nodup)
    if not isinstance(d, list) or not all(isinstance(c, dict) for c in d):
        raise ValueError("not an array of objects")
    return d


def hx(s):
    s2 = s[1:] if s.startswith("-") else s
    if not s2.startswith("0x"):
        raise ValueError("not hex: %r" % s)
    v = int(s2[2:], 16)
    return -v if s.startswith("-") else v


class Curve:
    """A curve as printed."""

    def __init__(self, d):
        self.d = d
        f = d["field"]
        self.prime = "p" in f
        if self.prime:
            self.p = self.q = self.ch = hx(f["p"])
        else:
            self.m, self.e1, self.e2, self.e3 = (hx(f[k]) for k in ("m", "e1", "e2", "e3"))
            self.q, self.ch = 1 << self.m, 2
            self.poly = (1 << self.m) | (1 << self.e1) | 1
            if self.e2:
                self.poly |= 1 << self.e2
            if self.e3:
                self.poly |= 1 << self.e3
        self.a, self.b, self.N = hx(d["a"]), hx(d["b"]), hx(d["order"])
        self.seed = d.get("seed")
        self.gens = []
        for g in d.get("subgroups", []):
            self.gens.append(((hx(g["x"]), hx(g["y"])), hx(g["order"]), hx(g["cofactor"]),
                              [((hx(p["x"]), hx(p["y"])), hx(p["order"])) for p in g.get("points", [])]))
        self.meta = d.get("meta")

    def gp_field(self):
        if self.prime:
            return None
        return "vffield(%d,%d,%d,%d)" % (self.m, self.e1, self.e2, self.e3)
