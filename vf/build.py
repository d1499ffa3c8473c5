"""Builds ecgen (and harnesses) out of tree from the current working tree of /repo.

Nothing is written into /repo. A build directory is keyed by the content of every source it was made
from, so that a changed tree is always rebuilt.
"""
import fcntl, glob, hashlib, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    # the flags of the project's own release build, plus line information
    "plain": ["-O2", "-g1", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fsanitize-address-use-after-scope"],
    "tsan": ["-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}

# calls made by ecgen's own objects that the shim observes (reach and replay only; no verdict
# depends on any of them being called)
WRAPS = ["fopen", "fopen64", "open", "open64", "openat", "getrandom", "getentropy", "clock_gettime",
         "time",
         "timer_create", "timer_settime", "timer_delete", "setitimer", "alarm",
         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait",
         "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create",
         "pthread_join",
         # PARI calls around which a pending timeout may be delivered
         "ellinit", "ellsea", "ellff_get_card", "ellff_get_gens", "ellorder", "ellmul", "genrand",
         "randomprime", "isprime", "Z_factor", "factor", "ellordinate", "polclass", "elltwist",
         "gcopy", "gerepilecopy", "gerepileall", "nextprime", "Fp_sqrt", "binary_zv", "znorder",
         "coredisc2", "random_bits", "randomi",
         # where the released part of the PARI stack may be overwritten
         "curve_free", "try_free", "try_malloc", "try_calloc", "output_o", "pari_close", "pari_thread_close"]

PARI_LIBS = ["-lrt", "-lpari", "-lpthread", "-lm"]


class BuildError(Exception):
    pass


def sources(repo=None):
    repo = repo or REPO
    src = sorted(glob.glob(repo + "/src/*.c") + glob.glob(repo + "/src/**/*.c", recursive=True))
    src = sorted(set(src))
    lib = sorted(glob.glob(repo + "/lib/parson/*.c") + glob.glob(repo + "/lib/sha1/*.c"))
    return src, lib


def tree_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    files = []
    for root in ("src", "lib"):
        for d, _, fs in os.walk(os.path.join(repo, root)):
            for f in fs:
                if f.endswith((".c", ".h", ".inc", ".def")):
                    files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _cc():
    return os.environ.get("VF_CC", "gcc")


def objects(variant, main_symbol=None, repo=None):
    """Compile all of ecgen's sources; returns (dir, list of objects). Cached by tree content."""
    repo = repo or REPO
    src, lib = sources(repo)
    flags = VARIANTS[variant]
    d = os.path.join(BUILD, "%s-%s" % (variant, tree_hash(repo)))
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + repo + "/src", "-I" + repo + "/lib"]
    with open(os.path.join(d, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs, objs = [], []
        for s in src + lib:
            o = os.path.join(d, os.path.relpath(s, repo).replace("/", "__")[:-2] + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append([_cc(), "-w", *flags, *inc, "-c", "-o", o + ".tmp", s])
        if jobs:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(_run, jobs))
            for j in jobs:
                os.rename(j[j.index("-o") + 1], j[j.index("-o") + 1][:-4])
    return d, objs


def _harness_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr((VARIANTS, WRAPS)).encode())
    return h.hexdigest()[:12]


def link(variant, name, extra_src=(), with_main=True, wrap=True, repo=None, heap=True):
    """Link ecgen's objects with the shim and extra harness sources into an executable."""
    repo = repo or REPO
    d, objs = objects(variant, repo=repo)
    shim = os.path.join(VERIF, "harness", "shim.c")
    extra = [os.path.join(VERIF, "harness", e) for e in extra_src]
    poison = os.path.join(VERIF, "harness", "poison.c")
    heap = [os.path.join(VERIF, "harness", "heap.c")] if heap and wrap and variant == "plain" and with_main else []
    srcs = ([shim, poison] if wrap else []) + heap + extra
    out = os.path.join(d, "%s-%s" % (name, _harness_hash(srcs)))
    if os.path.exists(out):
        return out
    with open(os.path.join(d, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        if not with_main:
            objs = [o for o in objs if not o.endswith("src__ecgen.o")]
        flags = VARIANTS[variant]
        hobjs = []
        for s in srcs:
            o = os.path.join(d, name + "." + os.path.basename(s) + ".o")
            hflags = [f for f in flags if not (s in (shim, poison) and f.startswith("-fsanitize=thread"))]
            _run([_cc(), "-w", *hflags, "-D_GNU_SOURCE", "-I" + repo + "/src", "-I" + repo + "/lib",
                  "-I" + os.path.join(VERIF, "harness"), "-c", "-o", o, s])
            hobjs.append(o)
        wraps = ["-Wl,--wrap=" + w for w in WRAPS] if wrap else []
        tmp = out + ".tmp%d" % os.getpid()
        _run([_cc(), *flags, *wraps, "-o", tmp, *objs, *hobjs, *PARI_LIBS])
        os.rename(tmp, out)
    return out


def ecgen(variant="plain"):
    return link(variant, "ecgen")


def prune(keep_hash=None):
    """Remove builds of other trees (disk space)."""
    if not os.path.isdir(BUILD):
        return
    keep = keep_hash or tree_hash()
    for n in os.listdir(BUILD):
        p = os.path.join(BUILD, n)
        if os.path.isdir(p) and not n.endswith(keep) and "-" in n and n.split("-")[0] in VARIANTS \
                and time.time() - os.stat(p).st_mtime > 1800:      # (maybe in use by another check)
            subprocess.run(["rm", "-rf", "--", os.path.abspath(p)])


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(ecgen(v))
