"""A gp coprocess per worker process."""
import os, subprocess, threading, select, time

import ctypes, signal
_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


HERE = os.path.dirname(os.path.abspath(__file__))


class GPTimeout(Exception):
    pass


class GP:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(["gp", "-q", "-f", "-D", "breakloop=0", "-D", "histsize=1", "-D",
                                   "parisizemax=2000M", "-D", "colors=no"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0,
                                  preexec_fn=_die_with_parent, env={**os.environ, "TERM": "dumb"})
        self.buf = b""
        self.raw('read("%s/oracle.gp");print("ready")' % HERE, 60)

    def raw(self, s, timeout):
        self.p.stdin.write(s.encode() + b"\n")
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.close()
                raise GPTimeout(s[:200])
            d = os.read(fd, 1 << 16)
            if not d:
                self.close()
                raise GPTimeout("gp died: " + s[:200])
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode()

    def q(self, expr, timeout=90):
        """Evaluate an expression, return its printed value (one line)."""
        if self.p is None:
            self.start()
        # through a file when long (gp reads lines of limited comfort)
        return self.raw("print(iferr(%s,e,Str(\"GPERR \",e)))" % expr, timeout)

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None
        self.buf = b""


_gp = None
_pid = None


def gp():
    global _gp, _pid
    if _gp is None or _pid != os.getpid():
        _gp, _pid = GP(), os.getpid()
    return _gp


def q(expr, timeout=90):
    return gp().q(expr, timeout)


def vec(s):
    """Parse gp's output of nested integer vectors / strings into Python."""
    import json, re
    s = s.replace("~", "")
    # matrices [a, b; c, d] -> [[a,b],[c,d]]
    def conv(m):
        rows = m.group(1).split(";")
        return "[" + ",".join("[" + r + "]" for r in rows) + "]"
    s = re.sub(r"\[([^\[\]]*;[^\[\]]*)\]", conv, s)
    return json.loads(s)
