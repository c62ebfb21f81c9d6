"""Client of the line-protocol driver."""

import ctypes
import os
import resource
import select
import subprocess
import time

CLK = os.sysconf("SC_CLK_TCK")
CPU_LIMIT = 60.0        # seconds of processor time for one request (normal: ms)
WALL_LIMIT = 400.0      # only ever "no verdict"


class Crash(Exception):
    """The code under test died, or spun without end, on a request."""


class CodeException(Exception):
    """The code under test let an exception out."""


class BadOutput(Exception):
    """Output of the code under test that cannot be interpreted at all."""


class Unsupported(Exception):
    pass


class NoVerdict(Exception):
    pass


MEM = 3 << 30


_libc = ctypes.CDLL(None)


def _limits():
    _libc.prctl(1, 9, 0, 0, 0)      # die with the process that started this one
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _limits_mem():
    _limits()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           LC_ALL="C.UTF-8")


class Driver:
    def __init__(self, path, scratch=None, mem_limit=True, env=None):
        self.env = dict(ENV, **env) if env else ENV
        self.limits = _limits_mem if mem_limit else _limits
        self.cmd = path if isinstance(path, list) else [path]
        self.proc = None
        self.buf = b""
        self.scratch = scratch or "/tmp"
        self.start()

    def start(self):
        self.stop()
        self.errf = open(os.path.join(self.scratch, "drv-err-%d-%d" % (os.getpid(), id(self))), "w+b")
        self.proc = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.errf, bufsize=0, env=self.env,
                                     cwd=self.scratch, preexec_fn=self.limits)
        self.buf = b""
        self.ready = set()      # parsers already created in this process

    def stop(self):
        if self.proc:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None
            self.errf.close()
            try:
                os.unlink(self.errf.name)
            except OSError:
                pass

    def _cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f:
                p = f.read().rsplit(")", 1)[1].split()
            return (int(p[11]) + int(p[12])) / CLK
        except (OSError, IndexError):
            return 0.0

    def _died(self, line):
        self.proc.wait()
        rc = self.proc.returncode
        self.errf.seek(0)
        err = self.errf.read().decode("utf-8", "replace")
        self.start()
        keep = [l for l in err.splitlines() if "runtime error" in l or "ERROR:" in l
                or "==" in l and (" at 0x" in l or "ninitialised" in l or "nvalid" in l)
                or "ssert" in l or "terminate" in l or "Error:" in l or " #" in l][:8]
        raise Crash("process ended with status %d on '%s': %s" % (rc, line[:160], " | ".join(keep)[:900]))

    def raw(self, line):
        data = line.encode("ascii") + b"\n"
        try:
            if len(data) < 60000:
                self.proc.stdin.write(data)
            else:
                mv = memoryview(data)
                while mv:
                    n = self.proc.stdin.write(mv)
                    mv = mv[n:]
        except (BrokenPipeError, OSError):
            self._died(line)
        t0 = None
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                r = self.buf[:i]
                self.buf = self.buf[i + 1:]
                return r.decode("ascii")
            rd, _, _ = select.select([self.proc.stdout], [], [], 5.0)
            if not rd:
                now = time.monotonic()
                if t0 is None:
                    t0, c0 = now, self._cpu()
                elif self._cpu() - c0 > CPU_LIMIT:
                    self.start()
                    raise Crash("no answer after %d s of processor time on '%s'" % (CPU_LIMIT, line[:160]))
                elif now - t0 > WALL_LIMIT:
                    self.start()
                    raise NoVerdict("no answer in time on '%s'" % line[:160])
                continue
            d = os.read(self.proc.stdout.fileno(), 1 << 20)
            if not d:
                self._died(line)
            self.buf += d

    def ask(self, *parts):
        line = " ".join(parts)
        r = self.raw(line)
        if r.startswith("EXC "):
            raise CodeException("exception '%s' on '%s'"
                                % (bytes.fromhex(r[4:].replace("-", "")).decode("utf-8", "replace"), line[:200]))
        if r.startswith("BAD "):
            if "unknown command" in r:
                raise Unsupported(r)
            raise RuntimeError("driver rejected '%s': %s" % (line[:200], r))
        return r.split(" ")

    def commands(self):
        return set(self.ask("commands")[1:])


def hx(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    return b.hex() if b else "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


def parse_syl(t):
    """'Sk_ok1@3' -> (('S','k_ok1'), 3)"""
    lab, end = t.rsplit("@", 1)
    if lab[0] == "L":
        h = lab[1:]
        s = "" if h == "-" else bytes.fromhex(h).decode("utf-16-be", "surrogatepass")
        # one character per UTF-16 unit
        from .thai import u16
        return ("L", "".join(u16(s))), int(end)
    return (lab[0], lab[1:]), int(end)


def fmt_syl(label, end):
    if label[0] == "L":
        h = b"".join(ord(c).to_bytes(2, "big") for c in _units(label[1])).hex()
        return "L%s@%d" % (h or "-", end)
    return "%s%s@%d" % (label[0], label[1], end)


def _units(s):
    from .thai import u16
    return u16(s) if any(ord(c) > 0xffff for c in s) else s


def edges_of(resp):
    """Response of 'parse' -> list of (from, to, label, end)."""
    assert resp[0] == "E", resp[:3]
    out = []
    for i in range(1, len(resp) - 2, 3):
        lab, end = parse_syl(resp[i + 2])
        out.append((int(resp[i]), int(resp[i + 1]), lab, end))
    return out


def strings_of(tokens):
    """'Sa@1,Sb@2' tokens -> list of lists of (label, end)."""
    return [[] if t == "~" else [parse_syl(x) for x in t.split(",")] for t in tokens]


def fmt_str(s):
    return ",".join(fmt_syl(l, e) for l, e in s) or "~"
