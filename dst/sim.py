"""One simulated run: its choices, scratch directory, clock, seam, trace and verdict."""
import hashlib
import os
import sys
import traceback

from . import choices as _choices
from . import clock as _clock

REPO = os.environ.get("DST_REPO", "/repo")


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message = kind, message


class Sim:
    def __init__(self, prop, config, seed, directory, preset=None, tier="quick"):
        self.prop, self.config, self.seed, self.tier = prop, config, seed, tier
        self.choices = _choices.Choices(seed, preset)
        self.dir = directory
        self._trace = []
        self._digest = hashlib.sha256()
        self.probes = {}
        self.faults = {}
        self.states = set()
        self.findings = []
        self.clock = _clock.Clock()
        self.sched_steps = 0
        self.sched_switches = 0
        self.interleavings = set()
        self.evaluations = 0
        self.nontrivial = True
        self._shim = None

    # choice streams
    @property
    def ops(self):
        return self.choices.stream("ops")

    @property
    def fault(self):
        return self.choices.stream("fault")

    @property
    def data(self):
        return self.choices.stream("data")

    @property
    def sched_stream(self):
        return self.choices.stream("sched")

    # seam
    @property
    def shim(self):
        if self._shim is None:
            from .shim import Shim
            self._shim = Shim(os.environ["DST_SHM_PATH"])
        return self._shim

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def mkdir(self, *parts):
        p = self.path(*parts)
        os.makedirs(p, exist_ok=True)
        return p

    # recording
    def trace(self, *a):
        if os.environ.get("DST_LIVE"):
            print("  >", *a, file=sys.stderr, flush=True)
        line = " ".join(str(x) for x in a)
        line = line.replace(self.dir, "$D")
        self._trace.append(line)
        self._digest.update(line.encode("utf-8", "backslashreplace") + b"\n")

    def digest(self):
        return self._digest.hexdigest()[:24]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def injected(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def state(self, *what):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=6).digest(), "big"))

    def check(self, cond, kind, message=""):
        self.evaluations += 1
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def fail(self, kind, message=""):
        raise Violation(kind, message)

    def equal(self, got, want, kind, what=""):
        self.evaluations += 1
        if got != want:
            raise Violation(kind, f"{what}: got {clip(got)}, expected {clip(want)}")

    def scheduler(self, **kw):
        from .sched import Scheduler
        kw.setdefault("trace_prefixes", (REPO + "/",))
        return Scheduler(self.sched_stream, clock=self.clock, **kw)


def clip(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[: n - 60] + f"...({len(r)} chars)..." + r[-40:]


def from_sut(exc):
    """True when the code under test is on the traceback of exc."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    for nxt in (exc.__cause__, exc.__context__):
        if nxt is not None and nxt is not exc and from_sut(nxt):
            return True
    return False


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = [f for f in tb if f.filename.startswith(REPO + "/")]
    f = frames[-1] if frames else (tb[-1] if tb else None)
    return f"{os.path.basename(f.filename)}:{f.name}" if f else "?"


def _own_group():
    import ctypes
    os.setpgid(0, 0)
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)  # die with the parent


def fork_phase(fn, killed_ok=True):
    """Run fn(report) in a process of its own. Returns (reports, status) with status 'ok' | 'killed' | 'exc'.

    report(obj) sends a JSON value at once, so what was reported before a crash is kept."""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _own_group()

            def report(obj):
                os.write(w, json.dumps(obj).encode() + b"\n")
            try:
                fn(report)
            except Violation as v:
                report(["__violation__", v.kind, v.message])
                code = 3
            except BaseException as e:  # noqa
                report(["__exc__", type(e).__name__, str(e)[:2000], bool(from_sut(e)),
                        "".join(traceback.format_exception(e))[-3000:]])
                code = 4
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    out = []
    for line in b"".join(chunks).split(b"\n"):
        if line:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass  # torn by the kill
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        return out, "killed" if sig == 9 else f"signal{sig}"
    if os.WEXITSTATUS(st) == 3:
        v = out[-1]
        raise Violation(v[1], v[2])
    if os.WEXITSTATUS(st) == 4:
        return out, "exc"
    return out, "ok"
