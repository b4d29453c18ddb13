"""P15: when reading the archive fails, requests fail or are answered rightly; afterwards everything works."""
import os
import stat

from dst.kernel import KErr, Kernel
from dst.shim import ERR, ERRNOS, READ, SHORT
from dst.sim import where
from dst.view import h

from . import p05

PROP = "P15"
LEVEL = "exploration"
RULE = "distinct (format, kind of request, kind of error, answer) tuples"
REAL = ["FuseMount and everything below it: mount sources, file objects, decompression back ends, index creation and loading",
        "decompression libraries, SQLite"]
STUB = ["the kernel's FUSE client (in-process)", "read errors, failing opens and short reads of the archive (LD_PRELOAD seam)"]
ASSUMPTIONS = ["rapidgzip ends the process when the file it reads from fails, and it takes short reads for the end, so gzip and bzip2 are left out; rarfile handles stay broken after an error and are left out, too",
               "errors are reported to the process by the operating system; silently altered data is outside"]
FRAGILE = ("gz", "bz2", "zz")
KINDS = [k for k in p05.KINDS if k == "squashfs.gzip" or not any(x in k for x in FRAGILE)]


# decompression libraries read on in garbage or wait for ever when their file ends early; these are read by the repository's own code alone
ENDING = ["tar", "tarpax", "ar", "cpio", "asar", "split", "folder", "nestedtar", "nestedar", "nestedcpio", "zip", "zipstored", "sparse.gnu", "sparse.1.0",
          "sparse.0.0", "sparse.0.1"]


def fragile(kind, path):
    return path.endswith((".deb", ".gz", ".bz2", ".rar", "chimera-tbz2-zip"))


def mount(path, mp, opts):
    from ratarmount.FuseMount import FuseMount
    fm = FuseMount([path], mp, **opts)
    fm.init("/")
    return fm


def close(fm):
    fm.mountSource.__exit__(None, None, None)


def walk(k):
    """{path: (kind, what)} of everything; contents as bytes."""
    out, todo = {}, ["/"]
    while todo:
        d = todo.pop()
        names = k.listdir(d)
        out[d] = ("dir", sorted(names), None)
        for n in sorted(names):
            p = d.rstrip("/") + "/" + n
            a = k.lstat(p)
            key = (a["st_size"], a["st_mode"], a["st_mtime"], a["st_uid"], a["st_gid"])
            if stat.S_ISDIR(a["st_mode"]):
                todo.append(p)
            elif stat.S_ISLNK(a["st_mode"]):
                out[p] = ("link", k.readlink(p), key)
            elif stat.S_ISREG(a["st_mode"]):
                out[p] = ("file", k.read_all(p), key)
            else:
                out[p] = ("other", None, key)
    return out


def brief(x):
    return x if x is None or x[0] != "file" else ("file", h(x[1]), x[2])


def differences(got, want):
    bad = [p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)]
    return "; ".join(f"{p}: {brief(got.get(p))} instead of {brief(want.get(p))}" for p in bad[:4]) + (f" (+{len(bad) - 4})" if len(bad) > 4 else "")


class Faults:
    def __init__(self, sim, arch, weak):
        self.sim, self.f, self.shim, self.weak = sim, sim.fault, sim.shim, weak
        self.shim.reset([arch])
        if not weak:
            self.shim.arm()
        self.seen = 0
        self.what = None
        self.arch, self.cut, self.ends = arch, [], 0

    def end(self):
        """The archive ends early for a while, as it does when it is copied anew or its storage is remounted."""
        self.stop()
        self.what = "end"
        self.ends += 1
        for name in sorted(os.listdir(self.arch)):
            p = os.path.join(self.arch, name)
            size = os.path.getsize(p) if os.path.isfile(p) else 0
            if size:
                at = self.f.draw(size)
                with open(p, "r+b") as fo:
                    fo.seek(at)
                    self.cut.append((p, at, fo.read(), os.stat(p).st_mtime_ns))
                    fo.truncate(at)
        self.sim.injected("early-end")

    def start(self):
        f = self.f
        self.stop()
        for _ in range(1 + f.draw(2)):
            at = self.shim.count(READ, 0) + f.small(f.pick([4, 20, 120]))
            kind = f.pick(["error", "error", "error", "open", "short"])
            n = f.pick([1, 1, 2, 6, None])
            if kind == "error":
                self.shim.plan(READ, 0, at, ERR, ERRNOS["EIO"], n=n, kinds=("read", "pread"))
            elif kind == "open":
                self.shim.plan(READ, 0, at, ERR, ERRNOS[f.pick(["EIO", "EMFILE", "EACCES"])], n=n, kinds=("openrd",))
            else:
                self.shim.plan(READ, 0, at, SHORT, 1 + f.small(5000), n=n, kinds=("read", "pread"))
            self.what = kind
        self.seen = 0

    def hits(self):
        n = self.shim.total_hits()
        if n > self.seen:
            self.sim.injected({"error": "read-error", "open": "open-error", "short": "short-read"}[self.what], n - self.seen)
            self.seen = n
        return n + self.ends

    def stop(self):
        for p, at, data, mtime in self.cut:
            with open(p, "r+b") as fo:
                fo.seek(at)
                fo.write(data)
            os.utime(p, ns=(mtime, mtime))
        self.cut = []
        self.hits()
        self.shim.clear_plan()
        self.seen = self.ends = 0


def setup(sim, kinds=KINDS):
    s = sim.ops
    kind = kinds[s.draw(len(kinds))]
    arch, idx, mp = sim.mkdir("arch"), sim.mkdir("idx"), sim.mkdir("mp")
    path, extra, _ = p05.build(sim, sim.data, kind, arch)
    opts = dict(extra, parallelization=1, indexMinimumFileCount=0)
    store = s.draw(2)
    if store:
        opts.update(indexFolders=[idx], writeIndex=True)
    else:
        opts["indexFilePath"] = ":memory:"
    if s.draw(5) == 4 and (kind in ("tar", "zip", "cpio", "7z") or kind in ("tar.xz", "tar.zst")):
        opts["prioritizedBackends"] = ["libarchive"]
        kind += "@libarchive"
    if s.draw(4) == 3:
        opts["lazyMounting"] = True
    ref_opts = dict(opts, indexFilePath=":memory:", lazyMounting=False)
    ref_opts.pop("indexFolders", None)
    ref = mount(path, mp, ref_opts)
    want = walk(Kernel(ref))
    close(ref)
    sim.trace(kind, opts.get("recursive"), store, sorted(want)[:30])
    return kind, arch, idx, mp, path, opts, want


def ending(sim):
    """The archive ends early for a while."""
    usage(sim, ends=True)


def usage(sim, ends=False):
    """Errors while the mount is in use."""
    s = sim.ops
    kind, arch, idx, mp, path, opts, want = setup(sim, ENDING if ends else KINDS)
    if "lazyMounting" in opts and opts.get("recursive"):
        opts.pop("lazyMounting")  # (what is listed depends on what was visited; that is P11's)
    fm = mount(path, mp, opts)
    k = Kernel(fm)
    faults = Faults(sim, arch, fragile(kind, path))
    paths = sorted(want)
    files = [p for p in paths if want[p][0] == "file"]
    big = [p for p in files if len(want[p][1]) > 20000] or files
    handles = {}
    active = False
    log = []
    for step in range(10 + s.draw(50)):
        r = s.draw(12)
        if r == 0:
            if ends:
                faults.end()
            else:
                faults.start()
            active = True
        elif r == 1:
            faults.stop()
            active = False
        op = ["lstat", "list", "readlink", "open", "read", "read", "read", "close", "whole", "read"][s.draw(10)]
        before = faults.hits()
        raw = len(k.raw)
        try:
            if op == "lstat":
                p = s.pick(paths)
                if p == "/":
                    continue
                a = k.lstat(p)
                if want[p][2]:
                    sim.equal([a["st_size"], a["st_mode"], a["st_mtime"], a["st_uid"], a["st_gid"]], list(want[p][2]), "wrong-attributes", f"{p} in {kind} after {log[-8:]}")
            elif op == "list":
                p = s.pick([p for p in paths if want[p][0] == "dir"])
                sim.equal(sorted(k.listdir(p)), want[p][1], "wrong-listing", f"{p} in {kind} after {log[-8:]}")
            elif op == "readlink":
                links = [p for p in paths if want[p][0] == "link"]
                if not links:
                    continue
                p = s.pick(links)
                sim.equal(k.readlink(p), want[p][1], "wrong-link", f"{p} in {kind}")
            elif op == "whole":
                p = s.pick(files)
                sim.equal(h(k.read_all(p)), h(want[p][1]), "wrong-data", f"{p} in {kind} after {log[-8:]}")
            elif op == "open":
                p = s.pick(big if s.draw(3) else files)
                n = k.open(p, os.O_RDONLY)
                handles[n] = [p, 0]
            elif op == "close":
                if not handles:
                    continue
                n = s.pick(sorted(handles))
                p = handles.pop(n)[0]
                k.close(n)
            else:
                if not handles:
                    continue
                n = s.pick(sorted(handles))
                p, pos = handles[n]
                size = len(want[p][1])
                off = pos if s.draw(2) else s.draw(size + 1)
                length = [1, 100, 4096, 20_000, 131072, 1 << 20][s.draw(6)]
                got = k.pread(n, length, off)
                handles[n][1] = off + len(got)
                sim.equal(h(got), h(want[p][1][off:off + length]), "wrong-data",
                          f"{p} [{off}:{off + length}] of {size} in {kind} after {log[-10:]}")
            answer = "ok"
        except KErr as e:
            sim.check(active and faults.hits() > 0, "fails-without-cause",
                      lambda: f"{op} {p} in {kind} fails ({e.no}, {e.cause!r} {k.raw[raw:]}) although storage works, after {log[-10:]}")
            answer = e.no
        except Exception as e:
            raise
        sim.state(kind, op, faults.what if active else "", answer if faults.hits() > before or not active else "same")
        log.append(f"{op} {p} {answer}" + (f" ({faults.what} {faults.hits() - before})" if faults.hits() > before else ""))
        sim.trace(log[-1])
    faults.stop()
    for n in sorted(handles):
        p = handles[n][0]
        try:
            got = k.pread(n, 1 << 40, 0)
        except KErr as e:
            sim.fail("fails-without-cause", f"handle of {p} in {kind} cannot be read ({e.no}, {e.cause!r}) although storage works again, after {log[-12:]}")
        sim.equal(h(got), h(want[p][1]), "wrong-data", f"old handle of {p} in {kind} after {log[-12:]}")
        k.close(n)
    try:
        got = walk(k)
    except KErr as e:
        sim.fail("fails-without-cause", f"{kind}: {e.no} {e.cause!r} although storage works again, after {log[-12:]}")
    d = differences(got, want)
    sim.check(not d, "wrong-after-errors", lambda: f"{kind} after {log[-12:]}: {d}")
    sim.shim.disarm()
    close(fm)


def mounting(sim):
    """Errors while mounting: no mount, or the right one; nothing wrong is stored."""
    s = sim.ops
    kind, arch, idx, mp, path, opts, want = setup(sim)
    if opts.get("recursive"):
        opts.pop("lazyMounting", None)
    faults = Faults(sim, arch, fragile(kind, path))
    log = []
    for attempt in range(1 + s.draw(3)):
        last = attempt and s.draw(3) == 2
        if last:
            faults.stop()
        else:
            faults.start()
        try:
            fm = mount(path, mp, opts)
        except Exception as e:
            sim.check(faults.hits() > 0, "mount-fails", lambda: f"{kind} {opts} after {log}: {type(e).__name__}: {e} at {where(e)}")
            log.append(f"mount fails {type(e).__name__} ({faults.what})")
            sim.trace(log[-1])
            sim.state(kind, "mount", faults.what, type(e).__name__)
            continue
        n = faults.hits()
        faults.stop()
        log.append(f"mounted with {faults.what} {n}")
        sim.trace(log[-1])
        sim.state(kind, "mount", faults.what, n > 0)
        verify(sim, fm, kind, want, log, hit=n > 0, recursive=opts.get("recursive"))
        close(fm)
    faults.stop()
    for _ in range(2):
        try:
            fm = mount(path, mp, opts)
        except Exception as e:
            sim.fail("mount-fails", f"{kind} {opts} after {log}: {type(e).__name__}: {e} at {where(e)}")
        log.append("mounted again")
        verify(sim, fm, kind, want, log)
        close(fm)
    sim.shim.disarm()


def verify(sim, fm, kind, want, log, hit=False, recursive=False):
    k = Kernel(fm)
    try:
        got = walk(k)
    except KErr as e:
        sim.fail("fails-without-cause", f"{kind}: {e.no} {e.cause!r} although storage works again, after {log}")
    if hit and recursive:
        # an archive inside that could not be opened is shown as the file that it is
        for p in [p for p in got if got[p][0] == "file" and want.get(p, ("",))[0] == "dir"]:
            sim.probe("archive-shown-as-file")
            want = {q: x for q, x in want.items() if q != p and not q.startswith(p + "/")}
            want[p] = got[p]
    d = differences(got, want)
    sim.check(not d, "wrong-after-errors", lambda: f"{kind} after {log}: {d}")


CONFIGS = {"ending": ending, "usage": usage, "mounting": mounting}
RUNS = {"quick": {"ending": 200, "usage": 300, "mounting": 250}, "thorough": {"ending": 8000, "usage": 12000, "mounting": 10000}}
