"""P14: checksums shown as attributes are the checksums of what is shown, however checksumming was disturbed."""
import errno
import hashlib
import os
import signal
import stat
import sys
import zlib

from dst import archives as A
from dst import view
from dst.shim import CRASH_AFTER, CRASH_BEFORE, ERR, MUT, READ, SHORT
from dst.sim import REPO, fork_phase

from . import common as C
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P14"
LEVEL = "exploration"
RULE = "distinct (format, last three steps of the history, algorithms, disturbance and what became of it) combinations"
REAL = ["checksumming, its resumption and storage in ratarmountcore, all indexing back ends, AutoMountLayer", "SQLite, hashlib"]
STUB = ["read errors and short reads of the archive, process kills (LD_PRELOAD seam)", "interruptions at a chosen line of the checksumming code"]
ASSUMPTIONS = ["SQLAR and SquashFS archives (no index) and single compressed files (no header offset) have no checksums", "archives do not contain attributes named user.hash.* of their own",
               "an archive that changes below an index that cannot tell (P02) is outside"]

FORMATS = ["tar", "tarpax", "zip", "tar.gz", "tar.bz2", "tar.zst", "tar.xz", "nested", "ar", "asar",
           "cpio", "folder", "tardup"]
ALGORITHMS = ["crc32", "md5", "sha1", "sha256", "sha3-512", "sha512-256", "blake2b", "smplayer", "nonsense", ""]


def smplayer(data):
    def acc(b):
        b += b"\0" * (-len(b) % 8)
        return sum(int.from_bytes(b[k:k + 8], "little") for k in range(0, len(b), 8))
    n, c = len(data), 1 << 16
    start = min(max(c, n - c), n)
    return "%016x" % ((acc(data[:c]) + n + acc(data[start:start + c])) & (1 << 64) - 1)


def checksum(name, data):
    if name == "crc32":
        return "%08x" % zlib.crc32(data)
    if name == "smplayer":
        return smplayer(data)
    return hashlib.new(name.replace("sha3-", "sha3_").replace("sha512-", "sha512_"), data).hexdigest()


class At:
    """Something happens at the n-th line executed in hashing.py."""

    def __init__(self, n, what):
        self.n, self.what, self.fired = n, what, False

    def _g(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self._l if f.startswith(REPO + "/") and f.endswith("hashing.py") else None

    def _l(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n == 0:
                self.fired = True
                if self.what == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise {"interrupt": KeyboardInterrupt, "io-error": lambda: OSError(errno.EIO, "simulated"), "bad-data": lambda: ValueError("simulated"),
                       "no-memory": MemoryError}[self.what]()
        return self._l

    def __enter__(self):
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def survey(ms, algorithms, complete, damaged=()):
    """What is wrong, or ''; number of attributes compared."""
    n = 0
    todo = ["/"]
    while todo:
        d = todo.pop()
        for name in sorted(ms.list(d) or []):
            p = d.rstrip("/") + "/" + name
            newest = ms.lookup(p)
            if newest is None:
                return f"{p} is listed but not found", n
            if stat.S_ISDIR(newest.mode):
                todo.append(p)
                continue
            for version in range(max(1, ms.versions(p))):
                fi = ms.lookup(p, fileVersion=version)
                if fi is None or not stat.S_ISREG(fi.mode):
                    continue
                have = {k[10:]: ms.get_xattr(fi, k) for k in ms.list_xattr(fi) if k.startswith("user.hash.")}
                try:
                    with ms.open(fi) as f:
                        data = f.read()
                    bad = None
                except Exception as e:  # noqa
                    bad = e
                if bad is not None:
                    if not any(p.endswith(x) for x in damaged):
                        return f"{p} cannot be read: {bad!r}", n
                    if have:
                        return f"{p} cannot be read ({bad!r}) but has checksums {have}", n
                    continue
                if complete:
                    missing = [a for a in algorithms if a not in ("nonsense", "") and a not in have]
                    if missing:
                        return f"{p} (version {version}) lacks {missing}; has {sorted(have)}", n
                for a, v in have.items():
                    n += 1
                    want = checksum(a, data)
                    if v != want.encode():
                        return f"{p} (version {version}) has {a} = {v!r} instead of {want} (size {len(data)})", n
    return "", n


def write(sim, fmt, path, t):
    if fmt == "tardup":
        items = A.order(t)
        files = [(p, x) for p, x in items if x.kind == "file"]
        for _ in range(1 + sim.data.draw(4)):
            p, x = sim.data.pick(files)
            items.append((p, A.Node("file", data=A.content(sim.data, sim.data.draw(2000)), mtime=x.mtime + 1)))
        with open(path, "wb") as f:
            f.write(A.tar_bytes(items))
    else:
        C.write_archive(fmt, path, t)


def histories(sim):
    s, f = sim.ops, sim.fault
    fmt = FORMATS[s.draw(len(FORMATS))]
    arch, idx = sim.mkdir("arch"), sim.mkdir("idx")
    path = os.path.join(arch, "data" + (".tar" if fmt == "tardup" else C.suffix(fmt)))
    many = s.draw(8) == 7 and fmt not in ("single.gz", "single.bz2", "ar")
    t = C.make_archive(sim, sim.data, "tar" if fmt == "tardup" else fmt, path, many=many, big=s.draw(4) == 3)
    if fmt == "tardup":
        write(sim, fmt, path, t)
    base = {"parallelization": 1, "writeIndex": True, "verifyModificationTime": True}
    if fmt == "nested":
        base["recursive"] = True
    if fmt == "folder":
        base["forceFolderIndex"] = True
    where = s.draw(4)
    if where == 0:
        base["indexFolders"] = [idx]
    elif where == 1 and fmt != "nested":
        base["indexFilePath"] = os.path.join(idx, "x.index.sqlite")
    mtime = A.BASE_TIME
    os.utime(path, (mtime, mtime))
    trail = []
    # (read errors below rapidgzip end the process; it is not part of this repository)
    fragile = fmt in ("tar.gz", "tar.bz2", "single.gz", "single.bz2")

    def clean(algorithms, write_index=True):
        o = dict(base, hashes=algorithms, writeIndex=write_index, indexMinimumFileCount=[0, 5, 1000][s.draw(3)])

        def body(report):
            ms = open_mount_source(path, **o)
            try:
                report(list(survey(ms, algorithms, complete=True)))
            finally:
                ms.__exit__(None, None, None)
        out, st = fork_phase(body)
        ctx = f"{fmt} {o} after {trail[-6:]}"
        sim.check(st == "ok", "mount-fails", lambda: f"{ctx}: {st} {out[-1:]}")
        sim.check(not out[0][0], "wrong-checksum" if " instead of " in out[0][0] else "missing-checksum", lambda: f"{ctx}: {out[0][0]}")
        sim.probe("compared", out[0][1])

    def disturbed(algorithms):
        o = dict(base, hashes=algorithms, indexMinimumFileCount=[0, 5, 1000][s.draw(3)])
        how = ["line", "line", "read", "mutate"][f.draw(4)]
        if how == "read" and fragile:
            how = "line"
        at = None
        sim.shim.reset([arch, idx])
        if how == "line":
            at = At(1 + f.small(4000 if many else 600), what := f.pick(["interrupt", "kill", "io-error", "no-memory", "bad-data"]))
        elif how == "read":
            what = f.pick(["read-error", "short-read"])
            sim.shim.plan(READ, 0, f.small(120), ERR if what == "read-error" else SHORT, errno.EIO if what == "read-error" else f.draw(600),
                          n=1 + f.draw(8) * f.draw(8))
        else:
            what = "kill"
            sim.shim.plan(MUT, 1 if where < 2 else 0, f.draw(200), CRASH_BEFORE if f.draw(2) else CRASH_AFTER, n=None)

        def body(report):
            report(["line", False])
            sim.shim.arm()
            if at is not None:
                with at:
                    try:
                        ms = open_mount_source(path, **o)
                    finally:
                        report(["line", at.fired])
            else:
                ms = open_mount_source(path, **o)
            hit = sim.shim.total_hits()
            sim.shim.disarm()
            sim.shim.clear_plan()
            try:
                report(["mounted", hit])
                if what != "short-read":
                    report(list(survey(ms, algorithms, complete=False)))
            finally:
                ms.__exit__(None, None, None)
        out, st = fork_phase(body)
        fired = any(x == ["line", True] for x in out) or st == "killed" or sim.shim.total_hits() > 0
        sim.shim.reset(())
        if fired:
            sim.injected(what)
        mounted = any(x[0] == "mounted" for x in out)
        ctx = f"{fmt} {o} {what} after {trail[-6:]}"
        if st == "ok" and what != "short-read":
            # what was skipped because of the error may be missing, what is there must be right
            text = out[-1][0]
            sim.check(not text or " instead of " not in text, "wrong-checksum", lambda: f"{ctx}: {text}")
        if at is not None and what in ("io-error", "bad-data"):
            sim.check(mounted, "mount-fails", lambda: f"one file could not be checksummed: {ctx}: {st} {out[-1:]}")
        sim.state(fmt, what, st, mounted, fired)
        return f"{what}:{st}"

    for _ in range(2 + s.draw(4)):
        algorithms = s.subset(ALGORITHMS, 350) or ["crc32"]
        k = s.draw(8)
        if k <= 3:
            what = disturbed(algorithms) + " " + ",".join(algorithms)
        elif k <= 5:
            clean(algorithms)
            what = "clean " + ",".join(algorithms)
        elif fmt != "folder":
            t = dict(t)
            for j in range(1 + s.draw(3)):
                p = s.pick([p for p, x in t.items() if x.kind == "file"])
                if s.draw(2):
                    t[p] = A.Node("file", data=A.content(s, len(t[p].data) + s.draw(700)), mode=t[p].mode, mtime=t[p].mtime)
                else:
                    t["n" + str(j) + "x" * s.draw(40)] = A.Node("file", data=A.content(s, s.draw(3000)), mtime=A.BASE_TIME)
            write(sim, fmt, path, t)
            mtime += 10
            os.utime(path, (mtime, mtime))
            what = "modify"
        else:
            continue
        trail.append(what)
        sim.trace(what)
        sim.state(fmt, tuple(x.split()[0] for x in trail[-3:]), tuple(algorithms))
    clean(s.subset(ALGORITHMS, 500) or ["md5"], write_index=s.draw(3) > 0)


def damage(sim):
    """Some members cannot be read: the others have all checksums."""
    s = sim.ops
    fmt = ["zip", "tar", "zip"][s.draw(3)]
    d = sim.mkdir("arch")
    path = os.path.join(d, "data." + fmt)
    t = C.make_archive(sim, sim.data, "tar", path)
    t = {p: x for p, x in t.items() if x.kind in ("file", "dir")}
    files = [p for p, x in t.items() if x.kind == "file" and len(x.data) > 20]
    bad = []
    if fmt == "tar":
        b = A.tar_bytes(A.order(t), end_blocks=False)
        last = [p for p, x in A.order(t)][-1]
        if last in files:
            n = len(t[last].data)
            cut = s.draw(n)
            b = b[:len(b) - (-(-n // 512) * 512) + cut]
            bad = [last]
        with open(path, "wb") as f:
            f.write(b)
    else:
        C.write_archive(fmt, path, t)
        bad = s.subset(files, 300)
        import zipfile
        with zipfile.ZipFile(path) as z:
            where = {i.filename: (i.header_offset + 30 + len(i.filename.encode()), i.compress_size) for i in z.infolist()}
        with open(path, "r+b") as f:
            for p in bad:
                off, n = where[p]
                f.seek(off + n // 2)
                b = f.read(1)
                f.seek(off + n // 2)
                f.write(bytes([b[0] ^ 0x55]))
    algorithms = s.subset(ALGORITHMS, 400) or ["crc32"]
    o = {"parallelization": 1, "writeIndex": s.draw(2) == 1, "indexMinimumFileCount": 0, "hashes": algorithms}
    if bad:
        sim.injected("damaged-member", len(bad))
    for _ in range(2):
        def body(report):
            ms = open_mount_source(path, **o)
            try:
                report(list(survey(ms, algorithms, complete=True, damaged=bad)))
            finally:
                ms.__exit__(None, None, None)
        out, st = fork_phase(body)
        ctx = f"{fmt} {o} damaged {bad}"
        sim.check(st == "ok", "mount-fails", lambda: f"{ctx}: {st} {out[-1:]}")
        sim.check(not out[0][0], "wrong-checksum" if " instead of " in out[0][0] else "missing-checksum", lambda: f"{ctx}: {out[0][0]}")
        sim.probe("compared", out[0][1])
        sim.state(fmt, len(bad) > 0, tuple(algorithms))
        o["hashes"] = algorithms = sorted(set(algorithms) | set(s.subset(ALGORITHMS, 300)))


CONFIGS = {"histories": histories, "damage": damage}
RUNS = {"quick": {"histories": 350, "damage": 120}, "thorough": {"histories": 8000, "damage": 2500}}
