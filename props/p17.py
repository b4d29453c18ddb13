"""P17: mounts that share an index do not disturb each other, whatever is done with the index by others."""
import errno
import json
import os
import sqlite3
import stat

from dst import view
from dst.shim import CRASH_AFTER, CRASH_BEFORE, CRASH_TORN, ERR, MUT
from dst.sim import fork_phase, where
from dst.view import h

from . import common as C
from . import p01
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P17"
LEVEL = "exploration"
RULE = "distinct (format, kind of step, number of mounts in use, its outcome, files left behind) combinations"
REAL = p01.REAL
STUB = ["process kills, I/O errors and a full disk while one of the mounts is created (LD_PRELOAD seam)", "clock (virtual)",
        "most mounts live in one process, each with database connections of its own; those that are killed live in processes of their own"]
ASSUMPTIONS = ["a mount is created after the one before it was created or killed: creations that overlap in time are not explored",
               "the archive does not change", "SQLite arbitrates between the connections of one process as between those of several"]


def impatient(*args, connect=sqlite3.connect, **kwargs):
    """Locks are held by mounts that stay, so that there is no use in waiting for them."""
    return connect(*args, **dict({"timeout": 0.01}, **kwargs))


def norm(d):
    """Without checksums, which only some of the mounts were asked for."""
    d = json.loads(json.dumps(d))
    for row in d.values():
        for i, x in enumerate(row):
            if isinstance(x, list):
                row[i] = [kv for kv in x if not (isinstance(kv, list) and str(kv[0]).startswith("user.hash."))]
    return d


def steps(sim):
    s = sim.ops
    sqlite3.connect = impatient
    fmt = C.FORMATS[s.draw(len(C.FORMATS))]
    arch, idx = sim.mkdir("arch"), sim.mkdir("idx")
    path = os.path.join(arch, "data" + C.suffix(fmt))
    C.make_archive(sim, sim.data, fmt, path, many=s.draw(3) == 2 and not fmt.startswith("single"))
    opts = p01.options(sim, s, fmt, idx)
    hashes = opts.pop("hashes", None)
    st, ref = p01.reference(sim, path, opts)
    if st != "ok":
        sim.fail("reference-mount-failed", f"{fmt}: {st} {ref}")
    ref = norm(ref)
    own = {path} if fmt != "folder" else set(C.files_under(path))
    watch = [arch, idx, os.path.join(sim.dir, "home"), os.path.join(sim.dir, "tmp")]
    files = sorted(p for p in ref if p.startswith("/") and ref[p][0] == "file")
    everything = sorted(p for p in ref if p.startswith("/"))
    sim.trace(fmt, opts, "hashes", hashes, files[:20])
    shim, f = sim.shim, sim.fault
    mounts, handles = {}, {}
    number = 0
    log = []
    data = {}

    def remains():
        return sorted(os.path.basename(p) for p in C.files_under(arch, idx, watch[2]) if p not in own)

    def variant():
        o = dict(opts)
        if hashes and s.draw(2):
            o["hashes"] = hashes
        r = s.draw(8)
        if r == 0:
            o["clearIndexCache"] = True
        elif r == 1:
            o["writeIndex"] = False
        elif r == 2:
            o["parallelization"] = 2
        elif r == 4:
            o["verifyModificationTime"] = True
        elif r == 5:
            o["indexFilePath"] = ":memory:"
            o.pop("indexFolders", None)
        return o

    def what(n):
        return f"mount {n} of {fmt} with {opts} after {log[-12:]}"

    def use(n):
        ms = mounts[n]
        r = s.draw(6)
        try:
            if r < 2 and files:
                p = s.pick(files)
                with ms.open(ms.lookup(p)) as fo:
                    got = h(fo.read())
                sim.equal(got, data.setdefault(p, got), "wrong-data", f"{p} in {what(n)}")
                sim.equal(got, ref[p][7] if len(ref[p]) > 7 else got, "wrong-data", f"{p} in {what(n)}")
            elif r == 2 and files:
                p = s.pick(files)
                handles[len(handles)] = (n, p, ms.open(ms.lookup(p)))
            elif r == 3 and handles:
                key = s.pick(sorted(handles))
                m, p, fo = handles[key]
                fo.seek(0)
                got = h(fo.read())
                sim.equal(got, data.setdefault(p, got), "wrong-data", f"open file {p} of {what(m)}")
            elif r == 4:
                p = s.pick(everything)
                fi = ms.lookup(p)
                sim.check(fi is not None, "lost", lambda: f"{p} in {what(n)}")
                sim.check(view.kind(fi.mode) == ref[p][0] or ref[p][0] not in ("dir", "file", "link"), "wrong-kind", f"{p} in {what(n)}")
                if stat.S_ISDIR(fi.mode):
                    names = sorted(x for x in ms.list(p) or [])
                    pre = p.rstrip("/") + "/"
                    sim.equal(names, sorted({q[len(pre):].split("/")[0] for q in everything if q.startswith(pre)} - {""}), "wrong-listing", f"{p} in {what(n)}")
            else:
                full(n, ms)
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            sim.fail("disturbed", f"{what(n)}: {type(e).__name__}: {e} at {where(e)}")

    def full(n, ms):
        d = view.diff(norm(view.dump(ms)), ref)
        sim.check(not d, "wrong-tree", lambda: f"{what(n)}: {d}")

    def start(o, label):
        nonlocal number
        number += 1
        try:
            mounts[number] = open_mount_source(path, **o)
        except Exception as e:
            sim.fail("mount-fails", f"{what(number)} {label} {o}: {type(e).__name__}: {e} at {where(e)}")
        return number

    for _ in range(8 + s.draw(25)):
        r = s.pick([0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10])
        extra = {}
        if r < 3 and len(mounts) < 4:
            o = variant()
            extra = {k: v for k, v in o.items() if opts.get(k) != v}
            n = start(o, "mount")
            log.append(f"mount {n} {extra}")
            outcome = "ok"
        elif r == 3 and len(mounts) > 1:
            n = s.pick(sorted(mounts))
            for key in [key for key in handles if handles[key][0] == n]:
                handles.pop(key)[2].close()
            mounts.pop(n).__exit__(None, None, None)
            log.append(f"close {n}")
            outcome = "ok"
        elif r == 4:
            # Another process that is killed or whose disk fails
            o = variant()
            extra = {k: v for k, v in o.items() if opts.get(k) != v}
            shim.reset(watch)
            kind = f.weighted([(6, "kill"), (2, "kill-torn"), (2, "EIO"), (1, "ENOSPC"), (2, "none")])
            area, at = f.pick([1, 1, 1, 0, 2]), f.small(f.pick([8, 60, 400]))
            if kind == "kill":
                shim.plan(MUT, area, at, CRASH_BEFORE if f.draw(2) else CRASH_AFTER, n=None)
            elif kind == "kill-torn":
                shim.plan(MUT, area, at, CRASH_TORN, arg=4096 * f.draw(4), n=None)
            elif kind == "EIO":
                shim.plan(MUT, area, at, ERR, errno.EIO, n=f.pick([1, None]), kinds=("write", "pwrite", "truncate", "sync", "create", "open"))
            elif kind == "ENOSPC":
                shim.shm.budget[area] = f.draw(30000)

            def body(report):
                shim.arm()
                try:
                    C.mount_dump(path, o)
                finally:
                    shim.disarm()
            out, st = fork_phase(body)
            shim.disarm()
            if st == "killed" or shim.total_hits() or kind == "ENOSPC":
                sim.injected(kind)
            shim.reset(())
            log.append(f"other process {extra} {kind} {st}")
            outcome = st
        elif r == 5 and s.draw(3) == 0:
            # The index is removed by hand.
            for p in sorted(C.files_under(arch, idx, watch[2])):
                if p not in own and not os.path.basename(p).startswith("config"):
                    os.unlink(p)
            log.append("index removed")
            outcome = "ok"
        elif mounts:
            use(s.pick(sorted(mounts)))
            continue
        else:
            continue
        sim.trace(log[-1], remains())
        sim.state(fmt, log[-1].split()[0], sorted(extra), len(mounts), outcome, tuple(remains()))
        for n in sorted(mounts):
            use(n)
    for n in sorted(mounts):
        try:
            full(n, mounts[n])
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            sim.fail("disturbed", f"{what(n)}: {type(e).__name__}: {e} at {where(e)}")
    for n, p, fo in handles.values():
        fo.seek(0)
        got = h(fo.read())
        sim.equal(got, data.setdefault(p, got), "wrong-data", f"open file {p} of {what(n)}")
        fo.close()
    for n in sorted(mounts):
        mounts[n].__exit__(None, None, None)
    st, got = C.phase_dump(path, opts)
    sim.check(st == "ok", "mount-fails", lambda: f"final {what('-')}: {got}")
    d = view.diff(norm(got), ref)
    sim.check(not d, "wrong-tree", lambda: f"final {what('-')}: {d}")


CONFIGS = {"steps": steps}
RUNS = {"quick": {"steps": 450}, "thorough": {"steps": 12000}}
