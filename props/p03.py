"""P03: mounting and reading never modifies archives or anyone else's files."""
import errno
import gc
import gzip
import hashlib
import os
import random
import shutil

from dst import archives as A
from dst import view
from dst.shim import CRASH_AFTER, CRASH_BEFORE, ERR, MUT, READ, SHORT
from dst.sim import fork_phase

from . import common as C
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.compositing.union import UnionMountSource
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P03"
LEVEL = "exploration"
RULE = "distinct (formats, mount options, fault kind, outcome, kinds of mutating calls) combinations"
REAL = ["mount factory, all archive back ends, index handling, recursive and union mounts of ratarmountcore",
        "SQLite, decompression libraries, a real file system below the scratch directory"]
STUB = ["storage errors, kills (LD_PRELOAD seam, which also logs every mutating system call); SIGINT (line tracing)"]
ASSUMPTIONS = ["all writing goes through the C library functions that the seam wraps; snapshots of all files back this up"]

FORMATS = C.FORMATS + ["squashfs", "7z", "split", "index", "garbage"]


def snapshot(*roots):
    out = {}
    for root in roots:
        for base, ds, fs in os.walk(root):
            st = os.lstat(base)
            out[base] = ("dir", st.st_mode, st.st_uid)
            for n in fs + [d for d in ds if os.path.islink(os.path.join(base, d))]:
                p = os.path.join(base, n)
                st = os.lstat(p)
                if os.path.islink(p):
                    out[p] = ("link", os.readlink(p), st.st_mtime_ns, st.st_ino)
                else:
                    with open(p, "rb") as f:
                        d = hashlib.sha1(f.read()).hexdigest()
                    out[p] = ("file", d, st.st_size, st.st_mode, st.st_mtime_ns, st.st_ino, st.st_uid, st.st_nlink)
    return out


def build(sim, s, fmt, folder, i):
    """Creates an archive in folder; returns the path to mount."""
    base = os.path.join(folder, ["data", "my data", "x.y", "ünï", "a_b"][s.draw(5)] + str(i))
    if fmt == "squashfs":
        p = base + ".squashfs"
        A.squashfs_file(A.order(A.tree(s, max_files=8)), p, sim.path("work"))
    elif fmt == "7z":
        p = base + ".7z"
        t = {k: v for k, v in A.tree(s, max_files=8, links=False).items() if v.kind == "file"}
        A.seven_zip_file(A.order(t or {"x": A.Node("file", data=b"x")}), p, sim.path("work"))
    elif fmt == "split":
        b = A.tar_bytes(A.order(A.tree(s, max_files=8)))
        n = max(1, len(b) // 3)
        for k in range(0, len(b), n):
            with open(f"{base}.tar.{k // n + 1:03}", "wb") as f:
                f.write(b[k:k + n])
        p = base + ".tar.001"
    elif fmt == "index":
        # an index file of its own, whose archive is not there
        q = os.path.join(sim.path("work2"), "gone.tar")
        os.makedirs(os.path.dirname(q), exist_ok=True)
        C.make_archive(sim, s, "tar", q)
        p = base + ".index.sqlite"
        C.phase_dump(q, {"indexFilePath": p, "writeIndex": True})
        shutil.rmtree(sim.path("work2"))
    elif fmt == "garbage":
        p = base + [".tar", ".zip", ".gz", ".tar.gz", ".squashfs", ".txt"][s.draw(6)]
        with open(p, "wb") as f:
            f.write(A.content(s, s.draw(3000)))
    else:
        p = base + C.suffix(fmt)
        C.make_archive(sim, s, fmt, p)
        if fmt not in ("folder",) and s.draw(10) == 9:  # truncated archive
            with open(p, "r+b") as f:
                f.truncate(max(1, os.path.getsize(p) - 1 - s.draw(600)))
    for d in ("work", "work2"):
        if os.path.isdir(sim.path(d)):
            os.system(f"chmod -R u+rwx '{sim.path(d)}'")
            shutil.rmtree(sim.path(d))
    if os.path.isfile(p):
        os.utime(p, (A.BASE_TIME, A.BASE_TIME))
    return p


def scenario(sim, faults):
    s = sim.ops
    data, idx, other = sim.mkdir("data"), sim.mkdir("idx"), sim.mkdir("other")
    home, tmp = sim.path("home"), sim.path("tmp")
    whole = s.draw(4) == 3          # mount the folder that holds the archives
    n = 1 + s.draw(3)
    fmts, paths = [], []
    for i in range(n):
        f = FORMATS[s.draw(len(FORMATS))]
        fmts.append(f)
        paths.append(build(sim, sim.data, f, data, i))
    # bystanders, some of which look like index or temporary files
    for name in ["notes.txt", "other.index.sqlite", os.path.basename(paths[0]) + ".bak", os.path.basename(paths[0]) + ".index",
                 os.path.basename(paths[0]) + ".index.sqlite.bak", os.path.basename(paths[0]).split(".")[0] + ".index.sqlite",
                 ".hidden", "tmpabc.tmp.sqlite.index"]:
        for d in (data, idx, other, sim.path()):
            q = os.path.join(d, name)
            if not os.path.exists(q) and s.draw(3):
                with open(q, "wb") as f:
                    f.write(A.content(sim.data, 1 + sim.data.draw(300)))
                os.utime(q, (A.BASE_TIME, A.BASE_TIME))
    os.makedirs(os.path.join(home, "docs"))
    with open(os.path.join(home, "docs", "letter"), "w") as f:
        f.write("dear")

    opts = {"parallelization": 1, "indexMinimumFileCount": [0, 3, 1000][s.draw(3)]}
    loc = s.draw(6)
    explicit = None
    folders = ["", os.path.join(home, ".ratarmount")]
    if loc == 1:
        opts["indexFolders"] = folders = [idx]
    elif loc == 2 and n == 1 and not whole:
        explicit = os.path.join(idx, "mine.index")
        opts["indexFilePath"] = explicit
    elif loc == 3:
        opts["indexFilePath"] = ":memory:"
        folders = []
    elif loc == 4:
        opts["indexFolders"] = folders = ["", idx]
    elif loc == 5:
        opts["indexFolders"] = folders = [os.path.join(idx, "new", "sub")]
    if s.draw(3) == 2:
        opts["recursive"] = True
        if s.draw(2):
            opts["lazyMounting"] = True
        if s.draw(3) == 2:
            opts["recursionDepth"] = s.draw(3)
    if s.draw(5) == 4:
        opts["hashes"] = ["crc32"]
    if s.draw(6) == 5:
        opts["prioritizedBackends"] = [["libarchive"], ["indexed_gzip"], ["zipfile"], ["pysquashfsimage"]][s.draw(4)]
    if "folder" in fmts and s.draw(2):
        opts["forceFolderIndex"] = True

    def allowed(path, op, o):
        """May this mount change this path?"""
        if path == tmp or path.startswith(tmp + "/") or path in ("/dev/null", "/dev/tty", "/dev/zero"):
            return True
        if o.get("readOnlyIndex"):
            return False
        for suffix in ("-journal", "-wal", "-shm"):
            if path.endswith(suffix):
                path = path[:-len(suffix)]
                break
        if explicit:
            return path == explicit
        if op == "mkdir":
            return any(f and (f == path or f.startswith(path + "/")) for f in folders)
        names = set(everything)
        for a in names:
            ip = a + ".index.sqlite"
            for f in folders:
                if not f and (path == ip or path in compressed):
                    return True
                if f and path == os.path.join(f, ip.replace("/", "_")):
                    return True
        return False

    # archives whose index may be written
    everything = [p[:-4] + ".001" if False else p for p in paths]
    everything += [os.path.join(b, x) for p in paths if os.path.isdir(p) for b, _, fs in os.walk(p) for x in fs]
    compressed = set()
    if whole:
        for b, ds, fs in os.walk(data):
            everything += [os.path.join(b, x) for x in fs] + [b]
    mains = [data] if whole else paths
    everything += mains

    watch = [data, idx, other, home, tmp, sim.dir, ""]
    shim = sim.shim
    f = sim.fault

    def session(o, plan, interrupt):
        def body(report):
            rnd = random.Random(7)
            sources = []
            shim.arm()
            try:
                with C.LineInterrupt(interrupt or -1) as li:
                    try:
                        made = [open_mount_source(p, **o) for p in mains]
                        ms = made[0] if len(made) == 1 else UnionMountSource(made, **o)
                        if o.get("recursive"):
                            ms = AutoMountLayer(ms, **o)
                        try:
                            d = view.dump(ms, max_depth=6)
                            files = [p for p, r in d.items() if r and r[0] == "file"]
                            for p in files[:6]:
                                fi = ms.lookup(p)
                                with ms.open(fi, buffering=[0, -1][rnd.randrange(2)]) as h:
                                    h.seek(rnd.randrange(max(1, fi.size)))
                                    h.read(100)
                                    try:
                                        h.write(b"x")
                                    except Exception:  # noqa
                                        pass
                                ms.read(fi, 10, 3)
                                ms.get_mount_source(fi)
                            ms.statfs()
                            ms.list("/nonexistent")
                            ms.lookup("/nonexistent/x")
                        finally:
                            ms.__exit__(None, None, None)
                    except KeyboardInterrupt:
                        report(["interrupted"])
            finally:
                ms = made = h = None  # noqa
                gc.collect()
                shim.disarm()
            report(["tmp", sorted(os.listdir(tmp))])
        return fork_phase(body)

    for step in range(2 + s.draw(3)):
        o = dict(opts)
        m = s.draw(6)
        if step and m in (1, 2) or (m == 1 and s.draw(3) == 2):
            o["readOnlyIndex"] = True
            o["writeIndex"] = True
        elif m == 3:
            o["writeIndex"] = False
        else:
            o["writeIndex"] = True
        if s.draw(6) == 5 and not o.get("readOnlyIndex"):
            o["clearIndexCache"] = True
        if s.draw(4) == 3:
            o["verifyModificationTime"] = True
        # what may lie at an index location before a mount
        if s.draw(3) == 2 and not explicit and "" in folders:
            p = mains[s.draw(len(mains))]
            ip = p + ".index.sqlite"
            k = s.draw(3)
            if k != 1 and os.path.exists(ip) and os.path.isfile(p):
                with open(ip, "rb") as fh:
                    d = fh.read()
                with gzip.GzipFile(ip + ".gz", "wb", mtime=0) as fh:
                    fh.write(d)
                os.unlink(ip)
                compressed.add(ip + ".gz")
                sim.trace("index compressed")
            elif k == 1 and not os.path.isdir(ip):
                with open(ip, "wb") as fh:
                    fh.write(b"no index")
                sim.trace("garbage at index location")
        if step and s.draw(4) == 3:
            # an index that cannot be used any more, wherever it was written
            have = [q for q in sorted(C.files_under(idx, home, data)) if q.endswith((".index.sqlite", "mine.index"))
                    and allowed(q, "create", {})]
            if have:
                q = s.pick(have)
                how = s.draw(3)
                with open(q, "r+b") as fh:
                    if how == 0:
                        fh.truncate(os.path.getsize(q) // 8192 * 4096 + s.draw(4096))
                    elif how == 1:
                        fh.truncate(0)
                        fh.write(b"SQLite format 3\0 but not really")
                    else:
                        fh.truncate(0)
                sim.trace("damaged", q, how)
        if s.draw(5) == 4 and os.path.isfile(paths[0]):
            os.utime(paths[0], (A.BASE_TIME + 50 + step,) * 2)  # the stored index is out of date
            o["verifyModificationTime"] = True
        for q in os.listdir(tmp):
            os.unlink(os.path.join(tmp, q))
        before = snapshot(data, idx, other, home)
        shim.reset(watch)
        kind, interrupt = "-", None
        if faults:
            kind = f.weighted([(3, "kill"), (2, "EIO-write"), (2, "EACCES"), (2, "EIO-read"), (2, "interrupt"), (1, "short"), (1, "-"),
                               (1, "ENOSPC")])
            at = f.small(70)
            area = {0: 0, 1: 1, 2: 1, 3: 4, 4: 0, 5: 1}[loc] if f.draw(4) else [0, 1, 3, 4][f.draw(4)]
            if kind == "kill":
                shim.plan(MUT, area, at, CRASH_BEFORE if f.draw(2) else CRASH_AFTER, n=None)
            elif kind == "EIO-write":
                shim.plan(MUT, area, at, ERR, errno.EIO, n=1 + f.draw(5))
            elif kind == "EACCES":
                shim.plan(MUT, area, f.draw(6), ERR, errno.EACCES, n=None, kinds=("create", "open", "mkdir", "unlink"))
            elif kind == "EIO-read":
                shim.plan(READ, f.draw(2), at, ERR, errno.EIO, n=1 + f.draw(20))
            elif kind == "short":
                shim.plan(READ, 0, at, SHORT, arg=1 + f.draw(600), n=1 + f.draw(20), kinds=("read", "pread"))
            elif kind == "ENOSPC":
                shim.shm.budget[area] = f.draw(200_000)
            elif kind == "interrupt":
                interrupt = 1 + f.draw(8000)
        out, st = session(o, None, interrupt)
        shim.disarm()
        if kind != "-" and (shim.total_hits() or st == "killed" or (interrupt and ["interrupted"] in out)):
            sim.injected(kind)
        after = snapshot(data, idx, other, home)
        ctx = f"{fmts} {'folder' if whole else ''} {o} step {step} fault {kind} -> {st}"
        sim.trace(f"session {o} fault {kind} -> {st} {out[-1][:3] if out and st == 'exc' else ''}")
        log = shim.log()
        ops, made_dirs = set(), {sim.dir}
        for op, path, off, ln, fault, prefix in log:
            if op in ("sync",) or (op == "chown" and path.endswith("-journal")) or (op == "mkdir" and (path in made_dirs or before.get(path, ("",))[0] == "dir")):
                continue  # (creating a folder that exists changes nothing)
            if op == "mkdir":
                made_dirs.add(path)
            ops.add(op)
            full = path
            sim.evaluations += 1
            if not allowed(full, op, o):
                sim.fail("writes-where-it-must-not", f"{ctx}: {op} {path.replace(sim.dir, '$D')}")
        for p in sorted(set(before) | set(after)):
            if before.get(p) == after.get(p) or allowed(p, "mkdir" if (after.get(p) or ("",))[0] == "dir" else "unlink", o):
                continue
            sim.fail("file-changed", f"{ctx}: {p.replace(sim.dir, '$D')}: before {before.get(p)} after {after.get(p)}")
        sim.evaluations += len(before)
        if st.startswith("signal"):
            # a decompression library aborted (read error, truncated input); the files are judged all the same
            sim.probe("process-died")
        if st != "killed" and not st.startswith("signal"):
            left = sorted(os.listdir(tmp))
            # an unlink of the temporary file which the simulator let fail is excused
            if left and not (kind in ("EIO-write", "EACCES", "interrupt")):
                sim.fail("temporary-file-remains", f"{ctx}: {left} {out[-1]}")
        if any(x.startswith(tmp) for _, x, *_ in log):
            sim.probe("temporary-files-used")
        if st == "ok":
            sim.probe("mounted")
        if o.get("readOnlyIndex"):
            sim.probe("read-only-index " + st)
        if after != before:
            sim.probe("index-written")
        sim.state(tuple(fmts), whole, tuple(sorted(o)), loc, kind, st, tuple(sorted(ops)))


def clean(sim):
    scenario(sim, False)


def faulty(sim):
    scenario(sim, True)


CONFIGS = {"clean": clean, "faults": faulty}
RUNS = {"quick": {"clean": 200, "faults": 260}, "thorough": {"clean": 6000, "faults": 10000}}
