"""P11: archives inside archives, mounted eagerly or on demand, in any order of accesses."""
import os
import stat

from dst import archives as A
from dst.kernel import KErr
from dst.shim import ERRNOS, ERR, READ
from dst.sim import where
from dst.view import h

from . import common as C
from . import overlay as O
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P11"
LEVEL = "exploration"
RULE = "distinct (root kind, nesting of archive kinds on the path, depth, lazy, kind of request, answer) tuples"
REAL = ["AutoMountLayer", "SQLiteIndexedTar's own recursion", "TAR, ZIP, gzip, bzip2, xz, zstd and folder mount sources",
        "indexes of nested archives in the index folder", "FuseMount's set-up of recursive mounts"]
STUB = ["read errors of archive files are decided at the system-call boundary"]
ASSUMPTIONS = ["removing a compression counts as one level, as everywhere in the code", "mount points with stripped or transformed names do not "
               "collide with other names", "listings of lazy mounts may still show an archive as a file that was not visited"]

DIRS = ["d", "sub", "d2"]
STEMS = ["a", "b", "same", "x y", "c"]
KINDS = ["tar", "tar", "tar.gz", "zip", "txt.gz", "tar.xz", "tar.bz2", "tar.zst", "txt.bz2"]
# the beginnings of archives that cannot be opened because nothing but noise follows
DAMAGED = [b"\x01no archive ", b"SQLite format 3\0", b"SQLite format 3\0\x10\0\x01\x01\0\x40\x20\x20", b"7z\xbc\xaf\x27\x1c\0\4", b"hsqs",
           b"PK\3\4\x14\0\0\0\x08\0", b"MSCF\0\0\0\0", b"!<arch>\n",
           b"\4\0\0\0" + b"\xff\1\0\0" * 3]


class F:
    def __init__(self, data, name):
        self.data, self.name = data, name


class Arch(F):
    """kids: {name: node}; None when it is damaged."""

    def __init__(self, kind, kids, data, name):
        super().__init__(data, name)
        self.kind, self.kids = kind, kids


def pack(kind, kids, s):
    t = {}
    flatten(kids, "", t)
    items = A.order(t)
    if kind == "zip":
        return A.zip_bytes(items)
    if kind.startswith("txt."):
        return A.compress(kids["text"].data, kind[4:])
    b = A.tar_bytes(items)
    how = {"tar": None, "tar.gz": "gz", "tar.bz2": "bz2", "tar.xz": "xzblocks", "tar.zst": "zstframes"}[kind]
    return A.compress(b, how) if how else b


def flatten(kids, prefix, t):
    for n, x in kids.items():
        if isinstance(x, dict):
            t[prefix + n] = A.Node("dir", mtime=A.BASE_TIME, mode=0o755)
            flatten(x, prefix + n + "/", t)
        else:
            t[prefix + n] = A.Node("file", data=x.data, mtime=A.BASE_TIME + len(x.data) % 1000, mode=0o640)


def grow(s, level, used, kinds):
    kids = {}
    for _ in range(1 + s.draw(4)):
        k = s.draw(6)
        if k == 0 and level:
            n = s.pick(DIRS)
            if n not in kids:
                kids[n] = grow(s, level, used, kinds)
        elif k < 4 and level:
            kind = s.pick(kinds)
            stem = s.pick(STEMS)
            n = f"{stem}.{kind}"
            if used is not None:  # unique names
                n = f"{stem}{len(used)}.{kind}"
                used.add(n)
            if n in kids:
                continue
            if s.draw(8) == 7:
                kids[n] = Arch(kind, None, s.pick(DAMAGED) + A.content(s, 40 + s.draw(2000)), n)
                continue
            if kind.startswith("txt."):
                inner = {"text": F(A.content(s, 1 + s.draw(3000)), "text")}
            else:
                inner = grow(s, level - 1, used, kinds)
                if not inner:
                    inner = {"only": F(b"only", "only")}
            kids[n] = Arch(kind, inner, pack(kind, inner, s), n)
        else:
            n = s.pick(["f1", "f2", "readme.md", "no-archive"])
            if n not in kids:
                kids[n] = F(A.content(s, s.draw(3000)), n)
    return kids


def shown(kids, level, depth, prefix, out, opts, lineage=()):
    """What the documentation promises: {path: ("dir" | "arch" | "file", data, lineage)}."""
    for n, x in kids.items():
        p = prefix + "/" + n
        if isinstance(x, dict):
            out[p] = ("dir", None, lineage)
            shown(x, level, depth, p, out, opts, lineage)
        elif isinstance(x, Arch) and x.kids is not None and level <= depth:
            mp = p
            if opts.get("stripRecursiveTarExtension"):
                out[p] = ("file", x.data, lineage)
                mp = prefix + "/" + (n[:-len(x.kind) - 1] if not x.kind.startswith("txt") else n.rsplit(".", 1)[0])
            out[mp] = ("arch", x.data, lineage + (x.kind,))
            line = lineage + (x.kind,)
            if x.kind.startswith("txt."):
                out[mp + "/" + n.rsplit(".", 1)[0]] = ("file", x.kids["text"].data, line)
            elif x.kind.startswith("tar."):
                if level + 1 <= depth:
                    shown(x.kids, level + 2, depth, mp, out, opts, line)
                else:
                    out[mp + "/" + n.rsplit(".", 1)[0]] = ("file", tar_of(x), line)
            else:
                shown(x.kids, level + 1, depth, mp, out, opts, line)
        else:
            out[p] = ("file", x.data, lineage)
    return out


def tar_of(x):
    t = {}
    flatten(x.kids, "", t)
    return A.tar_bytes(A.order(t))


def children(model, p):
    pre = p.rstrip("/") + "/"
    return sorted({q[len(pre):].split("/")[0] for q in model if q.startswith(pre)})


def setup(sim, s, faults=False):
    strip = s.draw(4) == 3 and not faults
    used = set() if strip else None
    depth = s.pick([None, None, 1, 2, 3, 0])
    # Compressed TARs for which there is no seekable backend are opened by libarchive without counting the compression.
    kinds = KINDS if depth is None else [k for k in KINDS if k[-3:] not in (".xz", "zst")]
    if faults:  # rapidgzip ends the process when reading fails
        kinds, depth = ["tar", "zip", "tar.xz"], None
    kids = grow(sim.data, 1 + s.draw(3), used, kinds)
    if not kids:
        kids = {"only": F(b"only", "only")}
    root = s.pick(["folder", "folder", "tar", "zip", "tar.gz" if not faults else "tar"])
    arch = sim.mkdir("arch")
    path = os.path.join(arch, "root" + ("" if root == "folder" else "." + root))
    if root == "folder":
        t = {}
        flatten(kids, "", t)
        A.lay_out(A.order(t), path)
    else:
        with open(path, "wb") as f:
            f.write(pack(root, kids, s))
    os.utime(path, (A.BASE_TIME, A.BASE_TIME))
    opts = {"recursive": True, "lazyMounting": s.draw(2) == 1, "parallelization": 1}
    if depth is not None:
        opts["recursionDepth"] = depth
    if strip:
        opts["stripRecursiveTarExtension"] = True
        opts["lazyMounting"] = False
    idx = s.draw(3)
    if idx == 2:
        opts["indexFolders"] = [sim.mkdir("idx")]
    else:
        opts["indexFilePath"] = ":memory:"
    d = 99 if depth is None else depth
    if root == "tar.gz":
        model = shown(kids, 2, d, "", {}, opts) if d >= 1 else {"/root.tar": ("file", tar_of(Arch("tar.gz", kids, b"", "")), ())}
    else:
        model = shown(kids, 1, d, "", {}, opts)
    what = f"{root} depth {depth} {'lazy' if opts['lazyMounting'] else 'eager'}{' strip' if strip else ''} index {['memory', 'memory', 'folder'][idx]}"
    return path, root, opts, model, what, depth


def open_sut(path, opts, depth):
    ms = open_mount_source(path, **opts)
    return AutoMountLayer(ms, **opts) if depth != 0 else ms


def request(sim, s, ms, model, p, q, what, lazy):
    """One request and its expected answer."""
    want = model.get(p)
    is_dir = p == "/" or want is not None and want[0] != "file"
    if q == "lookup":
        fi = ms.lookup(p)
        sim.check((fi is not None) == (want is not None or p == "/"), "wrong-lookup", lambda: f"{what}: {fi}, expected {want and want[0]}")
        if fi is None:
            return "absent"
        sim.equal("dir" if stat.S_ISDIR(fi.mode) else "file", "dir" if is_dir else "file", "wrong-kind", what)
        if not is_dir:
            sim.equal(fi.size, len(want[1]), "wrong-size", what)
        return "dir" if is_dir else "file"
    if q in ("list", "list_mode"):
        got = ms.list(p) if q == "list" else ms.list_mode(p)
        if not is_dir:
            sim.check(not got, "wrong-listing", lambda: f"{what}: {sorted(got)} for what is no folder")
            return "none"
        names = children(model, p)
        sim.equal(sorted(got or ()), names, "wrong-listing", what)
        if isinstance(got, dict):
            for n, x in got.items():
                k = model[p.rstrip("/") + "/" + n][0]
                listed = stat.S_ISDIR(x if isinstance(x, int) else x.mode)
                if k == "arch" and lazy:
                    continue
                sim.equal(listed, k != "file", "listing-kind-differs", f"{what}: {n}, which is {k}")
        return f"{min(len(names), 3)}"
    if q == "exists":
        sim.equal(bool(ms.exists(p)), want is not None or p == "/", "wrong-exists", what)
        return "exists"
    if is_dir or want is None:
        return "-"
    fi = ms.lookup(p)
    sim.check(fi is not None and not stat.S_ISDIR(fi.mode), "wrong-kind", lambda: f"{what}: {fi}")
    if q == "read":
        data = want[1]
        off = s.draw(len(data) + 2)
        n = s.draw(2000)
        sim.equal(h(ms.read(fi, n, off)), h(data[off:off + n]), "wrong-contents", f"{what} {n}@{off}")
        return "data"
    with ms.open(fi, buffering=[-1, 0][s.draw(2)]) as f:
        sim.equal(h(f.read()), h(want[1]), "wrong-contents", what)
    return "data"


def walk(sim, ms, model, what, lazy, s):
    for p in ["/", *sorted(model)] if s.draw(2) else ["/", *sorted(model, reverse=True)]:
        for q in ("list", "lookup", "open"):
            request(sim, s, ms, model, p, q, f"{q} {p} in final walk of {what}", lazy)


def some_path(s, model):
    if s.draw(6) == 0:
        base = s.pick(["/", *sorted(model)])
        return base.rstrip("/") + "/" + s.pick(["nothing", "a.tar", "same.zip", "d", "f1/below", "a.tar.gz/x"])
    return s.pick(["/", *sorted(model)])


def orders(sim):
    s = sim.ops
    path, root, opts, model, what, depth = setup(sim, s)
    sim.trace(what, len(model), sorted(model)[:40])
    for round_ in range(1 + s.draw(2)):
        try:
            ms = open_sut(path, opts, depth)
        except Exception as e:
            sim.fail("mount-fails", f"{what}: {type(e).__name__}: {e} at {where(e)}")
        lazy = opts["lazyMounting"]
        sim.keep = ms
        for _ in range(10 + s.draw(40)):
            p = some_path(s, model)
            q = s.weighted([(3, "lookup"), (2, "list"), (2, "list_mode"), (1, "exists"), (2, "read"), (2, "open")])
            ctx = f"{q} {p} in {what}, mount {round_}"
            try:
                a = request(sim, s, ms, model, p, q, ctx, lazy)
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                sim.fail("query-fails", f"{ctx}: {type(e).__name__}: {e} at {where(e)}")
            sim.trace(q, p, a)
            sim.state(root, depth, lazy, model[p][2] if p in model else "", q, a)
        walk(sim, ms, model, what, lazy, s)
        ms.__exit__(None, None, None)


def mounts(sim):
    """Through the file-system layer."""
    s = sim.ops
    path, root, opts, model, what, depth = setup(sim, s)
    w = O.World(sim, s, overlay=False)
    w.sources = [path]
    if "indexFolders" in opts:
        w.options.pop("indexFilePath", None)
    w.options.update(opts)
    if depth == 0:
        w.options.pop("recursive")
    sim.trace(what, sorted(model)[:40])
    for _ in range(1 + s.draw(2)):
        k = w.mount()
        order = ["/", *sorted(model)]
        for _ in range(5 + s.draw(30)):
            p = s.pick(order)
            a = fuse_request(sim, k, model, p, f"{p} in {what} (FUSE)")
            sim.state("fuse", root, depth, opts["lazyMounting"], model[p][2] if p in model else "", a)
        for p in order:
            fuse_request(sim, k, model, p, f"{p} in {what} (FUSE, final)")
        w.unmount()


def fuse_request(sim, k, model, p, what):
    want = model.get(p)
    is_dir = p == "/" or want[0] != "file"
    try:
        st = k.lstat(p)
        sim.equal(bool(stat.S_ISDIR(st["st_mode"])), is_dir, "wrong-kind", what)
        if is_dir:
            sim.equal(sorted(k.listdir(p)), children(model, p), "wrong-listing", what)
            return "dir"
        sim.equal(st["st_size"], len(want[1]), "wrong-size", what)
        sim.equal(h(k.read_all(p)), h(want[1]), "wrong-contents", what)
        return "file"
    except KErr as e:
        sim.fail("query-fails", f"{what}: {e} {e.cause!r}")


def faults(sim):
    """Reads of the archive files fail for a while."""
    s = sim.ops
    path, root, opts, model, what, depth = setup(sim, s, faults=True)
    lazy = opts["lazyMounting"]
    sim.trace(what, sorted(model)[:40])
    shim = sim.shim
    shim.reset([sim.path("arch")])
    shim.arm()
    f = sim.fault

    def plan():
        shim.clear_plan()
        for _ in range(1 + f.draw(3)):
            shim.plan(READ, 0, shim.count(READ, 0) + f.draw(f.pick([10, 60, 300])), ERR, ERRNOS[f.pick(["EIO", "EIO", "EMFILE"])], n=f.pick([1, 1, 2, 5, 40]),
                      kinds=f.pick([("read", "pread"), ("read", "pread"), ("openrd",), ()]))

    ms = None
    for attempt in range(1 + f.draw(2)):
        plan()
        try:
            ms = open_sut(path, opts, depth)
            break
        except Exception as e:
            sim.check(shim.total_hits() > 0, "mount-fails", lambda: f"{what}: {type(e).__name__}: {e} at {where(e)}")
            sim.trace("mount failed", type(e).__name__)
            sim.injected("read-error", shim.total_hits())
    if ms is None:
        shim.clear_plan()
        ms = open_sut(path, opts, depth)
    sim.injected("read-error", shim.total_hits())
    sim.keep = ms
    if lazy:
        for _ in range(5 + s.draw(30)):
            if f.draw(3) == 0:
                sim.injected("read-error", shim.total_hits())
                plan()
            p = some_path(s, model)
            want = model.get(p)
            try:
                fi = ms.lookup(p)
                if fi is not None and not stat.S_ISDIR(fi.mode):
                    with ms.open(fi) as fo:
                        data = fo.read()
                    sim.check(want is not None and want[1] is not None, "found-nothing", lambda: f"{p} in {what} after read errors is a file")
                    sim.equal(h(data), h(want[1]), "wrong-contents", f"{p} in {what} with read errors")
                sim.trace("tried", p, fi is not None)
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                sim.trace("tried", p, type(e).__name__)
        sim.injected("read-error", shim.total_hits())
        shim.clear_plan()
        walk(sim, ms, model, what + " after read errors", lazy, s)
        sim.state("faults", root, lazy)
    else:
        sim.injected("read-error", shim.total_hits())
        shim.clear_plan()
        lost = [p for p in sorted(model) if model[p][0] == "arch" and not stat.S_ISDIR(getattr(ms.lookup(p), "mode", 0))]
        reduced = {p: ("file", model[p][1], model[p][2]) if p in lost else model[p] for p in model if not any(p.startswith(q + "/") for q in lost)}
        sim.trace("shown as files", lost)
        if lost:
            sim.probe("archive-shown-as-file")
        walk(sim, ms, reduced, what + " mounted with read errors", lazy, s)
        sim.state("faults", root, lazy, len(lost))
    shim.disarm()
    ms.__exit__(None, None, None)


CONFIGS = {"faults": faults, "orders": orders, "mounts": mounts}
RUNS = {"quick": {"faults": 200, "orders": 350, "mounts": 100}, "thorough": {"faults": 20000, "orders": 40000, "mounts": 10000}}
