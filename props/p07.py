"""P07: a mount with a write overlay behaves like a plain directory holding the extracted archive, across remounts."""
import errno
import os
import stat

from dst import archives as A
from dst.kernel import KErr, Kernel

from . import overlay as O

PROP = "P07"
LEVEL = "exploration"
RULE = "distinct (last three operations, their outcome) combinations"
REAL = ["FuseMount, WritableFolderMountSource, UnionMountSource, FileVersionLayer, FolderMountSource and archive back ends",
        "SQLite metadata database and overlay folder on a real file system"]
STUB = ["kernel VFS, FUSE client and libfuse high-level layer: an emulation in process (dst/kernel.py)"]
ASSUMPTIONS = ["one request at a time, as ratarmount mounts single-threaded", "runs as root, so permission checks do not apply"]


def setup(sim, s, w):
    n = 1 + (s.draw(3) == 2)
    base = O.make_tree(sim, sim.data)
    fmt = ["tar", "zip", "folder", "tar.gz"][s.draw(4)]
    w.add_archive(fmt, base)
    if n == 2:
        other = {p: x for p, x in O.make_tree(sim, sim.data).items()
                 if not conflict(p, x, base)}
        w.add_archive(["tar", "folder"][s.draw(2)], other or {"only2": A.Node("file", data=b"2")})
    if s.draw(4) == 3:
        w.options["enableFileVersions"] = False
    if s.draw(5) == 4:
        w.options["recursive"] = True
    return fmt


def conflict(p, x, base):
    dirs = A.parents(base)
    if p in base and base[p].kind != x.kind or p in dirs and x.kind != "dir":
        return True
    parts = p.split("/")
    return any("/".join(parts[:i]) in base and base["/".join(parts[:i])].kind != "dir" for i in range(1, len(parts)))


def step(sim, w, ops, op, trail, may_exdev):
    desc, fn = op
    if isinstance(fn, tuple):
        if fn[0] == "open":
            r1 = ops.run(w.k, lambda fs: fs.open(fn[1], fn[2]))
            r2 = ops.run(w.ref, lambda fs: fs.open(fn[1], fn[2]))
            sim.equal(r1[0], r2[0], "operation-outcome-differs", f"{desc} after {trail[-6:]}")
            if r1[0] == "ok":
                ops.next += 1
                ops.pairs[ops.next] = (r1[1], r2[1])
                desc += f" = #{ops.next}"
            return desc, r1[0]
        ops.close(fn[1])
        return desc, "ok"
    raw = len(w.k.raw)
    r1 = ops.run(w.k, fn)
    sim.check(len(w.k.raw) == raw, "operation-crashes", lambda: f"{desc} after {trail[-6:]}: {w.k.raw[raw:]}")
    if r1[0] == "EXDEV" and may_exdev(desc):
        sim.probe("exdev")
        return desc, "EXDEV"
    r2 = ops.run(w.ref, fn)
    sim.equal(r1, r2, "operation-outcome-differs", f"{desc} after {trail[-6:]}")
    return desc, r1[0]


def histories(sim):
    s = sim.ops
    w = O.World(sim, s)
    fmt = setup(sim, s, w)
    w.mount()
    w.make_reference()
    O.compare(sim, w, "initial-state", "before any operation")
    ops = O.Ops(sim, s, w)
    lower = set(ops.paths())
    trail = []

    def may_exdev(desc):
        what = desc.split(" ")[0]
        if what == "link":
            return True
        if what == "rename":
            return ops.kind(desc[7:].split(" -> ")[0]) == "d" and any(
                x == a or x.startswith(a + "/") for x in lower for a in desc[7:].split(" -> "))
        return False

    n = 6 + s.draw(30 if sim.tier == "quick" else 60)
    since = 0
    for _ in range(n):
        if s.draw(14) == 13:
            ops.close_all()
            w.unmount()
            w.mount()
            desc, r = "remount", "ok"
        else:
            op = ops.draw()
            if op is None:
                continue
            desc, r = step(sim, w, ops, op, trail, may_exdev)
            if desc.startswith("link") and r == "ok":
                O.compare(sim, w, "tree-differs", f"{fmt}, after {trail[-8:]} {desc}")
        trail.append(f"{desc} {r}")
        sim.trace(desc, r)
        sim.probe("op-" + desc.split(" ")[0] + ("" if r == "ok" else "-fails"))
        since += 1
        if s.draw(5) == 4 or since > 6:
            since = 0
            O.compare(sim, w, "tree-differs", f"{fmt}, after {trail[-8:]}")
        sim.state(tuple(" ".join(t.split(" ")[:1] + t.split(" ")[-1:]) for t in trail[-3:]))
    O.compare(sim, w, "tree-differs", f"{fmt}, after {trail[-8:]}")
    ops.close_all()
    O.compare(sim, w, "tree-differs", f"{fmt}, closed all after {trail[-8:]}")
    w.unmount()
    w.mount()
    O.compare(sim, w, "remounted-tree-differs", f"{fmt}, after {trail[-8:]}")
    sim.check(not w.fm.openedFiles, "handles-leak", lambda: f"{len(w.fm.openedFiles)}")
    w.unmount()


CONFIGS = {"histories": histories}
RUNS = {"quick": {"histories": 700}, "thorough": {"histories": 20000}}
