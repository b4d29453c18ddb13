"""P10: union mounts against a reference model of union semantics."""
import os
import stat

from dst import archives as A
from dst.kernel import KErr
from dst.sim import where

from . import common as C
from . import overlay as O
from ratarmountcore.mountsource.compositing.union import UnionMountSource
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P10"
LEVEL = "exploration"
RULE = "distinct (source kinds, nesting, cache limits, way the cache was built, kind of query, answer) tuples"
REAL = ["UnionMountSource with its cache", "archive and folder mount sources", "FuseMount's set-up of several sources"]
STUB = ["wall clock (jumps at any reading)"]
ASSUMPTIONS = ["every source alone answers consistently (P05, P12)", "paths below something that is shown as a file, also in a union inside the union, are not asked for",
               "folders change only between two requests"]

NAMES = ["a", "b", "c", "dir", "x.y"]


def conflict_tree(s, n):
    t = {}
    for _ in range(1 + s.draw(n)):
        depth = 1 + s.draw(4)
        p = "/".join(s.pick(NAMES) for _ in range(depth))
        if any(p.startswith(q + "/") and t[q].kind != "dir" for q in t) or any(q.startswith(p + "/") for q in t) or p in t:
            continue
        k = s.draw(8)
        if k == 0:
            t[p] = A.Node("dir", mtime=A.BASE_TIME + s.draw(999))
        elif k == 1:
            t[p] = A.Node("link", target=s.pick(["a", "../b", "dir/a", "nowhere"]), mtime=A.BASE_TIME + s.draw(999))
        else:
            t[p] = A.Node("file", data=A.content(s, s.draw(60)), mtime=A.BASE_TIME + s.draw(999), mode=[0o644, 0o600, 0o755][s.draw(3)])
    if not any(n.kind == "file" for n in t.values()):
        t["only" + str(s.draw(5))] = A.Node("file", data=b"only", mtime=A.BASE_TIME)
    return t


def write_source(sim, s, kind, path):
    t = conflict_tree(s, 12)
    if kind == "folder":
        A.lay_out(A.order(t), path)
        return t
    items = A.order(t)
    if kind in ("tar", "tar.gz"):
        for _ in range(s.draw(4)):  # further versions
            p = s.pick(sorted(t))
            if t[p].kind != "dir":
                items.append((p, A.Node("file", data=A.content(s, s.draw(60)), mtime=A.BASE_TIME + s.draw(9999))))
        if kind == "tar" and s.draw(2):
            for n in t.values():
                if n.kind == "file":
                    n.xattrs = {"user.a": str(s.draw(99))}
        b = A.tar_bytes(items, 1 if kind != "tar" else 2)
        if kind == "tar.gz":
            b = A.compress(b, "gz")
    else:
        b = A.zip_bytes(items)
    with open(path, "wb") as f:
        f.write(b)
    return t


class Model:
    """Union of models or plain sources (a second, independent mount of the same source)."""

    def __init__(self, parts):
        self.parts = parts

    def lookup(self, p, version=0):
        """What the union shows: (part of the leaf source, its FileInfo) or None."""
        if not p.strip("/"):
            return None
        if version == 0:
            for m in reversed(self.parts):
                r = look(m, p)
                if r is not None:
                    return r
            return None
        n = self.versions(p)
        if version < 0:
            version += n
        if not 1 <= version <= n:
            return None
        for m in self.parts:
            k = m.versions(p)
            if version <= k:
                return look(m, p, version)
            version -= k
        return None

    def versions(self, p):
        return sum(m.versions(p) for m in self.parts)

    def names(self, p):
        """None when p is not a folder."""
        out, found = set(), False
        for m in reversed(self.parts):
            if p.strip("/"):
                r = look(m, p)
                if r is None:
                    continue
                if not stat.S_ISDIR(r[1].mode):
                    if not found:
                        return None
                    continue
                found = True
            sub = m.names(p) if isinstance(m, Model) else m.list(p)
            if sub is not None:
                found = True
                out.update(sub)
        return out if found else None

    def reachable(self, p):
        """Whether neither this nor a union inside of it shows something else than a folder above the path."""
        q = os.path.dirname(p.rstrip("/"))
        while q.strip("/"):
            r = self.lookup(q)
            if r is not None and not stat.S_ISDIR(r[1].mode):
                return False
            q = os.path.dirname(q)
        return all(not passes_link(m, p) if not isinstance(m, Model) else m.reachable(p) for m in self.parts)

    def leaves(self):
        for m in self.parts:
            yield from m.leaves() if isinstance(m, Model) else [m]


def passes_link(m, p):
    """Mounted folders follow links in the middle of paths, which the kernel never asks for."""
    root, d = getattr(m, "root", None), os.path.dirname(p.strip("/"))
    return bool(root and d and os.path.realpath(os.path.join(root, d)) != os.path.join(os.path.realpath(root), d))


def look(m, p, version=0):
    if isinstance(m, Model):
        return m.lookup(p, version)
    fi = m.lookup(p, version)
    return None if fi is None else (m, fi)


def attributes(fi):
    k = stat.S_IFMT(fi.mode)
    return (oct(fi.mode), fi.size if k == stat.S_IFREG else 0, round(fi.mtime, 3), fi.linkname, fi.uid, fi.gid)


def jumping(sim, s):
    """Lets the clock jump at any reading."""
    mode = s.draw(4)
    clock = sim.clock
    if mode == 0:
        return "steady"
    real = clock.now_wall
    at = {s.draw(60): s.pick([100.0, 1000.0, -1000.0, 61.0]) for _ in range(1 + s.draw(3))} if mode == 1 else {}
    rate = s.pick([0.1, 1.0, 10.0, 30.0])
    state = [0]

    def now():
        state[0] += 1
        if mode == 1:
            if state[0] in at:
                clock.advance(at[state[0]]) if at[state[0]] > 0 else clock.jump_wall(at[state[0]])
                sim.injected("clock-jump")
        else:
            clock.advance(rate)
            sim.injected("slow-clock")
        return real()
    clock.now_wall = now
    return f"{mode}:{at or rate}"


def scenario(sim, through_fuse):
    s = sim.ops
    arch = sim.mkdir("arch")
    sources, folders = [], []
    n = 2 + s.draw(4)
    for i in range(n):
        kind = s.pick(["tar", "tar", "zip", "folder", "tar.gz"])
        path = os.path.join(arch, f"s{i}" + ("" if kind == "folder" else "." + kind))
        write_source(sim, sim.data, kind, path)
        if kind == "folder":
            folders.append(path)
        sources.append((kind, path))
    clock = jumping(sim, sim.fault)
    limits = {}
    if s.draw(3) == 2:
        limits["maxCacheDepth"] = s.pick([0, 1, 2, 3, 1024])
    if s.draw(3) == 2:
        limits["maxCacheEntries"] = s.pick([0, 1, 2, 4, 8, 100000])
    if s.draw(3) == 2:
        limits["maxSecondsToCache"] = s.pick([0, 0.00001, 1, 60])
    opts = {"indexFilePath": ":memory:", "parallelization": 1}
    shown = [k for k, _ in sources]
    context = f"{shown} {limits} clock {clock}"
    sim.trace(context)
    ref = [open_mount_source(p, **opts) for _, p in sources]
    if through_fuse:
        return mounts(sim, s, sources, Model(ref), limits, context)
    sut = [open_mount_source(p, **opts) for _, p in sources]
    nested = s.draw(3) == 2 and n > 2
    if nested:
        a = s.draw(n - 1)
        b = a + 2 + s.draw(n - a - 1)
        inner = dict(limits)
        sut[a:b] = [UnionMountSource(sut[a:b], **inner)]
        ref[a:b] = [Model(ref[a:b])]
        context += f" nested {a}:{b}"
    u = UnionMountSource(sut, **limits)
    m = Model(ref)
    sim.probe(f"cache-depth-{min(u.folderCacheDepth, 4)}")

    def known_paths():
        out = ["/"]
        todo = ["/"]
        while todo:
            d = todo.pop()
            for name in sorted(m.names(d) or ()):
                p = d.rstrip("/") + "/" + name
                out.append(p)
                r = m.lookup(p)
                if r and stat.S_ISDIR(r[1].mode):
                    todo.append(p)
        return out

    paths = known_paths()
    kept = []
    for _ in range(20 + s.draw(60)):
        if folders and s.draw(8) == 7:
            mutate(sim, s, folders)
            paths = known_paths()
        p = s.pick(paths) if s.draw(5) else "/" + "/".join(s.pick(NAMES) for _ in range(1 + s.draw(4)))
        if not m.reachable(p):
            continue
        q = s.weighted([(4, "lookup"), (3, "list"), (2, "list_mode"), (2, "versions"), (3, "version"), (4, "open"), (1, "exists"),
                        (1, "xattr"), (1, "held"), (1, "source")])
        if q in ("list", "list_mode", "exists") and s.draw(8) == 7 and m.names(p) is not None:
            p = p.rstrip("/") + "/"
        what = f"{q} {p} in {context}"
        try:
            answer = query(sim, s, u, m, q, p, kept, what)
        except Exception as e:
            if isinstance(e, type(sim).__mro__[0]) or type(e).__name__ == "Violation":
                raise
            sim.fail("query-fails", f"{what}: {type(e).__name__}: {e} at {where(e)}")
        sim.trace(q, p, answer)
        sim.state(tuple(shown), nested, tuple(sorted(limits.items())), u.folderCacheDepth, q, str(answer)[:20])
    u.__exit__(None, None, None)
    for leaf in m.leaves():
        leaf.__exit__(None, None, None)


def mutate(sim, s, folders):
    d = s.pick(folders)
    p = os.path.join(d, s.pick(NAMES))
    if s.draw(2) and os.path.isdir(p) and not os.path.islink(p):
        p = os.path.join(p, s.pick(NAMES))
    k = s.draw(4)
    sim.trace("mutate", p, k)
    if os.path.lexists(p):
        if os.path.isdir(p) and not os.path.islink(p):
            if os.listdir(p):
                return
            os.rmdir(p)
        else:
            os.unlink(p)
    if k == 0:
        os.mkdir(p)
    elif k == 1:
        os.symlink("a", p)
    elif k == 2:
        with open(p, "wb") as f:
            f.write(A.content(s, s.draw(80)))
    if os.path.lexists(p):
        os.utime(p, (A.BASE_TIME + 5, A.BASE_TIME + 5), follow_symlinks=False)
    sim.probe("folder-changed")


def query(sim, s, u, m, q, p, kept, what):
    clean = p.rstrip("/") or "/"
    r = m.lookup(clean)
    if q in ("lookup", "source"):
        fi = u.lookup(p)
        if clean == "/":
            sim.check(fi is not None and stat.S_ISDIR(fi.mode), "wrong-lookup", what)
            return "root"
        sim.equal(fi and attributes(fi), r and attributes(r[1]), "wrong-lookup", what)
        if q == "source" and fi is not None:
            mp, ms, _ = u.get_mount_source(fi)
            sim.equal((mp, type(ms).__name__), ("/", type(r[0].get_mount_source(r[1])[1]).__name__), "wrong-source", what)
        return "found" if r else "absent"
    if q == "exists":
        sim.equal(bool(u.exists(p)), clean == "/" or r is not None, "wrong-exists", what)
        return r is not None
    if q in ("list", "list_mode"):
        want = m.names(clean)
        got = u.list(p) if q == "list" else u.list_mode(p)
        if want is None:
            sim.check(not got, "wrong-listing", lambda: f"{what}: got {sorted(got)} for what is no folder")
            return "no folder"
        sim.equal(sorted(got or ()), sorted(want), "wrong-listing", what)
        if isinstance(got, dict):
            for name, x in got.items():
                if not m.reachable(clean.rstrip("/") + "/" + name):
                    continue
                lr = m.lookup(clean.rstrip("/") + "/" + name)
                mode = x if isinstance(x, int) else x.mode
                sim.check(lr is not None and stat.S_IFMT(lr[1].mode) == stat.S_IFMT(mode), "listing-kind-differs",
                          lambda: f"{what}: {name} listed as {oct(mode)}, but is {lr and oct(lr[1].mode)}")
                if not isinstance(x, int):
                    sim.equal(attributes(x), attributes(lr[1]), "listing-differs", f"{what}: {name}")
        return f"list of {min(len(want), 3)}"
    if q == "versions":
        if clean == "/":
            return "-"
        sim.equal(u.versions(p), m.versions(clean), "wrong-version-count", what)
        return m.versions(clean)
    if q == "version":
        if clean == "/":
            return "-"
        n = m.versions(clean)
        v = s.draw(2 * n + 4) - n - 1
        fi, r = u.lookup(p, v), m.lookup(clean, v)
        sim.equal(fi and attributes(fi), r and attributes(r[1]), "wrong-version", f"{what} version {v} of {n}")
        if fi and stat.S_ISREG(fi.mode):
            same_data(sim, u, fi, r, f"{what} version {v} of {n}")
        return f"{v} of {n}"
    if q == "held":
        if not kept:
            return "-"
        fi, r, w = s.pick(kept)
        if os.path.isdir(str(getattr(r[0], "root", ""))):
            return "-"  # of a folder that may have changed
        same_data(sim, u, fi, r, f"info kept from {w}")
        return "held"
    fi = u.lookup(p)
    sim.equal(fi and attributes(fi), r and clean != "/" and attributes(r[1]) or (fi and clean == "/" and attributes(fi)) or None, "wrong-lookup", what)
    if fi is None or clean == "/":
        return "-"
    if q == "xattr":
        sim.equal({k: u.get_xattr(fi, k) for k in u.list_xattr(fi)}, {k: r[0].get_xattr(r[1], k) for k in r[0].list_xattr(r[1])}, "wrong-xattrs", what)
        return "xattr"
    if stat.S_ISREG(fi.mode):
        same_data(sim, u, fi, r, what)
        kept.append((fi, r, what))
        return "data"
    return "no file"


def same_data(sim, u, fi, r, what):
    with r[0].open(r[1]) as f:
        want = f.read()
    with u.open(fi) as f:
        sim.equal(f.read(), want, "wrong-contents", what)
    sim.equal(u.read(fi, 20, 3), want[3:23], "wrong-contents", "read " + what)
    with u.open(fi, buffering=0) as f:
        sim.equal(f.read(), want, "wrong-contents", "second open, " + what)


def mounts(sim, s, sources, m, limits, context):
    """The same through the file-system layer."""
    w = O.World(sim, s, overlay=False)
    w.sources = [p for _, p in sources]
    w.options.update(limits)
    k = w.mount()
    seen = {}
    for _ in range(2 + s.draw(3)):
        todo = ["/"]
        count = 0
        while todo:
            d = todo.pop(s.draw(len(todo)))
            names = sorted(m.names(d) or ())
            got = k.listdir(d)
            sim.equal(sorted(got), names, "wrong-listing", f"{d} in {context}")
            for n in names:
                p = d.rstrip("/") + "/" + n
                r = m.lookup(p)
                try:
                    st = k.lstat(p)
                except KErr as e:
                    sim.fail("wrong-lookup", f"{p} in {context}: {e}")
                sim.equal((oct(st["st_mode"]), st["st_size"] if stat.S_ISREG(st["st_mode"]) else 0, round(st["st_mtime"] / 1e9, 2)),
                          (oct(r[1].mode), r[1].size if stat.S_ISREG(r[1].mode) else 0, round(r[1].mtime, 2)), "wrong-lookup", f"{p} in {context}")
                count += 1
                if stat.S_ISDIR(st["st_mode"]):
                    todo.append(p)
                elif stat.S_ISREG(st["st_mode"]):
                    with r[0].open(r[1]) as f:
                        sim.equal(k.read_all(p), f.read(), "wrong-contents", f"{p} in {context}")
                else:
                    sim.equal(k.readlink(p), r[1].linkname, "wrong-link", f"{p} in {context}")
        for _ in range(5):
            p = "/" + "/".join(s.pick(NAMES) for _ in range(1 + s.draw(3)))
            parts = p.split("/")[1:]
            ups = [m.lookup("/" + "/".join(parts[:i])) for i in range(1, len(parts))]
            if any(x is None or not stat.S_ISDIR(x[1].mode) for x in ups):
                continue
            if m.lookup(p) is None:
                try:
                    k.lstat(p)
                    sim.fail("wrong-lookup", f"{p} in {context} is found")
                except KErr as e:
                    sim.equal(e.name if hasattr(e, "name") else str(e).split(":")[0][:6], "ENOENT", "wrong-error", p)
        sim.trace("walk", count)
        folders = [p for kind, p in sources if kind == "folder"]
        if folders:
            mutate(sim, s, folders)
            seen.clear()
    sim.state("fuse", tuple(x for x, _ in sources), tuple(sorted(limits.items())))
    w.unmount()
    for leaf in m.leaves():
        leaf.__exit__(None, None, None)


CONFIGS = {"queries": lambda sim: scenario(sim, False), "mounts": lambda sim: scenario(sim, True)}
RUNS = {"quick": {"queries": 600, "mounts": 130}, "thorough": {"queries": 80000, "mounts": 12000}}
