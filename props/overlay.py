"""Shared by P07, P08, P09, P16: a FuseMount with a write overlay and the plain directory it has to behave like."""
import errno
import os
import shutil
import stat

from dst import archives as A
from dst.kernel import KErr, Kernel, Real
from dst.view import h

from . import common as C


class World:
    """Archives, overlay folder, mounts of them and the reference directory."""

    def __init__(self, sim, s, overlay=True):
        self.sim = sim
        self.arch, self.ov, self.mp = sim.mkdir("arch"), sim.path("overlay"), sim.mkdir("mp")
        if overlay:
            os.makedirs(self.ov)
        self.overlay = overlay
        self.sources = []
        self.fm = None
        self.linked = set()
        self.fuse3 = s.draw(4) == 3
        self.options = {"parallelization": 1, "indexFilePath": ":memory:"}

    def add_archive(self, fmt, t, name=None):
        path = os.path.join(self.arch, (name or f"s{len(self.sources)}") + C.suffix(fmt))
        C.write_archive(fmt, path, t, self.sim.data)
        self.sources.append(path)
        return path

    def mount(self):
        from ratarmount.FuseMount import FuseMount
        o = dict(self.options)
        if self.overlay:
            o["writeOverlay"] = self.ov
        self.fm = FuseMount(list(self.sources), self.mp, **o)
        self.fm.init("/")
        self.k = Kernel(self.fm, fuse3=self.fuse3)
        return self.k

    def unmount(self):
        if self.fm is None:
            return
        for n in list(self.k.handles):
            try:
                self.k.close(n)
            except KErr:
                pass
        fm, self.fm = self.fm, None
        if fm.writeOverlay:
            fm.writeOverlay.sqlConnection.close()
        fm._close()
        for name in list(vars(fm)):  # bound methods of the overlay would keep it alive
            if name in ("chmod", "chown", "utimens", "rename", "symlink", "link", "unlink", "mkdir", "rmdir", "mknod"):
                delattr(fm, name)

    def make_reference(self):
        """A plain directory with what the mount shows."""
        d = dump(self.k)
        root = self.sim.mkdir("ref")
        self.ref = Real(root)
        os.umask(0)
        for p in sorted(d):
            row = d[p]
            q = root + p
            if row["kind"] == "dir":
                if p != "/":
                    os.mkdir(q)
            elif row["kind"] == "link":
                os.symlink(row["link"], q)
            elif row["kind"] == "file":
                with open(q, "wb") as f:
                    f.write(self.k.read_all(p))
            else:
                raise AssertionError((p, row, [(x,y.kind,getattr(y,'target',None)) for x,y in getattr(self,'t',{}).items()]))
        for p in sorted(d, reverse=True):
            row, q = d[p], root + p
            if p == "/":
                continue
            os.lchown(q, row["uid"], row["gid"])
            if row["kind"] != "link":
                os.chmod(q, row["perm"])
            os.utime(q, ns=(row["mtime_ns"],) * 2, follow_symlinks=False)
        os.umask(0o022)
        return d


NOW = 1_650_000_000 * 10 ** 9


def dump(k, contents=True, root_meta=False):
    out = {}
    todo = ["/"]
    while todo:
        p = todo.pop()
        a = k.lstat(p)
        mode = a["st_mode"]
        kind = {stat.S_IFDIR: "dir", stat.S_IFREG: "file", stat.S_IFLNK: "link", stat.S_IFIFO: "fifo"}.get(stat.S_IFMT(mode), oct(mode))
        row = {"kind": kind}
        if p != "/" or root_meta:
            row.update(perm=stat.S_IMODE(mode), uid=a["st_uid"], gid=a["st_gid"], mtime_ns=a["st_mtime"])
        if kind == "dir":
            names = k.listdir(p)
            for n, m in names.items():
                if n.startswith(".fuse_hidden"):
                    continue
                q = p.rstrip("/") + "/" + n
                try:
                    b = k.lstat(q)
                except KErr as e:
                    out[q] = {"kind": f"listed, but lookup says {e}"}
                    continue
                if m is not None and stat.S_IFMT(m) and stat.S_IFMT(m) != stat.S_IFMT(b["st_mode"]):
                    out[q + "#listing"] = {"kind": f"listed as {oct(m)}, lookup says {oct(b['st_mode'])}"}
                todo.append(q)
        elif kind == "file":
            row["size"] = a["st_size"]
            if contents:
                try:
                    row["data"] = h(k.read_all(p))
                except KErr as e:
                    row["data"] = f"read fails: {e} {e.cause!r}"
        elif kind == "link":
            row["link"] = k.readlink(p)
        out[p] = row
    return out


def clean(row, ino_shared=False):
    r = dict(row)
    if "mtime_ns" in r:
        t = r.pop("mtime_ns")
        if r["kind"] == "file":
            r["mtime"] = "now" if t > NOW else round(t / 1e6) / 1e3
    if r["kind"] == "link":
        r.pop("perm", None)
    if ino_shared:
        for x in ("perm", "uid", "gid", "mtime"):
            r.pop(x, None)
    return r


def compare(sim, world, kind, what):
    got, want = dump(world.k), dump(world.ref)
    # modes, owners and times of hard links are kept by path
    for p in want:
        a = world.ref.lstat(p)
        if want[p]["kind"] == "file" and a["st_nlink"] > 1:
            world.linked.add(a["st_ino"])
    shared = {p for p in want if want[p]["kind"] == "file" and world.ref.lstat(p)["st_ino"] in world.linked}
    lines = []
    for p in sorted(set(got) | set(want)):
        g = clean(got[p], p in shared) if p in got else None
        w = clean(want[p], p in shared) if p in want else None
        if g != w:
            lines.append(f"{p}: shown {g}, expected {w}")
    sim.check(not lines, kind, lambda: f"{what}: {'; '.join(lines[:4])}" + (f" (+{len(lines) - 4} more)" if len(lines) > 4 else ""))
    return want


def make_tree(sim, s, rich=True):
    t = A.tree(s, max_files=10, max_size=3000, explicit_dirs=None)
    for p in [p for p, n in t.items() if n.kind == "link" and n.target.startswith("/")]:
        t[p].target = "nowhere"
    if s.draw(2):
        t.setdefault("dir", A.Node("dir", mode=0o750, mtime=A.BASE_TIME + 5))
        if t["dir"].kind == "dir":
            t["dir/one"] = A.Node("file", data=A.content(s, s.draw(5000)), mode=0o640)
            t["dir/two"] = A.Node("file", data=A.content(s, s.draw(100)), mode=0o755)
            t["dir/sub/three"] = A.Node("file", data=b"3", mode=0o600)
    if s.draw(6) == 5:
        t["large"] = A.Node("file", data=A.content(s, 100_000 + s.draw(300_000)))
    return t


NEW = ["n1", "n2", "new dir", "x", "ü2", "a", "foo"]


class Ops:
    """Draws operations; every operation is a function of a file system (Kernel or Real)."""

    def __init__(self, sim, s, world):
        self.sim, self.s, self.w = sim, s, world
        self.last = None
        self.pairs = {}   # our handle -> (kernel handle, reference handle)
        self.next = 0

    def paths(self):
        out = []
        for base, ds, fs in os.walk(self.w.ref.root):
            rel = base[len(self.w.ref.root):]
            ds.sort()
            out += [rel + "/" + x for x in ds + sorted(fs)]
        return sorted(out)

    def kind(self, p):
        try:
            m = os.lstat(self.w.ref.root + p).st_mode
        except OSError:
            return None
        return "d" if stat.S_ISDIR(m) else "f" if stat.S_ISREG(m) else "l" if stat.S_ISLNK(m) else "o"

    def some(self, kinds="fdl"):
        c = [p for p in self.paths() if self.kind(p) in kinds]
        return self.s.pick(c) if c else None

    def fresh(self):
        """A path that often does not exist, below an existing directory (mostly)."""
        d = [p for p in self.paths() if self.kind(p) == "d"] + [""]
        p = self.s.pick(d[::-1]) + "/" + self.s.pick(NEW)
        if self.s.draw(25) == 24 and self.kind(p) != "l":
            p += "/below"
        return p

    def any(self):
        k = self.s.draw(6)
        return (self.some("f") if k < 3 else self.some() if k < 5 else None) or self.fresh()

    def draw(self):
        """(description, fn(fs) -> comparable result); None when it would follow a symbolic link or is unspecified."""
        op = self._draw()
        if op and op[0].split(" ")[0] in ("write", "truncate", "chmod", "create") and self.last and self.kind(self.last) in ("l", "o"):
            return None
        return op

    def _draw(self):
        s = self.s
        k = s.weighted([(6, "write"), (3, "create"), (3, "unlink"), (4, "rename"), (2, "mkdir"), (2, "rmdir"), (3, "truncate"),
                        (2, "chmod"), (1, "chown"), (2, "utimens"), (2, "symlink"), (2, "link"), (1, "fifo"), (3, "open"),
                        (6, "handle"), (2, "stat"), (2, "replace")])
        if k == "write":
            p = self.some("f") or self.fresh()
            fl, name = s.pick([(os.O_WRONLY, "r+"), (os.O_RDWR, "rw"), (os.O_WRONLY | os.O_APPEND, "a"),
                               (os.O_WRONLY | os.O_TRUNC, "w"), (os.O_RDWR | os.O_TRUNC, "w+")])
            if fl & os.O_TRUNC and self.size(p) == 0:  # (whether that changes the modification time is not specified)
                fl, name = fl & ~os.O_TRUNC, "r+"
            off, data = s.small(6000), A.content(s, s.small(3000))

            self.last = p

            def fn(fs):
                n = fs.open(p, fl)
                try:
                    return fs.pwrite(n, data, off)
                finally:
                    fs.close(n)
            return f"write {p} {name} {len(data)}@{off}", fn
        if k == "create":
            p = self.fresh() if s.draw(3) else self.any()
            mode = [0o644, 0o600, 0o755, 0o666, 0o777][s.draw(5)]
            fl = os.O_CREAT | os.O_WRONLY | [0, os.O_EXCL, os.O_TRUNC][s.draw(3)]
            data = A.content(s, s.draw(2000))
            if self.size(p) == 0:
                fl &= ~os.O_TRUNC

            def fn(fs):
                n = fs.open(p, fl, mode)
                try:
                    return fs.pwrite(n, data, 0) if data else 0
                finally:
                    fs.close(n)
            self.last = p
            return f"create {p} {oct(mode)} {len(data)}", fn
        if k == "unlink":
            p = self.any()
            return f"unlink {p}", lambda fs: fs.unlink(p)
        if k == "rename":
            a = self.any()
            b = self.any() if s.draw(2) else self.fresh()
            if self.kind(a) == "d" or self.kind(b) == "d":
                self.close_all()
            return f"rename {a} -> {b}", lambda fs: fs.rename(a, b)
        if k == "replace":  # what editors do
            p = self.some("f")
            if p is None:
                return None
            tmp, data = p + "~", A.content(s, s.draw(3000))

            def fn(fs):
                n = fs.open(tmp, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
                try:
                    fs.pwrite(n, data, 0) if data else 0
                finally:
                    fs.close(n)
                fs.rename(tmp, p)
            return f"replace {p} {len(data)}", fn
        if k == "mkdir":
            p, mode = self.fresh(), [0o755, 0o700, 0o777][s.draw(3)]
            return f"mkdir {p} {oct(mode)}", lambda fs: fs.mkdir(p, mode)
        if k == "rmdir":
            p = (self.some("d") if s.draw(4) else self.any()) or self.fresh()
            self.close_all()
            if s.draw(2) and self.kind(p) == "d":  # with everything inside
                inside = [q for q in self.paths() if q.startswith(p + "/")][::-1]
                kinds = {q: self.kind(q) for q in inside}

                def fn(fs):
                    for q in inside:
                        fs.rmdir(q) if kinds[q] == "d" else fs.unlink(q)
                    fs.rmdir(p)
                return f"rm -r {p}", fn
            return f"rmdir {p}", lambda fs: fs.rmdir(p)
        if k == "truncate":
            p, n = self.some("f") or self.fresh(), s.small(9000)
            n += n == self.size(p)
            self.last = p
            return f"truncate {p} {n}", lambda fs: fs.truncate(p, n)
        if k == "chmod":
            p, mode = self.some("fd") or self.fresh(), [0o644, 0o755, 0o600, 0o400, 0o777, 0o000][s.draw(6)]
            self.last = p
            return f"chmod {p} {oct(mode)}", lambda fs: fs.chmod(p, mode)
        if k == "chown":
            p, u, g = self.any(), [0, 1, 1234][s.draw(3)], [-1, 0, 99][s.draw(3)]
            return f"chown {p} {u} {g}", lambda fs: fs.chown(p, u, g)
        if k == "utimens":
            p, t = self.any(), (A.BASE_TIME - s.draw(10 ** 8)) * 10 ** 9 + s.draw(10 ** 3) * 10 ** 6
            return f"utimens {p} {t}", lambda fs: fs.utimens(p, (t, t))
        if k == "symlink":
            p, t = self.fresh(), ["n1", "../x", "dir", "a/b/c"][s.draw(4)]
            return f"symlink {p} -> {t}", lambda fs: fs.symlink(t, p)
        if k == "link":
            a, b = self.some("f") or self.fresh(), self.fresh()
            return f"link {a} {b}", lambda fs: fs.link(a, b)
        if k == "fifo":
            p = self.fresh()
            return f"mkfifo {p}", lambda fs: fs.mkfifo(p, 0o644)
        if k == "open":
            p = self.some("f")
            if p is None or len(self.pairs) > 5:
                return None
            fl, name = s.pick([(os.O_RDONLY, "r"), (os.O_RDWR, "rw"), (os.O_RDWR | os.O_TRUNC, "w+"),
                               (os.O_RDWR | os.O_APPEND, "a+"), (os.O_WRONLY, "w")])
            if self.size(p) == 0:
                fl &= ~os.O_TRUNC
            return f"open {p} {name}", ("open", p, fl)
        if k == "handle":
            if not self.pairs:
                return None
            h_ = s.pick(sorted(self.pairs))
            kh, rh = self.pairs[h_]
            fl = self.w.ref.handles[rh][2]
            what = s.draw(8)
            if what == 0:
                return f"close #{h_}", ("close", h_)
            num = lambda fs: kh if isinstance(fs, Kernel) else rh  # noqa: E731
            acc = fl & os.O_ACCMODE
            if what <= 3 and acc != os.O_RDONLY:
                off, data = s.small(9000), A.content(s, 1 + s.small(2000))
                return f"pwrite #{h_} {len(data)}@{off}", lambda fs: fs.pwrite(num(fs), data, off)
            if what == 4 and acc != os.O_RDONLY:
                n = s.small(9000)
                n += n == self.w.ref.fstat(rh)["st_size"]
                return f"ftruncate #{h_} {n}", lambda fs: fs.ftruncate(num(fs), n)
            if what == 5:
                return f"fstat #{h_}", lambda fs: fs.fstat(num(fs))["st_size"]
            if acc == os.O_WRONLY:
                return f"fsync #{h_}", lambda fs: fs.fsync(num(fs))
            off, n = s.small(5000), 1 + s.small(9000)
            return f"pread #{h_} {n}@{off}", lambda fs: fs.pread(num(fs), n, off)
        p = self.any()

        def fn(fs):
            a = fs.lstat(p)
            return stat.S_IFMT(a["st_mode"])
        return f"stat {p}", fn

    def size(self, p):
        try:
            return os.lstat(self.w.ref.root + p).st_size
        except OSError:
            return None

    def close_all(self):
        for n in sorted(self.pairs):
            self.close(n)

    def close(self, n):
        kh, rh = self.pairs.pop(n)
        self.w.k.close(kh)
        self.w.ref.close(rh)

    def run(self, fs, fn):
        try:
            return "ok", fn(fs)
        except KErr as e:
            return errno.errorcode.get(e.no, e.no), None
