"""P16: the mounted file system answers every call like a file system."""
import errno
import gc
import io
import os
import stat
import tarfile

from dst import archives as A
from dst.fusebridge import Bridge
from dst.kernel import KErr, Kernel
from dst.sim import where
from dst.view import h

from . import p05, p15

PROP = "P16"
LEVEL = "exploration"
RULE = "distinct (kind of archive, call, class of argument, answer) tuples"
REAL = ["the FUSE binding mfusepy with its C callbacks and structures, FuseMount and everything below it"]
STUB = ["the kernel, libfuse and its main loop (the callbacks are called in-process)"]
ASSUMPTIONS = ["calls are made one after the other, as ratarmount runs libfuse single-threaded",
               "calls that libfuse answers itself are not sent; handles are only used between open and release"]
KINDS = [k for k in p05.KINDS if not k.startswith(("split", "corpus", "pdf", "html"))] + ["odd"] * 12 + ["oddtree"] * 10 + ["union"] * 4
READ_ONLY = (errno.EROFS, errno.ENOTSUP, errno.ENOSYS, errno.EPERM, errno.EACCES)

ODD_NAMES = ["new\nline", "tab\t", "q'uote", 'q"uote', "per%cent", "back\\slash", "semi;colon", "*", "?", "[x]", "~", "-rf", "a" * 255, "ü" * 100,
             "\udcff\udcfe", "lat\udce9n", "日本語", "\U0001f600", " lead", "trail ", "dot.", "..x", "...", "#1#", "\x01\x7f", "e\u0301", "\u00e9",
             "%2e%2e", "x:y", "$HOME", "`ls`", "NUL", "a.versions.txt"]


def esc(p):
    """Names that are no valid UTF-8 are shown escaped, as the warning about them says."""
    return p.encode("utf-8", "surrogateescape").decode("utf-8", "backslashreplace")


def odd(s, path):
    """A TAR with unusual but valid members -> {path: expected}"""
    exp = {}
    dirs = [""]
    buf = io.BytesIO()
    fmt = [tarfile.GNU_FORMAT, tarfile.PAX_FORMAT][s.draw(2)]
    t = tarfile.open(fileobj=buf, mode="w", format=fmt, errors="surrogateescape", encoding="utf-8")
    for i in range(3 + s.draw(14)):
        d = dirs[s.draw(len(dirs))]
        n = ODD_NAMES[s.draw(len(ODD_NAMES))]
        p = (d + "/" if d else "") + n
        if "/" + esc(p) in exp or len(p.encode("utf-8", "surrogateescape")) > 2000:
            continue
        if fmt == tarfile.PAX_FORMAT and any(0xdc80 <= ord(c) <= 0xdcff for c in p):
            continue
        ti = tarfile.TarInfo(p)
        ti.mode = [0o644, 0o600, 0o755, 0o4755, 0o2755, 0o1777, 0o000, 0o7777][s.draw(8)]
        ti.mtime = [0, 1, A.BASE_TIME, 2 ** 31, 2 ** 33 + 1, 253402300799][s.draw(6)]
        if fmt == tarfile.PAX_FORMAT and s.draw(3) == 0:
            ti.mtime = A.BASE_TIME + s.draw(1000) / 8
        ti.uid, ti.gid = [0, 1000, 65534, 2 ** 21 + 5, 2 ** 31 - 1][s.draw(5)], [0, 100, 2 ** 31 + 7][s.draw(3)]
        kind = ["file", "file", "file", "dir", "link", "fifo", "chr"][s.draw(7)]
        target, data, xattrs = "", b"", {}
        if kind == "file":
            data = A.content(s, [0, 1, 4095, 4096, 4097, 131072, 131073][s.draw(7)] if s.draw(3) == 2 else s.draw(20000))
            ti.size = len(data)
        elif kind == "dir":
            ti.type = tarfile.DIRTYPE
            dirs.append(p)
        elif kind == "link":
            ti.type = tarfile.SYMTYPE
            target = ["a", "../" * 20 + "x", "l" * 1500, "ü/日本", "new\nline", "/"][s.draw(6)]
            ti.linkname = target
        elif kind == "fifo":
            ti.type = tarfile.FIFOTYPE
        else:
            ti.type, ti.devmajor, ti.devminor = tarfile.CHRTYPE, 1, 3
        if fmt == tarfile.PAX_FORMAT and s.draw(2):
            for _ in range(1 + s.draw(3)):
                xattrs["user." + ["a", "b.c", "ü", "long" * 20][s.draw(4)]] = ["", "v", "ü", "x" * 5000][s.draw(4)]
            ti.pax_headers = {"SCHILY.xattr." + k: v for k, v in xattrs.items()}
        t.addfile(ti, io.BytesIO(data) if kind == "file" else None)
        m = {"file": stat.S_IFREG, "dir": stat.S_IFDIR, "link": stat.S_IFLNK, "fifo": stat.S_IFIFO, "chr": stat.S_IFCHR}[kind]
        exp["/" + esc(p)] = dict(mode=m | ti.mode, size=len(data), mtime=int(ti.mtime * 8) * 125 * 10 ** 6, uid=ti.uid, gid=ti.gid, target=target, data=data,
                            xattrs={k: v.encode() for k, v in xattrs.items()})
    t.close()
    with open(path, "wb") as f:
        f.write(buf.getvalue())
    return exp


def odd_tree(s, fmt):
    """Unusual names for the other formats."""
    out, dirs = {}, [""]
    for i in range(3 + s.draw(12)):
        d = dirs[s.draw(len(dirs))]
        n = ODD_NAMES[s.draw(len(ODD_NAMES))]
        p = (d + "/" if d else "") + n
        if p in out or len(p.encode("utf-8", "surrogateescape")) > 900 or (fmt != "folder" and any("\udc80" <= c <= "\udcff" for c in p)):
            continue
        kind = ["file", "file", "dir", "link"][s.draw(4)]
        if kind == "link" and fmt in ("asar", "sqlar"):
            kind = "file"
        if kind == "dir":
            dirs.append(p)
            out[p] = A.Node("dir", mode=0o755)
        elif kind == "link":
            out[p] = A.Node("link", target=["a", "../" * 20 + "x", "ü/日本", "new\nline"][s.draw(4)], mode=0o777)
        else:
            out[p] = A.Node("file", data=A.content(s, s.draw(5000)))
    if not any(n.kind == "file" for n in out.values()):
        out["only"] = A.Node("file", data=b"only")
    return out


def from_tree(t):
    m = {"file": stat.S_IFREG, "dir": stat.S_IFDIR, "link": stat.S_IFLNK}
    return {"/" + p: dict(mode=m[n.kind] | n.mode, size=len(n.data), loose=True, data=n.data, target=n.target) for p, n in t.items()}


def from_walk(w):
    out = {}
    for p, (kind, what, key) in w.items():
        if p == "/":
            continue
        if key is None:
            out[p] = dict(mode=stat.S_IFDIR, any=True)
            continue
        size, mode, mtime, uid, gid = key
        out[p] = dict(mode=mode, size=size, mtime=mtime, uid=uid, gid=gid, target=what if kind == "link" else "",
                      data=what if kind == "file" else b"")
    return out


class Mounted:
    def __init__(self, sim, paths, mp, opts, what):
        from ratarmount.FuseMount import FuseMount
        self.sim = sim
        try:
            self.fm = FuseMount(paths, mp, **opts)
        except Exception as e:
            sim.fail("mount-fails", f"{what}: {type(e).__name__}: {e} at {where(e)}")
        self.fm.init("/")
        self.br = Bridge(self.fm)

    def close(self):
        self.br.close()
        self.fm.mountSource.__exit__(None, None, None)


def fds():
    return len(os.listdir("/proc/self/fd"))


def history(sim):
    s = sim.ops
    kind = KINDS[s.draw(len(KINDS))]
    arch, idx, mp = sim.mkdir("arch"), sim.mkdir("idx"), sim.mkdir("mp")
    opts = dict(parallelization=1, indexMinimumFileCount=0)
    if kind == "odd":
        path = os.path.join(arch, "odd.tar")
        exp = odd(sim.data, path)
        paths = [path]
    elif kind == "oddtree":
        from .common import suffix, write_archive
        fmt = ["zip", "sqlar", "folder", "folder", "cpio", "asar", "tar.gz", "tar.zst"][s.draw(8)]
        t = odd_tree(sim.data, fmt)
        path = os.path.join(arch, "odd" + suffix(fmt))
        write_archive(fmt, path, t)
        exp, paths, kind = from_tree(t), [path], "odd " + fmt
    elif kind == "union":
        from .common import suffix, write_archive
        paths = []
        for i in range(2):
            fmt = ["tar", "zip", "folder", "tar.zst"][s.draw(4)]
            t = A.tree(sim.data, max_files=6, max_size=3000, dirs=False)
            t = {(f"{i}-" + p): n for p, n in t.items()}
            p = os.path.join(arch, f"u{i}" + suffix(fmt))
            write_archive(fmt, p, t)
            paths.append(p)
        exp = None
    else:
        path, extra, _ = p05.build(sim, sim.data, kind, arch)
        opts.update(extra)
        paths, exp = [path], None
    if s.draw(2):
        opts.update(indexFolders=[idx], writeIndex=True)
    else:
        opts["indexFilePath"] = ":memory:"
    if exp is None:
        ref = p15.mount(paths[0], mp, dict(opts, indexFilePath=":memory:")) if len(paths) == 1 else Mounted(sim, paths, mp, dict(opts, indexFilePath=":memory:"), kind).fm
        exp = from_walk(p15.walk(Kernel(ref)))
        ref.mountSource.__exit__(None, None, None)
        del ref
    else:
        for p in list(exp):
            parts = p.split("/")
            for i in range(2, len(parts)):
                exp.setdefault("/".join(parts[:i]), dict(mode=stat.S_IFDIR, any=True))
    exp["/"] = dict(mode=stat.S_IFDIR, any=True)
    if s.draw(4) == 3:
        opts["controlInterface"] = True
    if s.draw(5) == 4:
        opts["enableFileVersions"] = False
    sim.trace(kind, sorted(opts), sorted(exp)[:40])
    m = Mounted(sim, paths, mp, opts, kind)
    Run(sim, kind, m, exp, opts)()
    m.close()


class Run:
    def __init__(self, sim, kind, m, exp, opts):
        self.sim, self.kind, self.m, self.exp, self.opts = sim, kind, m, exp, opts
        self.b = m.br
        self.children = {}
        for p in exp:
            if p != "/":
                d, n = p.rsplit("/", 1)
                self.children.setdefault(d or "/", set()).add(n)
        self.paths = sorted(exp)
        self.files = [p for p in self.paths if stat.S_ISREG(exp[p]["mode"])]
        self.open = {}
        self.log = []

    def at(self):
        return f"in {self.kind} {sorted(self.opts)} after {self.log[-6:]}"

    def call(self, desc, fn):
        """('ok', value) | ('err', errno)"""
        n = len(self.b.tap.seen)
        try:
            r = ("ok", fn())
        except OSError as e:
            r = ("err", e.errno)
        x = self.b.tap.seen[n:]
        self.sim.check(not x, "uncaught-exception", lambda: f"{desc} {self.at()}: {x[0][:2]} at {where(x[0][2]) if x[0][2] else ''}")
        self.log.append(f"{desc} -> {r[0] if r[0] == 'ok' else errno.errorcode.get(r[1], r[1])}")
        self.sim.state(self.kind, desc.split(" ")[0], r[0], r[1] if r[0] == "err" else 0)
        return r

    def good(self, desc, fn):
        r = self.call(desc, fn)
        self.sim.check(r[0] == "ok", "unexpected-error", lambda: f"{desc} {self.at()}")
        return r[1]

    def attributes(self, p, a):
        e = self.exp[p]
        sim = self.sim
        if e.get("any"):
            sim.check(stat.S_ISDIR(a["st_mode"]), "wrong-attributes", lambda: f"{p!r} {self.at()}: {a}")
            return
        if e.get("loose"):
            sim.equal([stat.S_IFMT(a["st_mode"]), a["st_size"] if stat.S_ISREG(e["mode"]) else None],
                      [stat.S_IFMT(e["mode"]), e["size"] if stat.S_ISREG(e["mode"]) else None], "wrong-attributes", f"{p!r} {self.at()}")
            return
        got = [a["st_mode"], a["st_size"] if stat.S_ISREG(e["mode"]) else None, a["st_uid"], a["st_gid"], a["st_mtime"] // 1000]
        want = [e["mode"], e["size"] if stat.S_ISREG(e["mode"]) else None, e["uid"], e["gid"], e["mtime"] // 1000]
        sim.equal(got, want, "wrong-attributes", f"{p!r} {self.at()}")
        sim.equal(a["st_blocks"], -(-a["st_size"] // 512), "wrong-blocks", f"{p!r} {self.at()}")

    def missing(self):
        s = self.sim.ops
        p = s.pick(self.paths)
        base = p.rstrip("/")
        return s.pick([base + "/nope", base + "x", base + " ", base + "/" + "n" * 255, base + "/\udcff", base + "/\udce9\udc80.versions", "/no/where/at/all",
                       base + "/nope.versions", base + "/nope.versions/1", base + "x.versions/2", base + ".versions/999", base + ".versions/x",
                       base + "/%", base + "/'", base + "/\n", base + ".versions/1/nope", base + "/" + "ü" * 127, base + "/*", "/versions", "/.versions",
                       base + "/.versions", base + "/.ratarmount-control", base + "/'; DROP TABLE files; --"])

    def __call__(self):
        sim, s, b, exp = self.sim, self.sim.ops, self.b, self.exp
        control = self.opts.get("controlInterface")
        versions = self.opts.get("enableFileVersions", True)
        base_fds = None
        for step in range(30 + s.draw(120)):
            op = s.draw(18)
            if op in (0, 1):
                p = s.pick(self.paths)
                self.attributes(p, self.good(f"getattr {p!r}", lambda: b.getattr(p)))
            elif op == 2:
                p = self.missing()
                if p in exp or (control and p.startswith("/.ratarmount-control")):
                    continue
                r = self.call(f"getattr {p!r}", lambda: b.getattr(p))
                ok = r[0] == "err" and r[1] in (errno.ENOENT, errno.ENOTDIR)
                sim.check(ok, "exists-from-nowhere" if r[0] == "ok" else "wrong-error", lambda: f"getattr {p!r} {self.at()}: {r}")
            elif op in (3, 4):
                p = s.pick([p for p in self.paths if stat.S_ISDIR(exp[p]["mode"])])
                es = self.good(f"readdir {p!r}", lambda: b.readdir(p, 0))
                names = [e[0] for e in es]
                sim.check(len(set(names)) == len(names), "name-listed-twice", lambda: f"{p!r} {self.at()}: {names}")
                sim.check("." in names and ".." in names, "no-dots", lambda: f"{p!r} {self.at()}: {names}")
                got = set(names) - {".", ".."} - ({".ratarmount-control"} if p == "/" and control else set())
                sim.equal(sorted(got), sorted(self.children.get(p, ())), "wrong-listing", f"{p!r} {self.at()}")
                for n, mode, off in es:
                    q = p.rstrip("/") + "/" + n
                    if mode and stat.S_IFMT(mode) and q in exp:
                        sim.equal(stat.S_IFMT(mode), stat.S_IFMT(exp[q]["mode"]), "wrong-type-in-listing", f"{q!r} {self.at()}")
            elif op == 5:
                ls = [p for p in self.paths if stat.S_ISLNK(exp[p]["mode"])]
                if ls:
                    p = s.pick(ls)
                    sim.equal(self.good(f"readlink {p!r}", lambda: b.readlink(p)), exp[p]["target"], "wrong-link", f"{p!r} {self.at()}")
            elif op in (6, 7) and self.files:
                p = s.pick(self.files)
                if len(self.open) < 60:
                    flags = os.O_RDONLY | s.pick([0, 0, os.O_CLOEXEC, os.O_NOFOLLOW, os.O_NONBLOCK, 0o100000])
                    via = p
                    if versions and s.draw(4) == 3:
                        via = p + ".versions/" + str(s.draw(2) if False else 1)
                        if via in exp or p.endswith(".versions") or self.call(f"getattr {via!r}", lambda: b.getattr(via))[0] != "ok":
                            continue
                        n = len(self.good(f"readdir {p + '.versions'!r}", lambda: b.readdir(p + ".versions", 0)))
                        if n != 3:
                            continue  # (more versions: P12)
                    fh = self.good(f"open {via!r}", lambda: b.open(via, flags))
                    sim.check(fh not in self.open, "handle-used-twice", lambda: f"{fh} {self.at()}: {self.open}")
                    self.open[fh] = (via, p)
            elif op in (8, 9, 10, 11) and self.open:
                fh = s.pick(sorted(self.open))
                via, p = self.open[fh]
                data = exp[p]["data"]
                n = len(data)
                off = s.pick([0, s.draw(n + 1), s.draw(n + 1), max(0, n - 1), n, n + 1, n + s.draw(100000), 1 << 40, (1 << 63) - 1 - 200000])
                size = s.pick([0, 1, s.draw(600), s.draw(5000), 4096, 131072, n + 1, s.draw(200000)])
                size = min(size, 131072)
                r = self.good(f"read {via!r} #{fh} {size}@{off}", lambda: b.read(via, size, off, fh))
                sim.equal(h(r), h(data[off:off + size]), "wrong-data", f"read {via!r} #{fh} {size}@{off} of {n} {self.at()}: {len(r)} bytes")
            elif op == 12 and self.open:
                fh = s.pick(sorted(self.open))
                via, p = self.open.pop(fh)
                self.good(f"flush #{fh}", lambda: b.flush(via, fh))
                self.good(f"release #{fh}", lambda: b.release(via, fh))
            elif op == 13:
                p = s.pick(self.paths)
                names = self.good(f"listxattr {p!r}", lambda: b.listxattr(p))
                if "xattrs" in exp[p]:
                    sim.equal(sorted(names), sorted(exp[p]["xattrs"]), "wrong-xattrs", f"{p!r} {self.at()}")
                for n in names[:3]:
                    v = self.good(f"getxattr {p!r} {n!r}", lambda: b.getxattr(p, n))
                    if "xattrs" in exp[p]:
                        sim.equal(h(v), h(exp[p]["xattrs"][n]), "wrong-xattr", f"{p!r} {n!r} {self.at()}")
                n = s.pick(["security.selinux", "user.nothing", "user.\udcff", "x", "system.posix_acl_access"])
                if n not in names:
                    r = self.call(f"getxattr {p!r} {n!r}", lambda: b.getxattr(p, n))
                    sim.check(r[0] == "err" and r[1] in (errno.ENODATA, errno.ENOTSUP), "wrong-error", lambda: f"getxattr {p!r} {n!r} {self.at()}: {r}")
            elif op == 14:
                p = s.pick(self.paths)
                v = self.good(f"statfs {p!r}", lambda: b.statfs(p))
                sim.check(v["f_bsize"] > 0 and v["f_frsize"] > 0 and v["f_namemax"] >= 0, "wrong-statfs", lambda: f"{v} {self.at()}")
            elif op == 15:
                self.modify()
            elif op == 16:
                p = self.missing()
                if p in exp or (control and p.startswith("/.ratarmount-control")):
                    continue
                what = s.pick(["open", "readlink", "listxattr", "getxattr"])
                fn = {"open": lambda: b.open(p, os.O_RDONLY), "readlink": lambda: b.readlink(p),
                      "listxattr": lambda: b.listxattr(p), "getxattr": lambda: b.getxattr(p, "user.x")}[what]
                r = self.call(f"{what} {p!r}", fn)
                sim.check(r[0] == "err" and r[1] in (errno.ENOENT, errno.ENOTDIR, errno.EINVAL), "wrong-error" if r[0] == "err" else "exists-from-nowhere",
                          lambda: f"{what} {p!r} {self.at()}: {r}")
            elif op == 17 and step > 20 and s.draw(40) == 39 and self.files:
                self.leaks()
        for fh in sorted(self.open):
            via, p = self.open[fh]
            self.good(f"release #{fh}", lambda: b.release(via, fh))
        self.open = {}
        for p in self.paths:
            self.attributes(p, self.good(f"getattr {p!r}", lambda: b.getattr(p)))

    def leaks(self):
        """Opening and closing leaves nothing behind."""
        s, b = self.sim.ops, self.b
        p = s.pick(self.files)
        counts, objects = [], []
        for i in range(39):
            fh = self.good(f"open {p!r}", lambda: b.open(p, os.O_RDONLY))
            self.good(f"read {p!r} #{fh}", lambda: b.read(p, 100, 0, fh))
            self.good(f"release #{fh}", lambda: b.release(p, fh))
            if i % 13 == 12:
                gc.collect()
                counts.append(fds())
                objects.append(sum(issubclass(type(o), io.IOBase) for o in gc.get_objects()))
        self.sim.check(counts[-1] <= counts[0], "handles-left-open", lambda: f"open, read, release of {p!r} {self.at()}: numbers of descriptors {counts}")
        grown = [y - x for x, y in zip(objects, objects[1:])]
        leaky = any(x in self.kind for x in ("gz", "bz2", "zz", "sqlar"))  # rapidgzip never lets go of file objects
        self.sim.check(leaky or min(grown) < 13, "handles-left-open", lambda: f"open, read, release of {p!r} {self.at()}: {grown} more file objects after 13 times")

    def modify(self):
        """Changes are refused with the matching error; walks later on show that nothing changed."""
        s, b, sim = self.sim.ops, self.b, self.sim
        p = s.pick(self.paths[1:] or ["/"])
        new = p.rstrip("/") + "-new"
        what = s.pick(["mkdir", "mknod", "unlink", "rmdir", "rename", "chmod", "chown", "utimens", "symlink", "link", "create", "truncate", "setxattr", "removexattr", "write"])
        if what == "write":
            if not self.files:
                return
            p = s.pick(self.files)
            r = self.call(f"open {p!r} for writing", lambda: b.open(p, os.O_RDWR))
            if r[0] == "ok":
                fh = r[1]
                sim.check(fh not in self.open, "handle-used-twice", lambda: f"{fh} {self.at()}")
                r = self.call(f"write {p!r} #{fh}", lambda: b.write(p, b"abc", 0, fh))
                self.good(f"release #{fh}", lambda: b.release(p, fh))
        else:
            fn = {"mkdir": lambda: b.mkdir(new, 0o755), "mknod": lambda: b.mknod(new, stat.S_IFIFO | 0o644, 0), "unlink": lambda: b.unlink(p),
                  "rmdir": lambda: b.rmdir(p), "rename": lambda: b.rename(p, new), "chmod": lambda: b.chmod(p, 0o600), "chown": lambda: b.chown(p, 1, 1),
                  "utimens": lambda: b.utimens(p, (0, 0)), "symlink": lambda: b.symlink(new, "x"), "link": lambda: b.link(new, p),
                  "create": lambda: b.create(new, 0o644), "truncate": lambda: b.truncate(p, 0), "setxattr": lambda: b.setxattr(p, "user.x", b"1"),
                  "removexattr": lambda: b.removexattr(p, "user.x")}[what]
            r = self.call(f"{what} {p!r}", fn)
        sim.check(r[0] == "err" and r[1] in READ_ONLY, "wrong-error" if r[0] == "err" else "change-accepted", lambda: f"{what} {p!r} {self.at()}: {r}")


CONFIGS = {"history": history}
RUNS = {"quick": {"history": 700}, "thorough": {"history": 30000}}
