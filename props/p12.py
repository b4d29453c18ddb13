"""P12: every version of an overwritten member stays accessible, and links mean what they meant in the archive."""
import os
import stat
import tarfile

from dst import archives as A
from dst.kernel import KErr, Kernel
from dst.shim import CRASH_AFTER, CRASH_BEFORE, MUT
from dst.sim import fork_phase, where
from dst.view import h

PROP = "P12"
LEVEL = "exploration"
RULE = "distinct (kind of archive, pattern of versions and links of a path, phase, request) combinations"
REAL = ["FuseMount, FileVersionLayer, AutoMountLayer, UnionMountSource, the TAR, ZIP, AR and libarchive back ends, index creation, "
        "loading and appending", "SQLite, decompression libraries"]
STUB = ["the kernel's FUSE client (in-process)", "process kills while an appended archive is mounted (LD_PRELOAD seam)",
        "modification times of archives are set by the simulator"]
ASSUMPTIONS = ["names ending in .versions are avoided (documented: real files hide the version folders)",
               "the number of versions of folders is left open because folders are shown merged",
               "a name is either used for folders or for other members, not for both"]
KINDS = ["tar", "tar", "tar", "tarpax", "tar.gz", "tar.bz2", "tar.zst", "tar.xz", "nested", "nested.gz", "union", "libarchive", "transform",
         "ar", "zip"]


class Members:
    """The member sequence of an archive and what it means."""

    def __init__(self, s, links=True):
        self.s, self.links = s, links
        self.items = []
        self.dirs = ["", "d", "d/e"]
        self.names = [n for n in A.NAMES[:8]]
        self.clock = A.BASE_TIME
        self.pool = []

    def path(self):
        s = self.s
        if self.pool and s.draw(3):
            return self.pool[s.draw(len(self.pool))]
        d = self.dirs[s.draw(len(self.dirs))]
        p = (d + "/" if d else "") + self.names[s.draw(len(self.names))] + ".f" * s.draw(2)
        if p not in self.pool:
            self.pool.append(p)
        return p

    def add(self, n):
        s = self.s
        for _ in range(n):
            self.clock += s.pick([0, 1, 1 + s.draw(1000)])
            k = s.draw(10) if self.links else 0
            mode = [0o644, 0o600, 0o755, 0o444][s.draw(4)]
            if k == 9:
                d = self.dirs[1 + s.draw(2)]
                self.items.append((d, A.Node("dir", mode=[0o755, 0o700, 0o555][s.draw(3)], mtime=self.clock, uid=s.draw(5))))
                continue
            p = self.path()
            olds = sorted({q for q, x in self.items if x.kind in ("file", "hard")})
            if k in (6, 7) and olds:
                q = olds[s.draw(len(olds))]
                if k == 7 and p in olds:
                    q = p
                pre = ["", "", "./", "/"][s.draw(4)]
                self.items.append((p, A.Node("hard", target=pre + q, mode=mode, mtime=self.clock)))
            elif k == 8:
                self.items.append((p, A.Node("link", target=["a", "../b", "x/y", "/etc"][s.draw(4)], mode=0o777, mtime=self.clock)))
            else:
                size = [0, 1, 511, 512, 513][s.draw(5)] if s.draw(4) == 3 else s.draw(3000)
                self.items.append((p, A.Node("file", data=A.content(s, size), mode=mode, mtime=self.clock, uid=s.draw(9), gid=s.draw(9))))

    def resolve(self, i):
        p, n = self.items[i]
        while n.kind == "hard":
            t = os.path.normpath("/" + n.target).strip("/")
            i = max(j for j in range(i) if self.items[j][0] == t and self.items[j][1].kind != "dir")
            p, n = self.items[i]
        return n

    def model(self, attrs=True):
        """{path: [node, ...]} of everything that is no folder, and {folder: last explicit node or None}"""
        files, dirs = {}, {"": None}
        for i, (p, n) in enumerate(self.items):
            if n.kind == "dir":
                dirs[p] = n
            else:
                files.setdefault(p, []).append(self.resolve(i))
            parts = p.split("/")
            for k in range(1, len(parts)):
                dirs.setdefault("/".join(parts[:k]), None)
        return files, dirs


def pattern(m, p):
    return "".join({"file": "f", "hard": "h", "link": "l"}[n.kind] for q, n in m.items if q == p)


def view_of(k, p):
    a = k.lstat(p)
    key = (a["st_mode"] & 0o7777, a["st_mtime"] // 10 ** 9, a["st_uid"], a["st_gid"])
    if stat.S_ISLNK(a["st_mode"]):
        return ("link", k.readlink(p), key)
    if stat.S_ISREG(a["st_mode"]):
        return ("file", h(k.read_all(p)), a["st_size"], key)
    return ("dir" if stat.S_ISDIR(a["st_mode"]) else f"type {a['st_mode']:o}", key)


def want_of(n, attrs):
    key = (n.mode, n.mtime, n.uid, n.gid)
    if n.kind == "link":
        return ("link", n.target, key)
    if n.kind == "dir":
        return ("dir", key)
    return ("file", h(n.data), len(n.data), key)


def strip(v, attrs):
    if attrs == "all":
        return v
    key = v[-1]
    return v[:-1] + ((key[:2] if attrs == "mode,mtime" else ()),)


class Check:
    def __init__(self, sim, kind, prefix, files, dirs, attrs, log, patterns):
        self.__dict__.update(locals())

    def __call__(self, fm, full=True):
        sim, s, k = self.sim, self.sim.ops, Kernel(fm)
        try:
            self._run(s, k, full)
        except KErr as e:
            sim.fail("unexpected-error", f"{self.kind} after {self.log}: {self.current}: {e.no} {e.cause!r}")

    def _run(self, s, k, full):
        sim, pre = self.sim, self.prefix
        at = lambda p: (pre + "/" + p).rstrip("/") or "/"
        paths = sorted(self.files)
        handles = []
        order = list(paths) * (2 if full else 1)
        s.shuffle(order)
        for p in order:
            vs = self.files[p]
            self.current = p
            pat = self.patterns.get(p, "")
            what = lambda x: f"{self.kind} {x} (members {pat}) after {self.log}"
            for _ in range(1 + s.draw(3)):
                r = s.draw(6)
                sim.state(self.kind, pat, len(self.log), r)
                if r == 0:
                    sim.equal(strip(view_of(k, at(p)), self.attrs), strip(want_of(vs[-1], self.attrs), self.attrs), "wrong-newest", what(p))
                elif r == 1:
                    sim.equal(list(k.listdir(at(p) + ".versions")), [str(i + 1) for i in range(len(vs))], "wrong-versions", what(p))
                elif r == 2:
                    for x in (str(len(vs) + 1), str(len(vs) + 1 + s.draw(5)), "01", "x"):
                        a = k._maybe(at(p) + ".versions/" + x)
                        sim.check(a is None, "version-from-nowhere", lambda: what(p + ".versions/" + x))
                elif r == 3 and vs:
                    i = s.draw(len(vs))
                    if vs[i].kind == "file":
                        n = k.open(at(p) + f".versions/{i + 1}", os.O_RDONLY)
                        handles.append((n, vs[i].data, p, i))
                else:
                    i = s.draw(len(vs))
                    sim.equal(strip(view_of(k, at(p) + f".versions/{i + 1}"), self.attrs), strip(want_of(vs[i], self.attrs), self.attrs),
                              "wrong-version", what(f"{p}.versions/{i + 1}"))
            if handles and s.draw(2):
                n, data, q, i = handles[s.draw(len(handles))]
                self.current = f"handle of {q}.versions/{i + 1}"
                off, size = s.draw(len(data) + 5), s.draw(2000)
                sim.equal(h(k.pread(n, size, off)), h(data[off:off + size]), "wrong-data", f"{self.kind} {self.current} after {self.log}")
        for n, *_ in handles:
            k.close(n)
        for d in sorted(self.dirs):
            self.current = d
            names = {p[len(d) + 1 if d else 0:] for p in list(self.files) + list(self.dirs)
                     if p and (os.path.dirname(p) == d)}
            sim.equal(sorted(n for n in k.listdir(at(d)) if not (d == "" and n in (".ratarmount-control",))), sorted(names), "wrong-listing", f"{self.kind} {d} after {self.log}")
            if d and self.dirs[d] is not None and self.attrs == "all":
                sim.equal(view_of(k, at(d)), want_of(self.dirs[d], "all"), "wrong-folder", f"{self.kind} {d} after {self.log}")
        if s.draw(2):
            self.current = "missing"
            for x in ("nothing.versions", "nothing.versions/1", "d.versions/nothing.versions"):
                sim.check(k._maybe(at(x)) is None, "version-from-nowhere", lambda: f"{self.kind} {x} after {self.log}")


def write(kind, m, path, prefix=""):
    items = m.items
    if kind.startswith("tar."):
        how = {"gz": "gz", "bz2": "bz2", "zst": "zstframes", "xz": "xzblocks"}[kind[4:]]
        b = A.compress(A.tar_bytes(items), how)
    elif kind == "ar":
        b = A.ar_bytes(items)
    elif kind == "zip":
        b = A.zip_bytes(items)
    elif kind == "tarpax":
        b = A.tar_bytes(items, tarfile.PAX_FORMAT)
    else:
        b = A.tar_bytes(items)
    with open(path, "wb") as f:
        f.write(b)


def mount(sim, paths, mp, opts, log):
    from ratarmount.FuseMount import FuseMount
    try:
        fm = FuseMount(paths, mp, **opts)
    except Exception as e:
        sim.fail("mount-fails", f"after {log}: {type(e).__name__}: {e} at {where(e)}")
    fm.init("/")
    return fm


def still(sim):
    """One archive of any kind, mounted with and without an existing index."""
    s = sim.ops
    kind = KINDS[s.draw(len(KINDS))]
    arch, idx, mp = sim.mkdir("arch"), sim.mkdir("idx"), sim.mkdir("mp")
    opts = dict(parallelization=1, indexMinimumFileCount=0, indexFolders=[idx], writeIndex=True)
    if kind in ("ar", "zip"):
        m = Members(sim.data, links=False)
        if kind == "ar":
            m.dirs = [""]
    else:
        m = Members(sim.data)
    m.add(3 + sim.data.draw(25))
    attrs, prefix = "all", ""
    if kind == "zip":
        attrs = "mode"
    files, dirs = m.model()
    ext = {"nested": "tar", "nested.gz": "tar", "union": "tar", "libarchive": "tar", "transform": "tar", "tarpax": "tar", "ar": "a"}.get(kind, kind)
    path = os.path.join(arch, "x." + ext)
    paths = [path]
    patterns = {p: pattern(m, p) for p in files}
    if kind.startswith("nested"):
        # the outer archive uses the same names
        o = Members(sim.data, links=False)
        o.pool, o.dirs = list(m.pool), m.dirs
        o.add(3 + sim.data.draw(6))
        inner = A.tar_bytes(m.items)
        nm = "in/n.tar"
        if kind == "nested.gz":
            inner, nm = A.compress(inner, "gz"), "in/n.tar.gz"
        o.items.insert(sim.data.draw(len(o.items) + 1), (nm, A.Node("file", data=inner)))
        with open(path, "wb") as f:
            f.write(A.tar_bytes(o.items))
        opts["recursive"] = True
        prefix = "/" + nm
        if sim.data.draw(2):
            opts["stripRecursiveTarExtension"] = True
            prefix = "/in/n"
    elif kind == "union":
        write("tar", m, path)
        o = Members(sim.data)
        o.pool, o.clock = list(m.pool), m.clock
        o.add(3 + sim.data.draw(15))
        paths.append(os.path.join(arch, "y.tar"))
        write("tar", o, paths[1])
        f2, d2 = o.model()
        for p, v in f2.items():
            files.setdefault(p, [])
            files[p] = files[p] + v
            patterns[p] = patterns.get(p, "") + "|" + pattern(o, p)
        for d, v in d2.items():
            dirs[d] = None
    else:
        write(kind, m, path)
        if kind == "libarchive":
            opts["prioritizedBackends"] = ["libarchive"]
            attrs = "mode,mtime"
        elif kind == "transform":
            opts["transform"] = ("^/(.*)", "/new/\\1")
            prefix = "/new"
    if kind != "nested" and s.draw(4) == 3:
        opts["recursive"] = True
    for p in paths:
        os.utime(p, (A.BASE_TIME, A.BASE_TIME))
    sim.trace(kind, opts.get("recursive"), [(p, n.kind, n.target) for p, n in m.items])
    log = []
    for phase in range(1 + s.draw(3)):
        log.append(f"mount {phase + 1}")
        fm = mount(sim, paths, mp, opts, log)
        Check(sim, kind, prefix, files, dirs, attrs, log, patterns)(fm)
        fm.mountSource.__exit__(None, None, None)


def appending(sim):
    """A TAR to which members are appended between mounts; mounts may be killed while they take in what is new."""
    s, f = sim.ops, sim.fault
    arch, idx, mp = sim.mkdir("arch"), sim.mkdir("idx"), sim.mkdir("mp")
    m = Members(sim.data)
    m.add(2 + sim.data.draw(12))
    path = os.path.join(arch, "x.tar")
    opts = dict(parallelization=1, indexMinimumFileCount=0, indexFolders=[idx], writeIndex=True, recursive=s.draw(3) == 2)
    fmt = [tarfile.GNU_FORMAT, tarfile.PAX_FORMAT][s.draw(2)]
    log, t = [], A.BASE_TIME
    for phase in range(2 + s.draw(4)):
        if phase:
            m.add(1 + sim.data.draw(6))
        b = A.tar_bytes(m.items, fmt)
        with open(path, "wb") as o:
            o.write(b)
        t += 1 + s.draw(1000)
        os.utime(path, (t, t))
        log.append(f"{len(m.items)} members")
        if phase and f.draw(3) == 2:
            at, how = f.small(f.pick([10, 60, 250])), f.pick([CRASH_BEFORE, CRASH_AFTER])
            sim.shim.reset([idx])
            sim.shim.plan(MUT, 0, at, how, n=None)
            sim.shim.arm()

            def body(report):
                fm = mount(sim, [path], mp, opts, log)
                fm.mountSource.__exit__(None, None, None)
            _, st = fork_phase(body)
            sim.shim.disarm()
            sim.shim.reset(())
            if st == "killed":
                sim.injected("kill")
                log.append(f"killed at write {at}")
        files, dirs = m.model()
        patterns = {p: pattern(m, p) for p in files}
        for _ in range(1 + s.draw(2)):
            fm = mount(sim, [path], mp, opts, log)
            Check(sim, "append", "", files, dirs, "all", log, patterns)(fm, full=False)
            fm.mountSource.__exit__(None, None, None)
            log.append("mounted")


CONFIGS = {"still": still, "appending": appending}
RUNS = {"quick": {"still": 500, "appending": 250}, "thorough": {"still": 20000, "appending": 12000}}
