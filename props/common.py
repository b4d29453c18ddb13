"""Shared pieces of the index scenarios (P01, P02, P03, ...)."""
import os
import sys
import tarfile

from dst import archives as A
from dst import view
from dst.sim import REPO, Violation, fork_phase

from ratarmountcore.mountsource.factory import open_mount_source

FORMATS = ["tar", "tarpax", "zip", "tar.gz", "tar.bz2", "tar.zst", "tar.xz", "single.gz", "single.bz2", "nested", "ar",
           "sqlar", "asar", "cpio", "folder"]


def make_archive(sim, s, fmt, path, t=None, big=False, many=False):
    """Writes an archive of the format; returns (path, tree or None). mtime of the file is fixed."""
    if t is None:
        if many:
            t = {}
            n = 30 + s.draw(370)
            r = s.draw(1 << 16)
            for i in range(n):
                d = ["", "dir/", "dir/sub/"][i % 3]
                t[f"{d}file-{i}-" + "n" * ((i * 7 + r) % 150)] = A.Node("file", data=b"%d" % (i * r), mtime=A.BASE_TIME + i)
        else:
            t = A.tree(s, max_files=14, max_size=4000, links=fmt not in ("ar", "asar"), dirs=fmt != "ar",
                       big=200_000 if big else 0)
    if not any(n.kind == "file" for n in t.values()):
        t["only"] = A.Node("file", data=b"only", mtime=A.BASE_TIME)
    if fmt == "ar":
        t = {p.replace("/", "_"): n for p, n in t.items() if n.kind == "file"}
    if fmt == "tarpax":
        for i, n in enumerate(t.values()):
            if n.kind == "file" and i % 2 == 0:
                n.xattrs = {"user.tag": f"v{i}", "user.other": "x" * (i * 7 % 40)}
    write_archive(fmt, path, t, s)
    return t


def write_archive(fmt, path, t, s=None, sim=None):
    items = A.order(t)
    if fmt == "folder":
        A.lay_out(items, path)
        return
    if fmt == "sqlar":
        A.sqlar_file(items, path)
    else:
        if fmt == "tar":
            b = A.tar_bytes(items)
        elif fmt == "tarpax":
            b = A.tar_bytes(items, tarfile.PAX_FORMAT)
        elif fmt == "zip":
            b = A.zip_bytes(items)
        elif fmt == "ar":
            b = A.ar_bytes(items)
        elif fmt == "cpio":
            b = A.cpio_bytes(items)
        elif fmt == "asar":
            b = A.asar_bytes(items)
        elif fmt == "nested":
            inner = A.tar_bytes(items)
            b = A.tar_bytes([("outer.txt", A.Node("file", data=b"outer")),
                             ("in/inner.tar", A.Node("file", data=inner)),
                             ("zz", A.Node("file", data=b"end"))])
        elif fmt.startswith("tar."):
            how = {"gz": "gz", "bz2": "bz2", "zst": "zstframes", "xz": "xzblocks"}[fmt[4:]]
            b = A.compress(A.tar_bytes(items), how)
        elif fmt.startswith("single."):
            data = b"".join(n.data for n in t.values())
            b = A.compress(data or b"x", fmt[7:])
        else:
            raise ValueError(fmt)
        with open(path, "wb") as f:
            f.write(b)
    os.utime(path, (A.BASE_TIME, A.BASE_TIME))


def suffix(fmt):
    return {"tarpax": ".tar", "nested": ".tar", "ar": ".a", "folder": ""}.get(fmt, "." + fmt.replace("single.", "txt."))


def mount_dump(path, opts, **kw):
    ms = open_mount_source(path, **opts)
    try:
        return view.dump(ms, **kw)
    finally:
        ms.__exit__(None, None, None)


def phase_dump(path, opts, sim=None, **kw):
    """mount + dump in its own process: ('ok', dump) | ('exc', text)."""
    def body(report):
        ms = open_mount_source(path, **opts)
        try:
            report(["appended", bool(getattr(ms, "hasBeenAppendedTo", False))])
            report(view.dump(ms, **kw))
        finally:
            ms.__exit__(None, None, None)
    out, st = fork_phase(body)
    if sim is not None and out and out[0] == ["appended", True]:
        sim.probe("append-detected")
    if st == "ok":
        return "ok", out[-1]
    if st == "exc":
        return "exc", out[-1]
    return st, None


def files_under(*dirs):
    out = {}
    for d in dirs:
        for base, _, names in os.walk(d):
            for n in names:
                p = os.path.join(base, n)
                try:
                    out[p] = os.lstat(p).st_size
                except OSError:
                    pass
    return out


class LineInterrupt:
    """Raises KeyboardInterrupt at the n-th executed line of the code under test (a SIGINT at a chosen point)."""

    def __init__(self, n):
        self.n = n
        self.fired = False

    def _g(self, frame, event, arg):
        return self._l if frame.f_code.co_filename.startswith(REPO + "/") else None

    def _l(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n == 0:
                self.fired = True
                sys.settrace(None)
                raise KeyboardInterrupt("simulated SIGINT")
        return self._l

    def __enter__(self):
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
