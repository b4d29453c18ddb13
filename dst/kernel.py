"""What the Linux VFS, its FUSE client and libfuse's high-level layer do between an application and the FUSE callbacks.

Kernel drives an in-process FuseMount, Real drives a plain directory; both offer the same calls, so that a
history can be run on both and compared."""
import errno
import os
import stat

CHUNK = 128 * 1024


class KErr(Exception):
    def __init__(self, no, cause=None):
        super().__init__(errno.errorcode.get(no, str(no)))
        self.no, self.cause = no, cause


def _split(p):
    d, n = p.rsplit("/", 1)
    return d or "/", n


class Kernel:
    def __init__(self, ops, fuse3=False, umask=0o022):
        self.ops = ops
        self.fuse3 = fuse3
        self.umask = umask
        self.handles = {}   # number -> [path, fh, flags]
        self.next = 0
        self.hidden = 0
        self.raw = []       # exceptions without an errno that escaped from callbacks
        self.log = []

    def call(self, name, *a):
        try:
            return getattr(self.ops, name)(*a)
        except OSError as e:
            if getattr(e, "uncaught", None):  # (from the bridge)
                self.raw.append((name, e.uncaught[1]))
            if e.errno:
                raise KErr(e.errno, e) from e
            self.raw.append((name, repr(e)))
            raise KErr(errno.EFAULT, e) from e
        except Exception as e:
            self.raw.append((name, repr(e)))
            raise KErr(errno.EFAULT, e) from e

    # ---- name lookup

    def lstat(self, p):
        cur = "/"
        a = self.call("getattr", "/")
        for c in [c for c in p.split("/") if c]:
            if not stat.S_ISDIR(a["st_mode"]):
                raise KErr(errno.ENOTDIR)
            cur = cur.rstrip("/") + "/" + c
            a = self.call("getattr", cur)
        return a

    def _maybe(self, p):
        try:
            return self.lstat(p)
        except KErr as e:
            if e.no == errno.ENOENT:
                return None
            raise

    def _parent(self, p):
        if not stat.S_ISDIR(self.lstat(_split(p)[0])["st_mode"]):
            raise KErr(errno.ENOTDIR)

    def _new(self, p):
        self._parent(p)
        if self._maybe(p) is not None:
            raise KErr(errno.EEXIST)

    # ---- namespace

    def listdir(self, p):
        if not stat.S_ISDIR(self.lstat(p)["st_mode"]):
            raise KErr(errno.ENOTDIR)
        try:
            entries = list(self.call("readdir", p, 0))
        except KErr:
            raise
        except OSError as e:
            raise KErr(e.errno or errno.EFAULT, e) from e
        except Exception as e:
            self.raw.append(("readdir", repr(e)))
            raise KErr(errno.EFAULT, e) from e
        out = {}
        for e in entries:
            n, mode = (e[0], e[1]) if isinstance(e, tuple) else (e, None)
            if n not in (".", ".."):
                out[n] = mode
        return out

    def readlink(self, p):
        if not stat.S_ISLNK(self.lstat(p)["st_mode"]):
            raise KErr(errno.EINVAL)
        return self.call("readlink", p)

    def mkdir(self, p, mode):
        self._new(p)
        self.call("mkdir", p, mode & ~self.umask & 0o7777)

    def symlink(self, target, p):
        self._new(p)
        self.call("symlink", p, target)

    def mkfifo(self, p, mode):
        self._new(p)
        self.call("mknod", p, stat.S_IFIFO | (mode & ~self.umask), 0)

    def link(self, src, dst):
        a = self.lstat(src)
        self._new(dst)
        if stat.S_ISDIR(a["st_mode"]):
            raise KErr(errno.EPERM)
        self.call("link", dst, src)

    def _hide(self, p):
        """libfuse renames files that are still open instead of removing them."""
        self.hidden += 1
        h = _split(p)[0].rstrip("/") + f"/.fuse_hidden{self.hidden:016x}"
        self.call("rename", p, h)
        for x in self.handles.values():
            if x[0] == p:
                x[0] = h

    def is_open(self, p):
        return any(x[0] == p for x in self.handles.values())

    def unlink(self, p):
        if stat.S_ISDIR(self.lstat(p)["st_mode"]):
            raise KErr(errno.EISDIR)
        if self.is_open(p):
            self._hide(p)
        else:
            self.call("unlink", p)

    def rmdir(self, p):
        if not stat.S_ISDIR(self.lstat(p)["st_mode"]):
            raise KErr(errno.ENOTDIR)
        self.call("rmdir", p)

    def rename(self, old, new):
        self._parent(old)
        self._parent(new)
        a = self.lstat(old)
        b = self._maybe(new)
        d = stat.S_ISDIR(a["st_mode"])
        if old == new:
            return
        if d and (new + "/").startswith(old + "/"):
            raise KErr(errno.EINVAL)
        if b is not None:
            if (old + "/").startswith(new + "/"):
                raise KErr(errno.ENOTEMPTY)
            if d and not stat.S_ISDIR(b["st_mode"]):
                raise KErr(errno.ENOTDIR)
            if not d and stat.S_ISDIR(b["st_mode"]):
                raise KErr(errno.EISDIR)
            if self.is_open(new):
                self._hide(new)
        self.call("rename", old, new)
        for x in self.handles.values():
            if x[0] == old or x[0].startswith(old + "/"):
                x[0] = new + x[0][len(old):]

    # ---- metadata

    def chmod(self, p, mode):
        a = self.lstat(p)
        self.call("chmod", p, stat.S_IFMT(a["st_mode"]) | mode)

    def chown(self, p, uid, gid):
        self.lstat(p)
        self.call("chown", p, uid, gid)

    def utimens(self, p, ns):
        self.lstat(p)
        self.call("utimens", p, ns)

    def truncate(self, p, length):
        a = self.lstat(p)
        if stat.S_ISDIR(a["st_mode"]):
            raise KErr(errno.EISDIR)
        if not stat.S_ISREG(a["st_mode"]):
            raise KErr(errno.EINVAL)
        self.call("truncate", p, length)

    # ---- files

    def open(self, p, flags, mode=0o644):
        a = self._maybe(p)
        if a is None:
            if not flags & os.O_CREAT:
                raise KErr(errno.ENOENT)
            self._parent(p)
            fh = self.call("create", p, stat.S_IFREG | (mode & ~self.umask))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise KErr(errno.EEXIST)
            if stat.S_ISDIR(a["st_mode"]) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                raise KErr(errno.EISDIR)
            if not stat.S_ISREG(a["st_mode"]):
                raise KErr(errno.EINVAL)
            passed = flags & ~(os.O_CREAT | os.O_EXCL | os.O_NOCTTY) | 0o100000
            if not self.fuse3:
                passed &= ~os.O_TRUNC
            fh = self.call("open", p, passed)
            if flags & os.O_TRUNC and not self.fuse3:
                try:
                    self.call("truncate", p, 0)
                except KErr:
                    self.call("release", p, fh)
                    raise
        self.next += 1
        self.handles[self.next] = [p, fh, flags]
        return self.next

    def pread(self, h, size, offset):
        """Through the page cache: pages are asked for, and what the file system returns short is taken for zeros
        as long as the file is said to be longer."""
        p, fh, flags = self.handles[h]
        end = self.call("getattr", p)["st_size"]
        out = b""
        stop = min(end, offset + size)
        if stop <= offset:
            return b""
        pos = offset & ~4095
        while pos < stop:
            n = min(CHUNK, -(-(stop - pos) // 4096) * 4096)
            b = self.call("read", p, n, pos, fh)
            if not isinstance(b, (bytes, bytearray, memoryview)) or len(b) > n:
                raise KErr(errno.EIO)
            out += bytes(b).ljust(n, b"\0")
            pos += n
        a = offset & 4095
        return out[a:a + stop - offset]

    def pwrite(self, h, data, offset):
        p, fh, flags = self.handles[h]
        if flags & os.O_APPEND:
            offset = self.call("getattr", p)["st_size"]
        done = 0
        while done < len(data):
            b = data[done:done + CHUNK]
            n = self.call("write", p, b, offset + done, fh)
            if n <= 0:
                raise KErr(errno.EIO)
            done += n
            if n < len(b):
                break
        return done

    def ftruncate(self, h, length):
        p, fh, flags = self.handles[h]
        self.call("truncate", p, length, fh)

    def fsync(self, h):
        p, fh, flags = self.handles[h]
        self.call("fsync", p, 0, fh)

    def fstat(self, h):
        return self.call("getattr", self.handles[h][0])

    def close(self, h):
        p, fh, flags = self.handles.pop(h)
        err = None
        try:
            self.call("flush", p, fh)
        except KErr as e:
            err = e
        self.call("release", p, fh)
        if _split(p)[1].startswith(".fuse_hidden") and not self.is_open(p):
            self.call("unlink", p)
        if err:
            raise err

    def read_all(self, p):
        h = self.open(p, os.O_RDONLY)
        try:
            return self.pread(h, 1 << 40, 0)
        finally:
            self.close(h)


class Real:
    """The same calls on a plain directory."""

    def __init__(self, root):
        self.root = root
        self.handles = {}
        self.next = 0
        os.umask(0o022)

    def _r(self, p):
        return self.root + p.rstrip("/")

    def _do(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except OSError as e:
            raise KErr(e.errno) from e

    def lstat(self, p):
        s = self._do(os.lstat, self._r(p))
        return {k: getattr(s, k) for k in ("st_mode", "st_size", "st_uid", "st_gid", "st_nlink", "st_ino")} | {"st_mtime": s.st_mtime_ns}

    def listdir(self, p):
        return {n: None for n in self._do(os.listdir, self._r(p))}

    def readlink(self, p):
        return self._do(os.readlink, self._r(p))

    def mkdir(self, p, mode):
        self._do(os.mkdir, self._r(p), mode)

    def symlink(self, target, p):
        self._do(os.symlink, target, self._r(p))

    def mkfifo(self, p, mode):
        self._do(os.mkfifo, self._r(p), mode)

    def link(self, a, b):
        self._do(os.link, self._r(a), self._r(b), follow_symlinks=False)

    def unlink(self, p):
        self._do(os.unlink, self._r(p))

    def rmdir(self, p):
        self._do(os.rmdir, self._r(p))

    def rename(self, a, b):
        self._do(os.rename, self._r(a), self._r(b))

    def chmod(self, p, mode):
        self._do(os.chmod, self._r(p), mode)

    def chown(self, p, u, g):
        self._do(os.lchown, self._r(p), u, g)

    def utimens(self, p, ns):
        self._do(os.utime, self._r(p), ns=ns, follow_symlinks=False)

    def truncate(self, p, n):
        self._do(os.truncate, self._r(p), n)

    def open(self, p, flags, mode=0o644):
        fd = self._do(os.open, self._r(p), flags | os.O_NONBLOCK, mode)
        self.next += 1
        self.handles[self.next] = [p, fd, flags]
        return self.next

    def pread(self, h, n, o):
        return self._do(os.pread, self.handles[h][1], min(n, 1 << 30), o)

    def pwrite(self, h, b, o):
        return self._do(os.pwrite, self.handles[h][1], b, o)

    def ftruncate(self, h, n):
        self._do(os.ftruncate, self.handles[h][1], n)

    def fsync(self, h):
        pass

    def fstat(self, h):
        return {"st_size": os.fstat(self.handles[h][1]).st_size}

    def close(self, h):
        os.close(self.handles.pop(h)[1])

    def read_all(self, p):
        try:
            with open(self._r(p), "rb") as f:
                return f.read()
        except OSError as e:
            raise KErr(e.errno) from e
