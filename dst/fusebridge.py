"""Calls a FuseMount through the C callbacks that the FUSE binding registers at libfuse.

Bridge has the methods that Kernel expects, but every call passes through the binding: paths and names are bytes, results
are C structures, errors are negative return values."""
import ctypes
import errno
import os
import sys

import mfusepy as M


class Tap:
    """Takes the place of the binding's logger: remembers when a callback raised something that is no OSError with an errno."""

    def __init__(self):
        self.seen = []

    def debug(self, *a, **k):
        pass
    info = warning = debug

    def _add(self, msg, *a, **k):
        e = sys.exc_info()[1]
        self.seen.append((msg % a, repr(e), e))
    error = exception = critical = _add


class Bridge:
    def __init__(self, operations):
        self.ops = None
        self.tap = Tap()
        self.log, M.log = M.log, self.tap

        def main(argc, argv, ops, size, data):
            self.ops = ops.contents
            self.keep = operations
            return 0
        real, M.fuse_main_real = M.fuse_main_real, main
        try:
            self.binding = M.FUSE(operations, "/nowhere", foreground=True, nothreads=True)
        finally:
            M.fuse_main_real = real
        self.binding.operations = operations  # (gone as soon as the main loop returns)
        self.binding.use_ns = True
        assert getattr(operations, "use_ns", False)

    @staticmethod
    def b(p):
        return p.encode("utf-8", "surrogateescape")

    @staticmethod
    def s(b):
        return b.decode("utf-8", "surrogateescape")

    def do(self, name, *a):
        fn = getattr(self.ops, name)
        if not fn:
            raise OSError(errno.ENOSYS, "no callback for " + name)
        n = len(self.tap.seen)
        r = fn(*a)
        if r < 0:
            e = OSError(-r, os.strerror(-r))
            if len(self.tap.seen) > n:
                e.uncaught = self.tap.seen[-1][:2]
                e.__cause__ = self.tap.seen[-1][2]
            raise e
        return r

    def _fi(self, fh=0, flags=0):
        fi = M.fuse_file_info()
        fi.fh, fi.flags = fh or 0, flags
        return fi

    def getattr(self, p, fh=None):
        st = M.c_stat()
        if fh is None:
            self.do("getattr", self.b(p), ctypes.pointer(st))
        else:
            self.do("fgetattr", self.b(p), ctypes.pointer(st), ctypes.pointer(self._fi(fh)))
        return {k: getattr(st, k) for k in ("st_mode", "st_size", "st_uid", "st_gid", "st_nlink", "st_blocks", "st_blksize")} | {
            "st_mtime": st.st_mtimespec.tv_sec * 10 ** 9 + st.st_mtimespec.tv_nsec}

    def readdir(self, p, fh):
        out = []
        proto = {f[0]: f[1] for f in M.fuse_operations._fields_}["readdir"]._argtypes_[2]

        def fill(buf, name, st, off):
            out.append((self.s(name), ctypes.cast(st, ctypes.POINTER(M.c_stat)).contents.st_mode if st else None, off))
            return 0
        cb = proto(fill)
        self.do("readdir", self.b(p), None, cb, 0, ctypes.pointer(self._fi(fh)))
        return out

    def readlink(self, p):
        buf = (ctypes.c_byte * 4097)()
        self.do("readlink", self.b(p), buf, 4097)
        return self.s(bytes(buf).split(b"\0", 1)[0])

    def open(self, p, flags):
        fi = self._fi(0, flags)
        self.do("open", self.b(p), ctypes.pointer(fi))
        return fi.fh

    def create(self, p, mode):
        fi = self._fi()
        self.do("create", self.b(p), mode, ctypes.pointer(fi))
        return fi.fh

    def read(self, p, size, off, fh):
        buf = (ctypes.c_byte * max(1, size))()
        n = self.do("read", self.b(p), buf, size, off, ctypes.pointer(self._fi(fh)))
        return bytes(buf)[:n]

    def write(self, p, data, off, fh):
        buf = (ctypes.c_byte * max(1, len(data))).from_buffer_copy(data or b"\0")
        return self.do("write", self.b(p), buf, len(data), off, ctypes.pointer(self._fi(fh)))

    def truncate(self, p, length, fh=None):
        if fh is None:
            return self.do("truncate", self.b(p), length)
        return self.do("ftruncate", self.b(p), length, ctypes.pointer(self._fi(fh)))

    def flush(self, p, fh):
        return self.do("flush", self.b(p), ctypes.pointer(self._fi(fh)))

    def fsync(self, p, datasync, fh):
        return self.do("fsync", self.b(p), datasync, ctypes.pointer(self._fi(fh)))

    def release(self, p, fh):
        return self.do("release", self.b(p), ctypes.pointer(self._fi(fh)))  # (libfuse ignores the result)

    def mkdir(self, p, mode):
        return self.do("mkdir", self.b(p), mode)

    def mknod(self, p, mode, dev):
        return self.do("mknod", self.b(p), mode, dev)

    def rmdir(self, p):
        return self.do("rmdir", self.b(p))

    def unlink(self, p):
        return self.do("unlink", self.b(p))

    def rename(self, a, b):
        return self.do("rename", self.b(a), self.b(b))

    def symlink(self, p, target):
        return self.do("symlink", self.b(target), self.b(p))

    def link(self, new, old):
        return self.do("link", self.b(old), self.b(new))

    def chmod(self, p, mode):
        return self.do("chmod", self.b(p), mode)

    def chown(self, p, uid, gid):
        return self.do("chown", self.b(p), uid & 0xffffffff, gid & 0xffffffff)

    def utimens(self, p, ns):
        t = M.c_utimbuf()
        for x, v in ((t.actime, ns[0]), (t.modtime, ns[1])):
            x.tv_sec, x.tv_nsec = v // 10 ** 9, v % 10 ** 9
        return self.do("utimens", self.b(p), ctypes.pointer(t))

    def statfs(self, p):
        st = M.c_statvfs()
        self.do("statfs", self.b(p), ctypes.pointer(st))
        return {k: getattr(st, k) for k, *_ in st._fields_ if k.startswith("f_")}

    def listxattr(self, p):
        n = self.do("listxattr", self.b(p), None, 0)
        buf = (ctypes.c_byte * max(1, n))()
        m = self.do("listxattr", self.b(p), buf, n)
        raw = bytes(buf)[:m]
        assert not raw or raw.endswith(b"\0"), raw
        return [self.s(x) for x in raw.split(b"\0")[:-1]]

    def getxattr(self, p, name):
        n = self.do("getxattr", self.b(p), self.b(name), None, 0)
        buf = (ctypes.c_byte * max(1, n))()
        m = self.do("getxattr", self.b(p), self.b(name), buf, n)
        return bytes(buf)[:m]

    def setxattr(self, p, name, value):
        buf = (ctypes.c_byte * max(1, len(value))).from_buffer_copy(value or b"\0")
        return self.do("setxattr", self.b(p), self.b(name), buf, len(value), 0)

    def removexattr(self, p, name):
        return self.do("removexattr", self.b(p), self.b(name))

    def close(self):
        M.log = self.log
