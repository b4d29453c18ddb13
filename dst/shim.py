"""Python side of the system-call seam (see shim.c)."""
import ctypes
import errno
import mmap
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
SO = os.path.join(BUILD, "shim.so")

NPREFIX, NPLAN, NLOG, PATHLEN = 8, 64, 60000, 152
OPS = ["?", "open", "create", "write", "pwrite", "truncate", "unlink", "rename", "mkdir", "rmdir", "link", "symlink",
       "chmod", "chown", "utime", "mknod", "sync", "copy", "read", "pread", "openrd", "stat"]
ERR, SHORT, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, LOST, KILL_SELF = 1, 2, 3, 4, 5, 6, 7
ACT = {0: "", 1: "ERR", 2: "SHORT", 3: "CRASH", 4: "CRASH-TORN", 5: "CRASH-AFTER", 6: "LOST"}
MUT, READ = 0, 1
FOREVER = 0xFFFFFFFF


def build():
    src = os.path.join(HERE, "shim.c")
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(src):
        return SO
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".so")
    os.close(fd)
    subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-fno-delete-null-pointer-checks", "-o", tmp, src, "-ldl"],
                   check=True)
    os.replace(tmp, SO)
    return SO


class Plan(ctypes.Structure):
    _fields_ = [("cls", ctypes.c_uint32), ("prefix", ctypes.c_uint32), ("at", ctypes.c_uint32),
                ("action", ctypes.c_int32), ("arg", ctypes.c_int64), ("until", ctypes.c_uint32),
                ("hits", ctypes.c_uint32), ("kindmask", ctypes.c_uint32), ("pad", ctypes.c_uint32)]


class Ent(ctypes.Structure):
    _fields_ = [("op", ctypes.c_uint32), ("fault", ctypes.c_int32), ("off", ctypes.c_int64), ("len", ctypes.c_int64),
                ("pid", ctypes.c_int32), ("prefix", ctypes.c_uint32), ("path", ctypes.c_char * PATHLEN)]


class Shm(ctypes.Structure):
    _fields_ = [("magic", ctypes.c_uint32), ("armed", ctypes.c_int32), ("nprefix", ctypes.c_int32),
                ("nplan", ctypes.c_uint32), ("prefix", (ctypes.c_char * 256) * NPREFIX),
                ("count", (ctypes.c_uint32 * NPREFIX) * 2), ("budget", ctypes.c_int64 * NPREFIX),
                ("nlog", ctypes.c_uint64), ("killgroup", ctypes.c_uint32), ("logreads", ctypes.c_uint32),
                ("plan", Plan * NPLAN), ("log", Ent * NLOG)]


class Shim:
    """One region per run; attached by this process and (through DST_SHM) by the programs it starts."""

    def __init__(self, path):
        self.path = path
        size = ctypes.sizeof(Shm)
        fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.ftruncate(fd, size)
        self._map = mmap.mmap(fd, size)
        os.close(fd)
        self.shm = Shm.from_buffer(self._map)
        lib = ctypes.CDLL(None)
        if not hasattr(lib, "dst_attach"):
            raise RuntimeError("system-call seam is not loaded (LD_PRELOAD)")
        lib.dst_shm_size.restype = ctypes.c_uint64
        if lib.dst_shm_size() != size:
            raise RuntimeError("seam layout mismatch")
        if lib.dst_attach(path.encode()) != 0:
            raise RuntimeError("cannot attach seam")
        os.environ["DST_SHM"] = path
        self.reset()

    def reset(self, prefixes=()):
        s = self.shm
        s.armed = 0
        s.nprefix = 0
        s.nplan = 0
        s.nlog = 0
        s.killgroup = 0
        s.logreads = 0
        for i in range(NPREFIX):
            s.budget[i] = -1
            s.count[0][i] = 0
            s.count[1][i] = 0
        for p in prefixes:
            self.watch(p)

    def watch(self, prefix):
        s = self.shm
        i = s.nprefix
        s.prefix[i].value = prefix.encode()
        s.nprefix = i + 1
        return i

    def plan(self, cls, prefix, at, action, arg=0, n=1, kinds=()):
        s = self.shm
        pl = s.plan[s.nplan]
        pl.cls, pl.prefix, pl.at, pl.action, pl.arg, pl.hits = cls, prefix, at, action, arg, 0
        pl.until = FOREVER if n is None else at + n
        mask = 0
        for k in kinds:
            mask |= 1 << OPS.index(k)
        pl.kindmask = mask
        s.nplan += 1
        return s.nplan - 1

    def clear_plan(self):
        self.shm.nplan = 0
        for i in range(NPREFIX):
            self.shm.budget[i] = -1

    def hits(self, i):
        return self.shm.plan[i].hits

    def total_hits(self):
        return sum(self.shm.plan[i].hits for i in range(self.shm.nplan))

    def arm(self):
        self.shm.armed = 1

    def disarm(self):
        self.shm.armed = 0

    def count(self, cls, prefix):
        return self.shm.count[cls][prefix]

    def log(self, start=0):
        s = self.shm
        out = []
        for k in range(start, min(s.nlog, NLOG)):
            e = s.log[k]
            out.append((OPS[e.op], e.path.decode("utf-8", "replace"), e.off, e.len, e.fault, e.prefix))
        return out

    @property
    def nlog(self):
        return self.shm.nlog


ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EINTR": errno.EINTR,
          "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS}
