"""Archive generators. A tree is {path: Node}, paths without leading slash; every byte is drawn from a stream."""
import bz2
import gzip
import io
import json
import lzma
import os
import random
import sqlite3
import stat
import struct
import subprocess
import tarfile
import zipfile
import zlib
from dataclasses import dataclass, field
from typing import Optional

BASE_TIME = 1_600_000_000


@dataclass
class Node:
    kind: str                      # 'file' | 'dir' | 'link' | 'hard'
    data: bytes = b""
    target: str = ""
    mode: int = 0o644
    mtime: int = BASE_TIME
    uid: int = 1000
    gid: int = 1000
    xattrs: dict = field(default_factory=dict)


def content(stream, size):
    """size bytes; compressible in parts, and no two positions alike over long distances."""
    if size == 0:
        stream.draw(1 << 16)
        return b""
    s = stream.draw(1 << 16)
    r = random.Random(s)
    mode = s % 3
    if mode == 0:
        return r.randbytes(size)
    out = bytearray()
    while len(out) < size:
        if r.random() < 0.5:
            out += r.randbytes(r.randint(1, 200))
        else:
            out += bytes([r.randrange(256)]) * r.randint(1, 300)
    return bytes(out[:size])


NAMES = ["a", "b", "foo", "bar.txt", "baz", "x y", "deep", "ü", ".hid", "file#1", "q'uote", "na%me", "UPPER"]


def name(stream, long=False):
    n = NAMES[stream.draw(len(NAMES))]
    if stream.draw(3):
        n += str(stream.draw(50))
    if long:
        n += "_" + "l" * (60 + stream.draw(120))
    return n


def tree(stream, max_files=12, max_size=6000, links=True, long_names=False, big=0, dirs=True, min_files=1,
         explicit_dirs=None):
    """A random tree with at least one regular file."""
    out = {}
    folders = [""]
    n = min_files + stream.draw(max_files - min_files + 1)
    if explicit_dirs is None:
        explicit_dirs = stream.draw(2) == 1
    for i in range(n):
        if dirs and len(folders) < 8 and stream.draw(4) == 3:
            p = folders[stream.draw(len(folders))]
            d = (p + "/" if p else "") + name(stream)
            if d not in out and d not in folders:
                folders.append(d)
                if explicit_dirs:
                    out[d] = Node("dir", mode=[0o755, 0o700, 0o555][stream.draw(3)], mtime=BASE_TIME + stream.draw(10 ** 6))
        p = folders[stream.draw(len(folders))]
        f = (p + "/" if p else "") + name(stream, long_names)
        if f in out or f in folders or (p and out.get(p, Node("dir")).kind != "dir"):
            continue
        if links and i and stream.draw(6) == 5:
            out[f] = Node("link", target=["a", "../foo", "nowhere", "/abs/path"][stream.draw(4)], mode=0o777,
                          mtime=BASE_TIME + stream.draw(10 ** 6))
            continue
        size = [0, 1, 511, 512, 513, 1024][stream.draw(6)] if stream.draw(3) == 2 else stream.draw(max_size + 1)
        if big and stream.draw(5) == 4:
            size = stream.draw(big)
        out[f] = Node("file", data=content(stream, size), mode=[0o644, 0o600, 0o755, 0o444][stream.draw(4)],
                      mtime=BASE_TIME + stream.draw(10 ** 6))
    if not any(x.kind == "file" for x in out.values()):
        out["only"] = Node("file", data=content(stream, 100))
    # nothing may live below a non-directory
    for p in list(out):
        parts = p.split("/")
        for k in range(1, len(parts)):
            q = "/".join(parts[:k])
            if q in out and out[q].kind != "dir":
                del out[p]
                break
    return out


def parents(t):
    """All directories of a tree, explicit or implied."""
    out = set()
    for p, n in t.items():
        parts = p.split("/")
        for k in range(1, len(parts)):
            out.add("/".join(parts[:k]))
        if n.kind == "dir":
            out.add(p)
    return out


def order(t):
    """Insertion order is the archive order, but explicit directories first come before their contents."""
    return list(t.items())


# ---- writers -------------------------------------------------------------------------------------

def tar_bytes(items, fmt=tarfile.GNU_FORMAT, prefix="", end_blocks=True):
    """items: list of (path, Node) in archive order (a path may repeat: a newer version)."""
    buf = io.BytesIO()
    t = tarfile.open(fileobj=buf, mode="w", format=fmt)
    for p, n in items:
        ti = tarfile.TarInfo(prefix + p)
        ti.mode, ti.mtime, ti.uid, ti.gid = n.mode, n.mtime, n.uid, n.gid
        if n.xattrs and fmt == tarfile.PAX_FORMAT:
            ti.pax_headers = {"SCHILY.xattr." + k: v for k, v in n.xattrs.items()}
        if n.kind == "dir":
            ti.type = tarfile.DIRTYPE
            t.addfile(ti)
        elif n.kind == "link":
            ti.type = tarfile.SYMTYPE
            ti.linkname = n.target
            t.addfile(ti)
        elif n.kind == "hard":
            ti.type = tarfile.LNKTYPE
            ti.linkname = n.target
            t.addfile(ti)
        else:
            ti.size = len(n.data)
            t.addfile(ti, io.BytesIO(n.data))
    off = t.offset
    t.close()
    b = buf.getvalue()
    return b if end_blocks else b[:off]


def zip_bytes(items, method=zipfile.ZIP_DEFLATED):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        import time
        for p, n in items:
            zi = zipfile.ZipInfo(p + ("/" if n.kind == "dir" else ""), time.gmtime(n.mtime)[:6])
            zi.compress_type = method
            m = {"dir": stat.S_IFDIR, "link": stat.S_IFLNK}.get(n.kind, stat.S_IFREG)
            zi.external_attr = (m | n.mode) << 16
            zi.create_system = 3
            z.writestr(zi, n.target.encode() if n.kind == "link" else n.data)
    return buf.getvalue()


def ar_bytes(items):
    out = bytearray(b"!<arch>\n")
    names = bytearray()
    refs = {}
    for p, n in items:
        if len(p.encode()) > 15:
            refs[p] = len(names)
            names += p.encode() + b"/\n"
    if names:
        out += b"%-16s%-12s%-6s%-6s%-8s%-10d`\n" % (b"//", b"", b"", b"", b"", len(names))
        out += names + (b"\n" if len(names) % 2 else b"")
    for p, n in items:
        nm = b"/%d" % refs[p] if p in refs else p.encode() + b"/"
        out += b"%-16s%-12d%-6d%-6d%-8o%-10d`\n" % (nm, n.mtime, n.uid, n.gid, stat.S_IFREG | n.mode, len(n.data))
        out += n.data + (b"\n" if len(n.data) % 2 else b"")
    return bytes(out)


def cpio_bytes(items):
    out = bytearray()

    def add(nm, mode, mtime, data, ino, uid=1000, gid=1000):
        nb = nm.encode("utf-8", "surrogateescape") + b"\0"
        hdr = b"070701" + b"".join(b"%08X" % v for v in (ino, mode, uid, gid, 1, mtime, len(data), 0, 0, 0, 0, len(nb), 0))
        out.extend(hdr + nb)
        out.extend(b"\0" * (-len(out) % 4))
        out.extend(data)
        out.extend(b"\0" * (-len(out) % 4))
    for i, (p, n) in enumerate(items):
        m = {"dir": stat.S_IFDIR, "link": stat.S_IFLNK}.get(n.kind, stat.S_IFREG)
        add(p, m | n.mode, n.mtime, n.target.encode("utf-8", "surrogateescape") if n.kind == "link" else n.data, i + 1, n.uid, n.gid)
    add("TRAILER!!!", 0, 0, b"", 0, 0, 0)
    out.extend(b"\0" * (-len(out) % 512))
    return bytes(out)


def sqlar_file(items, path):
    if os.path.exists(path):
        os.unlink(path)
    db = sqlite3.connect(path)
    db.execute("CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)")
    # "sqlite3 -Ac folder" stores all folders explicitly
    for d in sorted(parents(dict(items)) - {p for p, _ in items}):
        db.execute("INSERT INTO sqlar VALUES (?,?,?,?,?)", (d, stat.S_IFDIR | 0o755, BASE_TIME, 0, None))
    for p, n in items:
        if n.kind == "dir":
            db.execute("INSERT INTO sqlar VALUES (?,?,?,?,?)", (p, stat.S_IFDIR | n.mode, n.mtime, 0, None))
        elif n.kind == "link":
            db.execute("INSERT INTO sqlar VALUES (?,?,?,?,?)", (p, stat.S_IFLNK | n.mode, n.mtime, -1, n.target))
        else:
            z = zlib.compress(n.data)
            d = z if len(z) < len(n.data) else n.data
            db.execute("INSERT INTO sqlar VALUES (?,?,?,?,?)", (p, stat.S_IFREG | n.mode, n.mtime, len(n.data), d))
    db.commit()
    db.close()


def asar_bytes(items):
    root = {"files": {}}
    blob = bytearray()

    def folder(path):
        cur = root
        for part in [x for x in path.split("/") if x]:
            cur = cur["files"].setdefault(part, {"files": {}})
        return cur
    for p, n in items:
        par, _, nm = p.rpartition("/")
        if n.kind == "dir":
            folder(p)
        elif n.kind == "link":
            folder(par)["files"][nm] = {"link": n.target}
        else:
            e = {"size": len(n.data), "offset": str(len(blob))}
            if n.mode & 0o100:
                e["executable"] = True
            folder(par)["files"][nm] = e
            blob += n.data
    js = json.dumps(root).encode()
    pad = -len(js) % 4
    payload = 4 + len(js) + pad
    return struct.pack("<IIII", 4, payload + 4, payload, len(js)) + js + b"\0" * pad + bytes(blob)


def lay_out(items, folder, times=True):
    """Write a tree to a real directory."""
    os.makedirs(folder, exist_ok=True)
    ds = []
    for p, n in items:
        q = os.path.join(folder, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if n.kind == "dir":
            os.makedirs(q, exist_ok=True)
            ds.append((q, n))
        elif n.kind == "link":
            os.symlink(n.target, q)
            os.utime(q, (n.mtime, n.mtime), follow_symlinks=False)
        else:
            with open(q, "wb") as f:
                f.write(n.data)
            os.chmod(q, n.mode)
            os.utime(q, (n.mtime, n.mtime))
    given = {q: n for q, n in ds}
    for q, _, _ in os.walk(folder, topdown=False):
        n = given.get(q)
        if n:
            os.chmod(q, n.mode)
        t = n.mtime if n else BASE_TIME
        os.utime(q, (t, t))


def squashfs_file(items, path, work, comp="gzip", block=None):
    lay_out(items, work)
    if os.path.exists(path):
        os.unlink(path)
    cmd = ["mksquashfs", work, path, "-comp", comp, "-no-progress", "-quiet", "-mkfs-time", "0", "-processors", "1",
           "-noappend"]
    if block:
        cmd += ["-b", str(block)]
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def seven_zip_file(items, path, work):
    lay_out(items, work)
    if os.path.exists(path):
        os.unlink(path)
    subprocess.run(["7z", "a", "-snl", "-bd", "-y", path, "."], cwd=work, check=True, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)


def compress(data, how, stream=None):
    if how == "gz":
        return gzip.compress(data, mtime=0)
    if how == "bz2":
        return bz2.compress(data, 1)
    if how == "xz":
        return lzma.compress(data)
    if how == "xzblocks":
        return xz_blocks(data, 3000)
    if how == "zst":
        import zstandard
        return zstandard.ZstdCompressor(level=3).compress(data)
    if how == "zstframes":
        import zstandard
        out = b""
        c = zstandard.ZstdCompressor(level=1)
        for i in range(0, len(data), 4096):
            out += c.compress(data[i:i + 4096])
        return out or c.compress(b"")
    if how == "zz":
        return zlib.compress(data)
    raise ValueError(how)


def xz_blocks(data, block):
    """A one-stream .xz with many blocks, via the xz tool (deterministic, single thread)."""
    r = subprocess.run(["xz", "-T1", "-0", f"--block-size={block}", "-c"], input=data, stdout=subprocess.PIPE, check=True)
    return r.stdout


def expected_view(t):
    """{'/path': (kind, data-or-target)} including implied directories."""
    out = {"/" + d: ("dir", None) for d in parents(t)}
    for p, n in t.items():
        if n.kind == "file":
            out["/" + p] = ("file", n.data)
        elif n.kind == "link":
            out["/" + p] = ("link", n.target)
    return out
