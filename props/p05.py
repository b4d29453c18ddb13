"""P05: random access returns exactly the bytes of the member, for every access history."""
import base64
import bz2
import gzip
import io
import lzma
import os
import random
import shutil
import subprocess
import tarfile
import zipfile

from dst import archives as A
from dst.shim import READ, SHORT

from dst.sim import Violation, where

from . import common as C
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P05"
LEVEL = "exploration"
RULE = "distinct (format, back end option, kind of operation, position class, buffering, stored or fresh seek index) tuples"
REAL = ["all archive and compression back ends, file objects, seek-index storage of ratarmountcore", "decompression libraries, SQLite"]
STUB = ["short reads of the storage (LD_PRELOAD seam)"]
ASSUMPTIONS = ["libraries that read through their own C++ streams (rapidgzip) may bypass the short-read seam"]
TESTS = os.path.join(os.environ.get("DST_REPO", "/repo"), "tests")


def sparse_tar(sim, s, path, version):
    """A tar with sparse members, by the real tar program."""
    w = sim.mkdir("work")
    exp = {}
    for i in range(1 + s.draw(3)):
        size = 4096 * (1 + s.draw(60)) + s.draw(3000)
        d = bytearray(size)
        q = os.path.join(w, f"s{i}")
        with open(q, "wb") as f:
            f.truncate(size)
            for _ in range(s.draw(5)):
                o = 4096 * s.draw(size // 4096 + 1)
                b = A.content(s, 1 + s.draw(5000))
                b = b[:size - o]
                f.seek(o)
                f.write(b)
                d[o:o + len(b)] = b
        os.utime(q, (A.BASE_TIME, A.BASE_TIME))
        exp[f"s{i}"] = bytes(d)
    exp["plain"] = A.content(s, s.draw(3000))
    with open(os.path.join(w, "plain"), "wb") as f:
        f.write(exp["plain"])
    os.utime(os.path.join(w, "plain"), (A.BASE_TIME,) * 2)
    fmt = ["--format=gnu"] if version == "gnu" else ["--format=pax", f"--sparse-version={version}"]
    subprocess.run(["tar", "-S", *fmt, "--sort=name", "-cf", path, "-C", w, *sorted(exp)], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    shutil.rmtree(w)
    return exp


def compressed(s, b, how):
    if how == "gzmulti":
        n = max(1, len(b) // (1 + s.draw(5)) + 1)
        return b"".join(gzip.compress(b[k:k + n], mtime=0) for k in range(0, max(1, len(b)), n))
    if how == "gz0":
        return gzip.compress(b, compresslevel=0, mtime=0)
    if how == "bz2multi":
        n = max(1, len(b) // (1 + s.draw(5)) + 1)
        return b"".join(bz2.compress(b[k:k + n], 1) for k in range(0, max(1, len(b)), n))
    if how == "xzmulti":
        n = max(1, len(b) // (1 + s.draw(4)) + 1)
        return b"".join(lzma.compress(b[k:k + n]) for k in range(0, max(1, len(b)), n))
    if how == "lzma":
        return lzma.compress(b, format=lzma.FORMAT_ALONE)
    if how == "lz4":
        import lz4.frame
        return lz4.frame.compress(b)
    if how == "lzo":
        return subprocess.run(["lzop", "-c"], input=b, stdout=subprocess.PIPE, check=True).stdout
    return A.compress(b, how)


TAR_HOW = ["gz", "gzmulti", "gz0", "bz2", "bz2multi", "xz", "xzblocks", "xzmulti", "zst", "zstframes", "zz", "lz4", "lzma"]
EXT = {"gz": "gz", "gzmulti": "gz", "gz0": "gz", "bz2": "bz2", "bz2multi": "bz2", "xz": "xz", "xzblocks": "xz", "xzmulti": "xz",
       "zst": "zst", "zstframes": "zst", "zz": "zz", "lz4": "lz4", "lzma": "lzma", "lzo": "lzo"}
KINDS = (["tar", "tarpax", "zip", "zipstored", "zipbz", "ar", "cpio", "asar", "sqlar", "7z", "split", "splitgz", "folder", "nestedtar",
          "nestedzip", "nestedgz", "nested7z", "nestedcpio", "nestedsquashfs", "nestedzipin", "nestedar", "html", "pdf", "corpus"]
         + ["sparse." + v for v in ("gnu", "0.0", "0.1", "1.0")]
         + ["squashfs." + c for c in ("gzip", "xz", "lzo", "lz4", "zstd")]
         + ["tar." + h for h in TAR_HOW] + ["single." + h for h in TAR_HOW + ["lzo"]])
CORPUS = ["encrypted-nested-tar.rar", "rar-misrecognized-as-zip.rar", "nested-tar-1M.ext4.bz2", "single-file.iso.bz2",
          "folder-symlink.fat12.bz2", "Cal_2flip2click8khzvbr_vlc.ogv", "example.pdf", "save_page_we.html",
          "folder-symlink.lzma.squashfs", "single-file.xar", "hello-world.warc", "testpkg_0.0.1_all.deb", "ar-llvm-19-coff.ar",
          "single-file.hpbin.cpio", "encrypted-nested-tar.zip", "single-file.cab", "base64.gz",
          "two-large-files-32Ki-lines-each-1023B.7z", "incremental-backup.level.0.tar", "concatenated.tar", "nested-tar.sqlar",
          "ar-bsdtar.ar", "chimera-tbz2-zip"]


def build(sim, s, kind, folder):
    """-> (path, options, {path: bytes} or None)"""
    o = {}
    t = A.tree(s, max_files=8, max_size=9000, links=False, big=[60_000, 200_000, 500_000][s.draw(3)])
    t.setdefault("zz-big", A.Node("file", data=A.content(s, 20_000 + s.draw(120_000)), mtime=A.BASE_TIME))
    exp = {"/" + p: n.data for p, n in t.items() if n.kind == "file"}
    items = A.order(t)

    def put(name, b):
        p = os.path.join(folder, name)
        with open(p, "wb") as f:
            f.write(b)
        return p
    if kind == "tar":
        p = put("d.tar", A.tar_bytes(items))
    elif kind == "tarpax":
        p = put("d.tar", A.tar_bytes(items, tarfile.PAX_FORMAT))
    elif kind.startswith("zip"):
        p = put("d.zip", A.zip_bytes(items, {"zip": zipfile.ZIP_DEFLATED, "zipstored": zipfile.ZIP_STORED, "zipbz": zipfile.ZIP_BZIP2}[kind]))
    elif kind == "ar":
        items = [(q.replace("/", "_"), n) for q, n in items if n.kind == "file"]
        exp = {"/" + q: n.data for q, n in items}
        p = put("d.a", A.ar_bytes(items))
    elif kind == "cpio":
        p = put("d.cpio", A.cpio_bytes(items))
    elif kind == "asar":
        p = put("d.asar", A.asar_bytes(items))
    elif kind == "sqlar":
        p = os.path.join(folder, "d.sqlar")
        A.sqlar_file(items, p)
    elif kind == "7z":
        p = os.path.join(folder, "d.7z")
        A.seven_zip_file(items, p, sim.path("work"))
    elif kind in ("split", "splitgz"):
        b = A.tar_bytes(items)
        if kind == "splitgz":
            b = gzip.compress(b, mtime=0)
        n = max(1, len(b) // (2 + s.draw(6)))
        for k in range(0, len(b), n):
            put(f"d.{'tgz' if kind == 'splitgz' else 'tar'}.{k // n + 1:03}", b[k:k + n])
        p = os.path.join(folder, f"d.{'tgz' if kind == 'splitgz' else 'tar'}.001")
    elif kind == "folder":
        p = os.path.join(folder, "d")
        A.lay_out(items, p)
        if s.draw(2):
            o["forceFolderIndex"] = True
    elif kind.startswith("sparse."):
        p = os.path.join(folder, "d.tar")
        exp = {"/" + k: v for k, v in sparse_tar(sim, s, p, kind[7:]).items()}
    elif kind.startswith("squashfs."):
        p = os.path.join(folder, "d.squashfs")
        A.squashfs_file(items, p, sim.path("work"), kind[9:], [None, 4096, 16384][s.draw(3)])
    elif kind.startswith("tar."):
        p = put("d.tar." + EXT[kind[4:]], compressed(s, A.tar_bytes(items), kind[4:]))
    elif kind.startswith("single."):
        data = A.content(s, [0, 1, 5000, 200_000, 600_000][1 + s.draw(4)] + s.draw(3000))
        p = put("d.txt." + EXT[kind[7:]], compressed(s, data, kind[7:]))
        exp = {None: data}
    elif kind.startswith("nested"):
        form = kind[6:] if kind[6:] in ("7z", "cpio", "squashfs", "zipin", "ar") else "tar"
        if form != "tar" and s.draw(2):
            # larger than the chunks in which archives are read
            for q in ("zy-large", "zz-large"):
                d = random.Random(s.draw(1 << 16)).randbytes(900_000 + s.draw(700_000))
                items.append((q, A.Node("file", data=d, mtime=A.BASE_TIME)))
                exp["/" + q] = d
        name = "in/inner." + {"zipin": "zip", }.get(form, form)
        if form == "7z":
            A.seven_zip_file(items, os.path.join(folder, "inner." + form), sim.path("work"))
        elif form == "squashfs":
            A.squashfs_file(items, os.path.join(folder, "inner." + form), sim.path("work"), "zstd", None)
        elif form == "ar":
            items = [(q.replace("/", "_"), n) for q, n in items if n.kind == "file"]
            exp = {"/" + q: n.data for q, n in items}
        inner = (A.cpio_bytes(items) if form == "cpio" else A.ar_bytes(items) if form == "ar" else
                 A.zip_bytes(items, [zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED][s.draw(2)]) if form == "zipin" else
                 A.tar_bytes(items) if form == "tar" else open(os.path.join(folder, "inner." + form), "rb").read())
        if form in ("7z", "squashfs"):
            os.unlink(os.path.join(folder, "inner." + form))
        if kind == "nestedgz":
            inner, name = gzip.compress(inner, mtime=0), "in/inner.tar.gz"
        outer = [("first", A.Node("file", data=A.content(s, 700))), (name, A.Node("file", data=inner)),
                 ("last", A.Node("file", data=A.content(s, 900)))]
        exp = {f"/{name}" + q: d for q, d in exp.items()}
        exp.update({"/" + q: n.data for q, n in outer if "inner" not in q})
        p = put("d.zip", A.zip_bytes(outer)) if kind == "nestedzip" else put("d.tar", A.tar_bytes(outer))
        o["recursive"] = True
    elif kind == "html":
        exp, body = {}, ["<!DOCTYPE html><html><head><title>t\u00fc\u4e2d</title></head><body>"]
        for i in range(1 + s.draw(4)):
            d = A.content(s, 1 + s.draw(3000))
            body.append("<p>" + ["x", "\u00e4\u00f6\u00fc\u20ac\U0001f600", "plain text"][s.draw(3)] * s.draw(20) + "</p>")
            body.append(f'<img src="data:application/octet-stream;base64,{base64.b64encode(d).decode()}">')
            exp[f"#{i}"] = d
        body.append("</body></html>")
        p = put("d.html", "\n".join(body).encode())
    elif kind == "pdf":
        import pypdf
        w = pypdf.PdfWriter()
        w.add_blank_page(100, 100)
        exp = {}
        for i in range(1 + s.draw(4)):
            d = A.content(s, 1 + s.draw(9000))
            w.add_attachment(f"att{i}.bin", d)
            exp[f"#{i}"] = d
        b = io.BytesIO()
        w.write(b)
        p = put("d.pdf", b.getvalue())
    else:
        names = [c for c in CORPUS if os.path.exists(os.path.join(TESTS, c))]
        c = names[s.draw(len(names))]
        with open(os.path.join(TESTS, c), "rb") as f:
            b = f.read()
        if c.endswith((".ext4.bz2", ".iso.bz2", "fat12.bz2")):
            c, b = c[:-4], bz2.decompress(b)
        p = put(c, b)
        o["passwords"] = [b"foo"]
        exp = None
        sim.trace("corpus", c)
    if os.path.isdir(sim.path("work")):
        os.system(f"chmod -R u+rwx '{sim.path('work')}'")
        shutil.rmtree(sim.path("work"))
    return p, o, exp


def members(ms):
    out, todo = [], ["/"]
    while todo:
        d = todo.pop()
        for n in sorted(ms.list(d) or ()):
            p = d.rstrip("/") + "/" + n
            fi = ms.lookup(p)
            if fi is None:
                continue
            if (fi.mode & 0o170000) == 0o040000:
                todo.append(p)
            elif (fi.mode & 0o170000) == 0o100000:
                out.append(p)
    return sorted(out)


def scenario(sim, short):
    s = sim.ops
    kind = KINDS[s.draw(len(KINDS))]
    arch, idx = sim.mkdir("arch"), sim.mkdir("idx")
    path, extra, exp = build(sim, sim.data, kind, arch)
    opts = dict(extra, parallelization=1, indexMinimumFileCount=0)
    pb = None
    if "gz" in kind:
        opts["gzipSeekPointSpacing"] = [1 << 20, 16384, 65536, 4096][s.draw(4)]
        pb = [None, "indexed_gzip", None][s.draw(3)]
    elif "bz2" in kind:
        pb = [None, "rapidgzip-bzip2"][s.draw(2)]
    if s.draw(6) == 5 and (kind in ("tar", "zip", "7z", "cpio") or kind.startswith("tar.")):
        pb = "libarchive"
    if pb:
        opts["prioritizedBackends"] = [pb]
    stored = s.draw(3)
    if stored:
        opts["indexFolders"] = [idx]
        opts["writeIndex"] = True
    else:
        opts["indexFilePath"] = ":memory:"
    sim.trace("kind", kind, "options", {k: v for k, v in opts.items() if k != "passwords"})

    def mount(o=opts):
        ms = open_mount_source(path, **o)
        if o.get("recursive"):
            ms = AutoMountLayer(ms, **o)
        return ms

    if exp is None:
        # reference: whole, sequential reads of a mount of its own
        exp = {}
        m = mount(dict(opts, indexFilePath=":memory:", writeIndex=False))
        for p in members(m):
            with m.open(m.lookup(p)) as f:
                exp[p] = f.read()
        m.__exit__(None, None, None)
        sim.check(exp, "empty", kind)
    elif None in exp:
        pass
    if stored == 2:
        mount().__exit__(None, None, None)  # the mount under test loads what this one stored
        sim.probe("stored-index")

    shim = sim.shim
    shim.reset([arch])
    # a plain file hands through what the system call returns; rapidgzip's bzip2 reader and vendored readers take a
    # short read for an error, which is not wrong data
    short = short and kind not in ("folder", "corpus") and "bz2" not in kind
    if short:
        f = sim.fault
        at = 0
        for _ in range(20):
            at += f.draw(12)
            n = 1 + f.draw(20)
            shim.plan(READ, 0, at, SHORT, arg=1 + [f.draw(10), f.draw(600), f.draw(9000)][f.draw(3)], n=n, kinds=("read", "pread"))
            at += n
        shim.arm()
    ms = mount()
    try:
        found = members(ms)
        if None in exp or any(k.startswith("#") for k in exp):
            # the members' names are not at stake here
            got = {}
            for p in found:
                with ms.open(ms.lookup(p)) as fh:
                    got[p] = fh.read()
            sim.equal(sorted(got.values()), sorted(exp.values()), "wrong-contents", f"{kind} {opts}")
            exp = got
        sim.equal(found, sorted(exp), "wrong-members", f"{kind} {opts}")
        history(sim, ms, exp, kind, pb, stored)
    finally:
        ms.__exit__(None, None, None)
        shim.disarm()
    if short:
        sim.injected("short-read", shim.total_hits())


def history(sim, ms, exp, kind, pb, stored):
    try:
        _history(sim, ms, exp, kind, pb, stored)
    except Violation:
        raise
    except Exception as e:
        sim.fail("operation-fails", f"{kind} {pb or ''} stored={stored}: {type(e).__name__}: {e} at {where(e)}; last: {sim._trace[-2:]}")


def _history(sim, ms, exp, kind, pb, stored):
    s = sim.ops
    names = sorted(exp)
    big = max(names, key=lambda p: len(exp[p]))
    handles = []  # [path, file object, model, buffering]
    for step in range(25 + s.draw(60)):
        if not handles or (len(handles) < 5 and s.draw(8) == 7):
            p = big if s.draw(3) == 2 else names[s.draw(len(names))]
            b = [0, -1, 1024, 65536][s.draw(4)]
            handles.append([p, ms.open(ms.lookup(p), buffering=b), io.BytesIO(exp[p]), b])
            sim.trace(f"open {p} {len(exp[p])} buffering {b}")
            continue
        h = handles[s.draw(len(handles))]
        p, fh, model, b = h
        size = len(exp[p])
        pos = model.tell()
        k = s.draw(16)
        ctx = lambda what: f"{kind} {pb or ''} stored={stored} {p} (size {size}) {what} at {pos} buffering {b}"  # noqa

        def sought(got, want, what):
            # a position beyond the end may be kept or become the end; both read nothing
            sim.evaluations += 1
            if not (got == want or (want > size and size <= got <= want)):
                sim.fail("wrong-position", ctx(what) + f": got {got}, expected {want}")
            model.seek(got)
        if k <= 4:
            n = [s.draw(20), s.draw(700), s.draw(9000), s.draw(size + 100), 0][s.draw(5)]
            want = model.read(n)
            got = fh.read(n)
            what = f"read({n})"
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                sim.fail("wrong-bytes", ctx(what) + f": got {len(got)} bytes, expected {len(want)}, first difference at {i}")
        elif k == 5:
            want, got, what = model.read(), fh.read(), "read()"
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                sim.fail("wrong-bytes", ctx(what) + f": got {len(got)} bytes, expected {len(want)}, first difference at {i}")
        elif k <= 9:
            o = [s.draw(size + 1), s.draw(min(size, 600) + 1), max(0, size - s.draw(600)), size + s.draw(5000), (s.draw(size + 1) // 512) * 512][s.draw(5)]
            sought(fh.seek(o), o, f"seek({o})")
            what = "seek"
        elif k == 10:
            d = s.draw(2 * 3000) - 3000
            d = max(d, -pos)
            sought(fh.seek(d, 1), pos + d, f"seek({d}, CUR)")
            what = "seekcur"
        elif k == 11:
            d = -s.draw(min(size, 5000) + 1) if s.draw(5) else s.draw(100)
            sought(fh.seek(d, 2), size + d, f"seek({d}, END)")
            what = "seekend"
        elif k == 12:
            what = "readinto"
            n = s.draw(3000)
            buf, ref = bytearray(n), bytearray(n)
            want = model.readinto(ref)
            try:
                got = fh.readinto(buf)
            except (AttributeError, NotImplementedError, io.UnsupportedOperation):
                model.seek(pos)
                got = None
            if got is not None and (got != want or buf[:want] != ref[:want]):
                sim.fail("wrong-bytes", ctx(f"readinto({n})") + f": got {got}, expected {want}")
        elif k == 13:
            n, o = s.draw(5000), s.draw(size + 200)
            fi = ms.lookup(p)
            got = ms.read(fi, n, o)
            what = "ms.read"
            if got != exp[p][o:o + n]:
                sim.fail("wrong-bytes", ctx(f"MountSource.read({n}, {o})") + f": got {len(got)} bytes, expected {len(exp[p][o:o + n])}")
        elif k == 14:
            # a seek to before the start is refused or stops at the start; the handle stays usable
            what = "badseek"
            try:
                fh.seek(-pos - 1 - s.draw(50), 1)
            except (ValueError, OSError):
                pass
            sought(fh.seek(pos), pos, f"seek({pos}) after a seek to before the start")
            sim.probe("seek-before-start")
        else:
            what = "close"
            fh.close()
            handles.remove(h)
            sim.trace("close", p)
            continue
        sim.evaluations += 1
        sim.equal(fh.tell(), model.tell(), "wrong-position", ctx("tell after " + what))
        sim.trace(what, p, pos, model.tell())
        sim.state(kind, pb, what, pos == 0, pos >= size, b, stored)
    for h in handles:
        h[1].close()


def plain(sim):
    scenario(sim, False)


def short(sim):
    scenario(sim, True)


CONFIGS = {"histories": plain, "short_reads": short}
RUNS = {"quick": {"histories": 1100, "short_reads": 700}, "thorough": {"histories": 20000, "short_reads": 12000}}
