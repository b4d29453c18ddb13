"""P04: concurrent readers of one mount observe what each would observe alone."""
import io
import os
import zipfile

from dst import archives as A
from dst.shim import READ, SHORT
from dst.sim import where

from . import p05
from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
from ratarmountcore.mountsource.compositing.union import UnionMountSource
from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
from ratarmountcore.mountsource.factory import open_mount_source

PROP = "P04"
LEVEL = "exploration"
RULE = "distinct hashes of the sequence of (task left, task entered, step) at all preemptions of a run"
REAL = ["all archive back ends, compositions, stenciled files and their locks", "zipfile, PySquashfsImage, SQLite"]
STUB = ["thread scheduling (seeded, line-level preemption)", "threading.Lock/RLock/Thread (simulated)"]
ASSUMPTIONS = ["no preemption inside C code", "every thread opens its own file objects; the index is file-backed"]

KINDS = (["tar", "tarpax", "zip", "zipstored", "zipbz", "ar", "cpio", "asar", "sqlar", "7z", "split", "folder", "nestedtar",
          "nestedzip", "nestedgz", "nested7z", "nestedcpio", "nestedsquashfs", "nestedzipin", "nestedar", "html", "pdf", "corpus"]
         + ["sparse." + v for v in ("gnu", "1.0")] + ["squashfs." + c for c in ("gzip", "xz", "zstd")]
         + ["tar." + h for h in ("gz", "bz2", "xz", "xzblocks", "zst", "zstframes", "lz4")]
         + ["single." + h for h in ("gz", "bz2", "xz", "zst", "lz4")])


def scenario(sim, compose=False):
    import PySquashfsImage
    s = sim.ops
    kind = KINDS[s.draw(len(KINDS))]
    arch, idx = sim.mkdir("arch"), sim.mkdir("idx")
    path, extra, exp = p05.build(sim, sim.data, kind, arch)
    opts = dict(extra, parallelization=1, indexMinimumFileCount=0, indexFolders=[idx], writeIndex=True)
    if "gz" in kind:
        # indexed_gzip reads in the calling thread
        opts["prioritizedBackends"] = ["indexed_gzip"]
        opts["gzipSeekPointSpacing"] = [1 << 20, 16384][s.draw(2)]
    lazy = bool(opts.get("recursive")) and s.draw(2) == 1
    if lazy:
        opts["lazyMounting"] = True
    union = s.draw(4) == 3 and None not in (exp or {})
    sim.trace("kind", kind, "lazy", lazy, "union", union)

    def mount():
        ms = open_mount_source(path, **opts)
        if opts.get("recursive"):
            ms = AutoMountLayer(ms, **opts)
        if union:
            other = sim.mkdir("other")
            with open(os.path.join(other, "of the union"), "wb") as f:
                f.write(b"other" * 999)
            ms = UnionMountSource([open_mount_source(other), ms], maxCacheDepth=[0, 5][s.draw(2)])
        return ms

    # sequential reference, in a mount of its own
    m = mount()
    tree, files, dirs = {}, {}, ["/"]
    todo = ["/"]
    while todo:
        d = todo.pop()
        names = sorted(m.list(d) or ())
        tree[d] = names
        for n in names:
            p = d.rstrip("/") + "/" + n
            fi = m.lookup(p)
            k = fi.mode & 0o170000
            tree[p] = (k, fi.size if k == 0o100000 else 0)
            if k == 0o040000:
                todo.append(p)
                dirs.append(p)
            elif k == 0o100000:
                with m.open(fi) as f:
                    files[p] = f.read()
    for d in dirs:
        tree[d] = sorted(m.list(d) or ())
    m.__exit__(None, None, None)
    if exp and None not in exp and not any(k.startswith("#") for k in exp):
        for p, b in exp.items():
            sim.equal(files.get(p), b, "wrong-contents", f"{kind} {p}")
    sim.check(files, "empty", kind)
    names = sorted(files)
    big = max(names, key=lambda p: len(files[p]))
    dirs = sorted(dirs)

    # An index kept in memory belongs to the thread that made it: then the tasks only open and read.
    on_disk = bool(os.listdir(idx)) and not opts.get("recursive")
    if s.draw(2):
        for f in os.listdir(idx):
            os.unlink(os.path.join(idx, f))
        sim.probe("index-created-under-test")
    prefixes = (p05.os.path.join(os.environ.get("DST_REPO", "/repo")) + "/", zipfile.__file__, os.path.dirname(PySquashfsImage.__file__))
    with sim.scheduler(trace_prefixes=prefixes) as sc:
        ms = mount()
        infos = {p: ms.lookup(p) for p in names} if not on_disk else {}
        plan = []
        for t in range(2 + s.draw(3)):
            ops = []
            for _ in range(3 + s.draw(8)):
                p = big if s.draw(2) else names[s.draw(len(names))]
                k = s.draw(8)
                if not on_disk and k < 3:
                    k = 3 if k else 2
                if k == 0:
                    ops.append(("list", dirs[s.draw(len(dirs))]))
                elif k == 1:
                    ops.append(("look", p))
                elif k == 2:
                    ops.append(("read", p, s.draw(len(files[p]) + 10), s.draw(9000)))
                else:
                    acts = []
                    for _ in range(1 + s.draw(6)):
                        o = s.draw(len(files[p]) + 1) if s.draw(3) else None
                        acts.append((o, [s.draw(700), s.draw(9000), -1][s.draw(3)]))
                    ops.append(("file", p, [0, -1, 1024][s.draw(3)], acts))
            plan.append(ops)
        log = []

        def task(n):
            for op in plan[n]:
                try:
                    bad = perform(ms, op, tree, files, infos)
                except Exception as e:  # noqa
                    bad = ("operation-fails", f"{type(e).__name__}: {e} at {where(e)}")
                log.append((n, op[0], op[1]))
                if bad:
                    return (bad[0], f"{kind} lazy={lazy} union={union} task {n} {op}: {bad[1]}")
            return None
        for n in range(len(plan)):
            sc.spawn(lambda n=n: task(n), name=f"t{n}")
        sc.run()
        for x in log:
            sim.trace(*x)
        sim.sched_steps += sc.steps
        sim.sched_switches += sc.switches
        sim.interleavings.add(sc.signature)
        sim.state(kind, lazy, union, len(plan))
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
            sim.evaluations += 1
            if t.result:
                sim.fail(*t.result)
        # afterwards everything is still as before
        for p in names[:4]:
            bad = perform(ms, ("file", p, -1, [(None, -1)]), tree, files)
            if bad:
                sim.fail(bad[0], f"{kind} afterwards: {bad[1]}")
        ms.__exit__(None, None, None)


def perform(ms, op, tree, files, infos=None):
    k, p = op[:2]
    look = (lambda p: infos[p].clone()) if infos else ms.lookup
    if k == "list":
        got = ms.list(p)
        if sorted(got or ()) != tree[p]:
            return "wrong-listing", f"got {sorted(got or ())}, expected {tree[p]}"
    elif k == "look":
        fi = ms.lookup(p)
        if fi is None or (fi.mode & 0o170000, fi.size) != tree[p]:
            return "wrong-attributes", f"got {fi}, expected {tree[p]}"
    elif k == "read":
        got = ms.read(look(p), op[3], op[2])
        if got != files[p][op[2]:op[2] + op[3]]:
            return "wrong-bytes", f"got {len(got)} bytes, expected {len(files[p][op[2]:op[2] + op[3]])}"
    else:
        ref = io.BytesIO(files[p])
        with ms.open(look(p), buffering=op[2]) as f:
            for o, n in op[3]:
                if o is not None:
                    f.seek(o)
                    ref.seek(o)
                pos = ref.tell()
                got, want = f.read(n), ref.read(n)
                if got != want:
                    i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                    return "wrong-bytes", f"read({n}) at {pos}: got {len(got)} bytes, expected {len(want)}, first difference at {i}"
                if f.tell() != ref.tell():
                    return "wrong-position", f"tell after read({n}) at {pos}: got {f.tell()}, expected {ref.tell()}"
    return None


CONFIGS = {"readers": scenario}
RUNS = {"quick": {"readers": 600}, "thorough": {"readers": 15000}}
