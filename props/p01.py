"""P01: an index whose creation or update was interrupted never changes what a later mount shows."""
import errno
import os

from dst import view
from dst.shim import CRASH_AFTER, CRASH_BEFORE, CRASH_TORN, ERR, MUT, SHORT
from dst.sim import fork_phase

from . import common as C

PROP = "P01"
LEVEL = "exploration"
RULE = "distinct (format, options, fault kind, outcome of the interrupted mount, files left behind) combinations"
REAL = ["ratarmountcore index creation, loading, compression seek tables, checksumming, all archive back ends",
        "SQLite and the decompression libraries", "a real file system below the scratch directory"]
STUB = ["process kill, I/O errors, full disk, read-only folder: injected at the system-call boundary (LD_PRELOAD)",
        "clock (virtual)", "SIGINT: KeyboardInterrupt raised at a drawn source line"]
ASSUMPTIONS = ["process kill model: completed write calls survive, a write is torn only at 4 KiB page boundaries; "
               "power loss (unsynced pages lost) is not simulated because the index is written without syncing by design"]


def options(sim, s, fmt, idx):
    o = {"writeIndex": True, "parallelization": 1}
    how = s.draw(4)
    if how == 0:
        o["indexFolders"] = [idx]
    elif how == 1:
        o["indexFilePath"] = os.path.join(idx, "the.index.sqlite")
    elif how == 2:
        o["indexFolders"] = ["", idx]
    m = s.draw(4)
    if m == 1:
        o["indexMinimumFileCount"] = 0
    elif m == 2:
        o["indexMinimumFileCount"] = 5
    elif m == 3:
        o["indexMinimumFileCount"] = 60
    else:
        o["indexMinimumFileCount"] = 0
    if s.draw(4) == 3:
        o["hashes"] = [["crc32"], ["md5", "sha1"]][s.draw(2)]
    if fmt == "nested":
        o["recursive"] = True
    if fmt == "folder":
        o["forceFolderIndex"] = True
    if fmt in ("tar.gz", "single.gz"):
        o["gzipSeekPointSpacing"] = [1024 * 1024, 16384, 65536][s.draw(3)]
        if s.draw(3) == 2:
            o["prioritizedBackends"] = ["indexed_gzip"]
    return o


def reference(sim, path, opts):
    o = {k: v for k, v in opts.items() if k not in ("indexFolders", "indexMinimumFileCount")}
    o.update(indexFilePath=":memory:", writeIndex=False)
    st, d = C.phase_dump(path, o)
    return st, d


def fallback_reference(sim, path, opts):
    """What the back end that ratarmount falls back to shows, for mounts whose first choice failed."""
    st, d = reference(sim, path, dict(opts, prioritizedBackends=["libarchive"]))
    return d if st == "ok" else None


def attempt(sim, path, opts, plan, interrupt=None):
    """One mount under a fault plan, in a process of its own."""
    def body(report):
        sim.shim.arm()
        try:
            if interrupt:
                with C.LineInterrupt(interrupt) as li:
                    try:
                        d = C.mount_dump(path, opts)
                    except KeyboardInterrupt:
                        import gc
                        gc.collect()
                        report(["interrupted"])
                        return
            else:
                d = C.mount_dump(path, opts)
        finally:
            sim.shim.disarm()
        report(["dump", d])
    out, st = fork_phase(body)
    sim.shim.disarm()
    return out, st


def scenario(sim, faults):
    s = sim.ops
    fmt = C.FORMATS[s.draw(len(C.FORMATS))]
    many = s.draw(3) == 2
    arch = sim.mkdir("arch")
    idx = sim.mkdir("idx")
    path = os.path.join(arch, "data" + C.suffix(fmt))
    C.make_archive(sim, sim.data, fmt, path, many=many and not fmt.startswith("single"))
    opts = options(sim, s, fmt, idx)
    sim.trace("format", fmt, "many", many, "options", opts)
    st, ref = reference(sim, path, opts)
    if st != "ok":
        sim.fail("reference-mount-failed", f"{fmt}: {st} {ref}")
    sim.check(any(k.startswith("/") for k in ref), "empty-reference", fmt)

    shim = sim.shim
    watch = [arch, idx, os.path.join(sim.dir, "home"), os.path.join(sim.dir, "tmp")]

    def setup():
        shim.reset(watch)

    # count the mutating calls of an undisturbed mount, then remove its traces
    setup()
    out, st = attempt(sim, path, opts, None)
    total = [shim.count(MUT, i) for i in range(4)]
    sim.trace("undisturbed mount", st, "mutating calls per area", total[:3])
    if st != "ok":
        sim.fail("undisturbed-mount-failed", f"{fmt} {opts}: {out}")
    d = view.diff(out[-1][1], ref)
    sim.check(not d, "index-changes-view", lambda: f"{fmt} {opts}: with a written index: {d}")
    where = max(range(3), key=lambda i: total[i])
    # a second mount uses the index
    st2, again = C.phase_dump(path, opts)
    sim.check(st2 == "ok", "reload-failed", lambda: f"{fmt} {opts}: {again}")
    d = view.diff(again, ref)
    sim.check(not d, "reloaded-index-changes-view", lambda: f"{fmt} {opts}: {d}")
    if not faults:
        sim.state(fmt, sorted(opts))
        return

    def wipe():
        for p in C.files_under(arch, idx, watch[2]):
            if p != path and not (fmt == "folder" and p.startswith(path + "/")):
                os.unlink(p)

    f = sim.fault
    for _ in range(4 if sim.tier == "quick" else 8):
        if f.draw(3) != 2:
            wipe()  # otherwise: the next interruption meets the earlier index or its remains
            fresh = True
        else:
            fresh = False
        for attempt_no in range(1 + (f.draw(3) == 2)):
            setup()
            kind = f.weighted([(6, "crash"), (2, "crash-torn"), (1, "interrupt"), (2, "EIO"), (1, "EIO-from"), (2, "ENOSPC"),
                               (1, "short"), (1, "readonly-folder")])
            n = max(1, total[where])
            at = f.draw(n + 1)
            interrupt = None
            if kind == "crash":
                shim.plan(MUT, where, at, CRASH_BEFORE if f.draw(2) == 0 else CRASH_AFTER, n=None)
            elif kind == "crash-torn":
                shim.plan(MUT, where, at, CRASH_TORN, arg=4096 * f.draw(4), n=None)
            elif kind == "EIO":
                shim.plan(MUT, where, at, ERR, errno.EIO, kinds=("write", "pwrite", "truncate", "sync", "create", "open"))
            elif kind == "EIO-from":
                shim.plan(MUT, where, at, ERR, errno.EIO, n=None, kinds=("write", "pwrite", "truncate"))
            elif kind == "ENOSPC":
                shim.shm.budget[where] = f.draw(1 + min(1 << 21, 5000 * n))
            elif kind == "short":
                shim.plan(MUT, where, at, SHORT, arg=1 + f.draw(3000), n=1 + f.draw(4), kinds=("write", "pwrite"))
            elif kind == "readonly-folder":
                shim.plan(MUT, where, 0, ERR, errno.EACCES, n=None, kinds=("create", "open", "mkdir", "write", "pwrite"))
            elif kind == "interrupt":
                interrupt = 1 + f.draw(6000)
            out, st = attempt(sim, path, opts, None, interrupt)
            hit = st == "killed" or shim.total_hits() or kind in ("ENOSPC", "interrupt")
            if hit:
                sim.injected(kind)
            left = sorted(os.path.basename(p) for p in C.files_under(arch, idx, watch[2])
                          if p != path and not (fmt == "folder" and p.startswith(path + "/")))
            what = out[-1][0] if out else "-"
            sim.trace(f"{kind} at {at}/{n} {'fresh' if fresh else 'over remains'} -> {st} {what if st != 'exc' else out[-1][1:3]} left {left}")
            if st == "ok" and out and out[-1][0] == "dump":
                # an error while the index is written may make ratarmount fall back to another back end,
                # which knows less metadata; names, kinds, link targets and contents have to be right anyway
                d = view.diff(view.basic(out[-1][1]), view.basic(ref))
                if d:
                    alt = fallback_reference(sim, path, opts)
                    if alt and not view.diff(view.basic(out[-1][1]), view.basic(alt)):
                        sim.probe("fallback-back-end")
                        d = ""
                sim.check(not d, "faulted-mount-shows-wrong-tree", lambda: f"{fmt} {opts} {kind} at {at}: {d}")
            if st.startswith("signal"):
                sim.fail("process-died", f"{fmt} {opts} {kind} at {at}: {st}")
            if st == "killed":
                sim.probe("killed")
            if left:
                sim.probe("remains-on-disk")
            sim.state(fmt, kind, st, what, tuple(left), opts.get("hashes"), opts["indexMinimumFileCount"])
        # restart without faults: twice, the second one on whatever the first one left
        for k in range(2):
            shim.reset(())
            st, got = C.phase_dump(path, opts)
            sim.check(st == "ok", "mount-after-interruption-fails", lambda: f"{fmt} {opts} after {kind} at {at}: {got}")
            d = view.diff(got, ref)
            sim.check(not d, "mount-after-interruption-shows-wrong-tree",
                      lambda: f"{fmt} {opts} after {kind} at {at} (mount {k + 1}): {d}")


def faulty(sim):
    scenario(sim, True)


def clean(sim):
    scenario(sim, False)


CONFIGS = {"faults": faulty, "clean": clean}
RUNS = {"quick": {"clean": 40, "faults": 260}, "thorough": {"clean": 400, "faults": 6000}}
