"""P02: a stored index is never used for an archive it no longer describes."""
import os
import random
import tarfile

from dst import archives as A
from dst import view
from dst.shim import CRASH_AFTER, CRASH_BEFORE, MUT

from . import common as C

PROP = "P02"
LEVEL = "exploration"
RULE = "distinct (format, last four steps of the history, outcome) combinations"
REAL = ["index creation, loading, validation and TAR append detection of ratarmountcore, all archive back ends",
        "SQLite, decompression libraries, a real file system below the scratch directory"]
STUB = ["process kills during mounts (LD_PRELOAD seam)", "archive modification times and wall clock are set by the simulator"]
ASSUMPTIONS = ["content changes that keep the size are only required to be noticed when the modification time changed and "
               "its verification is on"]

FORMATS = ["tar", "zip", "tar.gz", "tar.bz2", "tar.zst", "tar.xz", "single.gz", "single.bz2", "ar", "sqlar", "asar", "cpio",
           "folder", "tarpax", "nested"]


class Big:
    """An uncompressed TAR beyond the thresholds of append detection, kept small on disk with holes."""

    def __init__(self, sim, path):
        s = sim.data
        self.path = path
        n = 100 + s.draw(30)
        self.count = 0
        items = []
        for i in range(n):
            items.append(self.member(s))
        if s.draw(2):
            items.insert(s.draw(n), ("huge", A.Node("file", data=b"\0" * (60 << 20))))
            pad = 5 << 20
        else:
            pad = 65 << 20
        b = A.tar_bytes(items, end_blocks=False)
        self.end = len(b)
        with open(path, "wb") as f:
            for k in range(0, len(b), 1 << 16):  # keep holes
                c = b[k:k + (1 << 16)]
                if c.count(0) != len(c):
                    f.seek(k)
                    f.write(c)
            f.truncate(-(-(self.end + pad) // 10240) * 10240)
        self.names = [p for p, _ in items if p != "huge"]

    def member(self, s):
        self.count += 1
        d = ["", "dir/", "dir/sub/", f"d{s.draw(30)}/"][s.draw(4)]
        k = s.draw(10)
        p = d + A.NAMES[s.draw(len(A.NAMES))] + str(self.count)
        if k == 9:
            return p, A.Node("dir", mtime=A.BASE_TIME + self.count)
        if k == 8:
            return p, A.Node("link", target="a1", mode=0o777, mtime=A.BASE_TIME + self.count)
        return p, A.Node("file", data=A.content(s, s.draw(1200)), mtime=A.BASE_TIME + self.count)

    def append(self, s):
        items = []
        for _ in range(1 + s.draw(4)):
            if s.draw(3) == 2:
                items.append((self.names[s.draw(len(self.names))], A.Node("file", data=A.content(s, s.draw(900)),
                                                                        mtime=A.BASE_TIME + 7777)))
            else:
                items.append(self.member(s))
        b = A.tar_bytes(items, end_blocks=False)
        size = os.stat(self.path).st_size
        with open(self.path, "r+b") as f:
            f.seek(self.end)
            f.write(b)
            self.end += len(b)
            f.truncate(-(-(max(size, self.end) + 1024) // 10240) * 10240 + 10240 * (1 + s.draw(3)))
        return [p for p, _ in items]


def scenario(sim, big=False, kills=False):
    s = sim.ops
    fmt = "tar" if big else FORMATS[s.draw(len(FORMATS))]
    arch, idx = sim.mkdir("arch"), sim.mkdir("idx")
    path = os.path.join(arch, "data" + C.suffix(fmt))
    base = {"parallelization": 1}
    if fmt == "nested":
        base["recursive"] = True
    if fmt == "folder":
        base["forceFolderIndex"] = True
    where = s.draw(4)
    if where == 0:
        base["indexFolders"] = [idx]
    elif where == 1:
        base["indexFilePath"] = os.path.join(idx, "x.index.sqlite")
    elif where == 2:
        base["indexFolders"] = ["", idx]
    tree = None
    if big:
        bigtar = Big(sim, path)
    else:
        tree = C.make_archive(sim, sim.data, fmt, path, many=s.draw(6) == 5 and not fmt.startswith("single"))
    mtime = [A.BASE_TIME]
    os.utime(path, (mtime[0], mtime[0]))
    gen = 0
    created = []   # (size, mtime, generation) of every index that may still exist
    counter = [0]
    trail = []

    def stat():
        st = os.stat(path)
        return st.st_size, st.st_mtime_ns

    def set_mtime(t):
        mtime[0] = t
        os.utime(path, ns=(int(t * 10 ** 9), int(t * 10 ** 9)))

    def rewrite(same_size):
        """New contents for the archive. same_size: change bytes of members without changing any size."""
        nonlocal tree
        counter[0] += 1
        t = dict(tree)
        files = [p for p, n in t.items() if n.kind == "file"]
        how = "swap" if same_size else s.pick(["add", "remove", "resize", "replace"])
        if how == "remove" and len(files) < 2:
            how = "add"
        if how == "swap":
            cand = [p for p in files if t[p].data]
            if not cand:
                return None
            p = s.pick(cand)
            d = t[p].data
            t[p] = A.Node("file", data=bytes(x ^ (counter[0] % 255 + 1) for x in d), mode=t[p].mode, mtime=t[p].mtime)
        elif how == "add":
            for k in range(1 + s.draw(3)):
                t[f"new{counter[0]}-{k}" + "y" * s.draw(90)] = A.Node("file", data=A.content(s, s.draw(3000)), mtime=A.BASE_TIME + counter[0])
        elif how == "remove":
            del t[s.pick(files)]
        elif how == "resize":
            p = s.pick(files)
            t[p] = A.Node("file", data=A.content(s, len(t[p].data) + 512 + s.draw(2000)), mode=t[p].mode, mtime=t[p].mtime + 1)
        else:
            t = {f"r{counter[0]}-{k}": A.Node("file", data=A.content(s, s.draw(3000)), mtime=A.BASE_TIME + k)
                 for k in range(1 + s.draw(12))}
        if fmt == "folder":
            import shutil
            for base_, ds, fs in os.walk(path):
                os.chmod(base_, 0o700)
            shutil.rmtree(path)
        C.write_archive(fmt, path, t)
        tree = t
        set_mtime(mtime[0])
        return how

    def mount(verify=False, recreate=False, write=True, kill=None):
        o = dict(base, writeIndex=write, indexMinimumFileCount=[0, 5, 60][s.draw(3)])
        if verify:
            o["verifyModificationTime"] = True
        if recreate:
            o["clearIndexCache"] = True
        now = (*stat(), gen)
        forced = recreate or all(e[2] == gen or e[0] != now[0] or (verify and e[1] != now[1]) for e in created)
        if kill is not None:
            def body(report):
                sim.shim.arm()
                C.mount_dump(path, o)
            from dst.sim import fork_phase
            areas = [arch, idx]
            sim.shim.reset(areas)
            sim.shim.plan(MUT, kill[0], kill[1], kill[2], n=None)
            _, st = fork_phase(body)
            sim.shim.reset(())
            if st == "killed":
                sim.injected("kill")
            created.append(now)
            return f"mount killed={st}"
        st, got = C.phase_dump(path, o, sim)
        ref_o = {k: v for k, v in base.items() if k != "indexFolders"}
        st2, want = C.phase_dump(path, dict(ref_o, indexFilePath=":memory:", writeIndex=False))
        if st2 != "ok":
            sim.fail("reference-mount-failed", f"{fmt}: {st2} {want}")
        ctx = f"{fmt} {o} after {trail[-6:]}"
        if forced:
            sim.check(st == "ok", "mount-fails", lambda: f"{ctx}: {got}")
            d = view.diff(got, want)
            sim.check(not d, "stale-or-wrong-index-used", lambda: f"{ctx}: {d}")
            sim.probe("compared")
        else:
            # reading through an index that is allowed to be outdated may fail in any way
            sim.probe("stale-allowed")
        if write or recreate or fmt == "folder":  # (folders are always indexed to a file)
            # a recreation removes what it finds at the configured places
            if recreate:
                created.clear()
            if forced or recreate:
                created[:] = [e for e in created if e[2] == gen] if where in (0, 1, 3) and not kills else created
            created.append(now)
        sim.state(fmt, tuple(trail[-4:]), st, forced)
        return f"mount verify={verify} recreate={recreate} write={write} forced={forced}"

    steps = 3 + s.draw(6) if not big else 3 + s.draw(4)
    mount()
    for _ in range(steps):
        k = s.draw(12) if not kills else [0, 1, 4, 4, 4, 5, 6, 8, 9, 10, 11, 4][s.draw(12)]
        if k <= 3:
            what = mount(verify=s.draw(2) == 1, recreate=s.draw(6) == 5, write=s.draw(4) != 3)
        elif k == 4 and kills:
            what = mount(verify=s.draw(2) == 1, recreate=s.draw(6) == 5,
                         kill=(0 if where == 3 else 1, sim.fault.draw(250), CRASH_BEFORE if sim.fault.draw(2) else CRASH_AFTER))
        elif k == 5:
            # only the modification time changes
            set_mtime(mtime[0] + [1, -1, 0.001, -0.001, 86400, -86400][s.draw(6)])
            if fmt.startswith("single"):
                gen += 1  # the modification time is part of what is shown
            what = "touch"
        elif k == 6 and not big:
            # move archive, with the index beside it
            new = os.path.join(arch, f"moved{counter[0]}" + C.suffix(fmt))
            counter[0] += 1
            # (the name shown for a single compressed file follows the name at indexing time)
            if where == 0 or where == 2 or fmt.startswith("single"):
                what = "-"
            else:
                if where == 3:
                    for sfx in (".index.sqlite",):
                        if os.path.exists(path + sfx):
                            os.rename(path + sfx, new + sfx)
                os.rename(path, new)
                path = new
                what = "move"
        else:
            before = stat()
            if big:
                gen += 1
                what = f"append {len(bigtar.append(s))}"
            else:
                same = s.draw(2) == 1
                how = rewrite(same)
                if how is None:
                    what = "-"
                else:
                    gen += 1
                    what = how
            t = [1, 0, -5, 0.5][s.weighted([(5, 0), (1, 1), (1, 2), (3, 3)])]
            set_mtime(mtime[0] + t)
            what += f" size {'same' if stat()[0] == before[0] else 'changed'} mtime {t:+}"
        trail.append(what)
        sim.trace(what)
        if k > 4 and s.draw(2) == 0:
            w = mount(verify=s.draw(2) == 1, write=s.draw(4) != 3)
            trail.append(w)
            sim.trace(w)
    trail.append("end")
    mount(verify=True)
    mount(verify=True)


def histories(sim):
    scenario(sim)


def kills(sim):
    scenario(sim, kills=True)


def append(sim):
    scenario(sim, big=True)


def append_kills(sim):
    scenario(sim, big=True, kills=True)


def update_points(sim):
    """One appended TAR and its outdated index: the update is killed at many points, each time starting over."""
    from dst.sim import fork_phase
    import shutil
    arch, keep = sim.mkdir("arch"), sim.mkdir("keep")
    path = os.path.join(arch, "data.tar")
    bigtar = Big(sim, path)
    o = {"parallelization": 1, "writeIndex": True, "indexMinimumFileCount": 0}
    idx = path + ".index.sqlite"
    st, _ = C.phase_dump(path, o, sim)
    if st != "ok" or not os.path.exists(idx):
        sim.fail("mount-fails", f"{st} {_}")
    shutil.copyfile(idx, os.path.join(keep, "x"))
    bigtar.append(sim.data)
    st, want = C.phase_dump(path, {"parallelization": 1, "indexFilePath": ":memory:", "writeIndex": False})

    def restore():
        for f in os.listdir(arch):
            if f != "data.tar":
                os.remove(os.path.join(arch, f))
        shutil.copyfile(os.path.join(keep, "x"), idx)

    def body(report):
        sim.shim.arm()
        C.mount_dump(path, o)

    def attempt(at, mode):
        restore()
        sim.shim.reset([arch])
        if at is not None:
            sim.shim.plan(MUT, 0, at, mode, n=None)
        _, st = fork_phase(body)
        n = sim.shim.count(MUT, 0)
        sim.shim.reset(())
        return st, n
    st, total = attempt(None, None)
    sim.check(st == "ok", "mount-fails", st)
    for _ in range(24 if sim.tier == "quick" else 80):
        at, mode = sim.fault.draw(total + 1), CRASH_BEFORE if sim.fault.draw(2) else CRASH_AFTER
        st, _n = attempt(at, mode)
        sim.trace("kill at", at, "of", total, st)
        if st == "killed":
            sim.injected("kill")
        sim.state("update", st, at * 10 // (total + 1))
        for again in range(2):
            st, got = C.phase_dump(path, o, sim)
            sim.check(st == "ok", "mount-fails", lambda: f"after a kill at {at}/{total} of the update: {got}")
            d = view.diff(got, want)
            sim.check(not d, "stale-or-wrong-index-used", lambda: f"after a kill at {at}/{total} of the update: {d}")


CONFIGS = {"update_points": update_points, "histories": histories, "kills": kills, "append": append, "append_kills": append_kills}
RUNS = {"quick": {"histories": 160, "kills": 80, "append": 30, "append_kills": 12, "update_points": 10},
        "thorough": {"histories": 5000, "kills": 3000, "append": 600, "append_kills": 400, "update_points": 200}}
