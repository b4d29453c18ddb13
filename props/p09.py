"""P09: committing an overlay makes the archive equal to the merged view."""
import builtins
import errno
import os
import random
import shutil
import subprocess
import tarfile
import tempfile

from dst import archives as A
from dst.shim import CRASH_AFTER, CRASH_BEFORE, CRASH_TORN, ERR, KILL_SELF, MUT, READ, SHORT
from dst.sim import fork_phase

from . import overlay as O
from . import p07

PROP = "P09"
LEVEL = "exploration"
RULE = "distinct (archive layout, kinds of overlay changes, kind of fault, system call hit, outcome) tuples"
REAL = ["commit_overlay, WritableFolderMountSource, FuseMount and the back ends", "GNU tar, run below the system-call seam",
        "SQLite metadata database and overlay folder on a real file system"]
STUB = ["the confirmation prompt (answered by the simulator)", "process kill: Python and tar die at a chosen system call"]
ASSUMPTIONS = ["names, kinds, link targets and contents are compared; tar does not store the changed metadata of archive members",
               "member names as ratarmount's default encoding stores them"]


def basic(d):
    return {p: {k: v for k, v in r.items() if k in ("kind", "size", "data", "link")} for p, r in d.items()}


def show(w, overlay):
    """The tree: ('ok', rows) or the error."""
    def body(report):
        w.sim.shim.disarm()
        w.overlay = overlay
        w.mount()
        report(["tree", O.dump(w.k)])
        w.unmount()
    out, st = fork_phase(body)
    return (st, out[-1][1]) if st == "ok" else (st, out[-1:])


def commit(w, answer):
    from ratarmount.WriteOverlay import commit_overlay

    def body(report):
        def reply(prompt=""):
            if answer is EOFError:
                raise EOFError
            return answer
        builtins.input = reply
        tempfile._name_sequence = tempfile._RandomNameSequence()
        tempfile._name_sequence._rng_pid = os.getpid()
        tempfile._name_sequence._rng = random.Random(1)
        w.sim.shim.shm.killgroup = 1
        w.sim.shim.arm()
        os.environ["LANG"] = "C.UTF-8"
        try:
            commit_overlay(w.ov, w.sources[0])
        finally:
            w.sim.shim.disarm()
        report(["done"])
    return fork_phase(body)


def scenario(sim, faults):
    s, f = sim.ops, sim.fault
    w = O.World(sim, s)
    t = O.make_tree(sim, sim.data)
    files = [p for p, n in t.items() if n.kind == "file"]
    for i in range(s.draw(4) if s.draw(2) else 0):
        p = (["", "hl/"][s.draw(2)]) + f"hard{i}"
        if p not in t and t.get("hl", A.Node("dir")).kind == "dir":
            t[p] = A.Node("hard", target=s.pick(files))
    odd = []
    if s.draw(3) == 1:  # names that are special to tar, and others which they would match
        for n in s.pick([["st*", "stone"], ["[ab]x", "ax", "bx"], ["q?", "qq"], ["Case", "case"], ["b\\141ck", "back"], ["-C", "C"], ["--x", "x--x"], ["t\tb", "t\\tb"],
                         [".ratarmount", "ratarmount"]]):
            if n not in t:
                odd.append(n)
                t[n] = A.Node("file", data=A.content(s, 1 + s.draw(700)))
    layout = s.pick([("gnu", tarfile.GNU_FORMAT, ""), ("dot", tarfile.GNU_FORMAT, "./"), ("pax", tarfile.PAX_FORMAT, ""),
                     ("ustar", tarfile.USTAR_FORMAT, "")])
    if layout[0] == "pax":
        for i, n in enumerate(t.values()):
            if n.kind == "file" and i % 2:
                n.xattrs = {"user.x": "y" * i}
    path = os.path.join(w.arch, ["data.tar", "with blank.tar", "co:lon.tar", "-dash.tar"][s.draw(4) if s.draw(3) == 2 else 0])
    items = A.order(t)
    if s.draw(4) == 3:  # an overwritten member
        items.append((files[0], A.Node("file", data=b"newer version")))
    b = A.tar_bytes([(p, A.Node("hard", target=layout[2] + n.target, mode=n.mode, mtime=n.mtime) if n.kind == "hard" else n)
                     for p, n in items], layout[1], prefix=layout[2])
    with open(path, "wb") as o:
        o.write(b)
    os.utime(path, (A.BASE_TIME, A.BASE_TIME))
    w.sources.append(path)
    base = w.t = t
    kinds = set()
    # the changes
    w.mount()
    w.make_reference()
    ops = O.Ops(sim, s, w)
    trail = []
    for _ in range(s.draw(26)):
        op = ops.draw()
        if op is None or isinstance(op[1], tuple):
            continue
        desc, fn = op
        r = ops.run(w.k, fn)
        if r[0] != "EXDEV":
            sim.equal(r, ops.run(w.ref, fn), "operation-outcome-differs", desc)
        trail.append(f"{desc} {r[0]}")
        if r[0] == "ok":
            kinds.add(desc.split(" ")[0])
        sim.trace(desc, r[0])
    for n in odd:
        what = s.draw(4)
        if what > 1:
            continue
        def fn(fs):
            fs.unlink("/" + n)
            if what == 1:
                fs.close(fs.open("/" + n, os.O_CREAT | os.O_WRONLY, 0o644))
        ops.run(w.k, fn)
        ops.run(w.ref, fn)
        trail.append(f"{['unlink', 'replace'][what]} {n!r}")
        kinds.add("special-name")
    if s.draw(3) == 2:
        names = ["-n", "--zero", "back\\slash", "tab\there", "star*", "q?", "new\nline", "[a]", "-", "..dots", "\\n", "sp ", "ä" * 30 + "l" * 30]
        for _ in range(1 + s.draw(4)):
            n = s.pick(names)
            data = A.content(s, s.draw(600))
            for fs in (w.k, w.ref):
                def fn(fs):
                    h = fs.open("/" + n, os.O_CREAT | os.O_WRONLY, 0o644)
                    fs.pwrite(h, data, 0) if data else 0
                    fs.close(h)
                ops.run(fs, fn)
            trail.append(f"create {n!r}")
            kinds.add("odd-name")
            sim.trace(trail[-1])
    w.unmount()
    st, merged = show(w, True)
    sim.check(st == "ok", "mount-fails", lambda: f"{trail}: {merged}")
    want = basic(merged)
    sim.check(not [p for p, r in want.items() if "fails" in str(r.get("data"))], "merged-view-broken", lambda: str(want)[:600])
    saved = sim.path("saved")
    os.mkdir(saved)

    def save():
        subprocess.run(["cp", "-a", w.ov, os.path.join(saved, "overlay")], check=True)
        subprocess.run(["cp", "-a", w.arch, os.path.join(saved, "arch")], check=True)

    def restore():
        shutil.rmtree(w.ov)
        shutil.rmtree(w.arch)
        subprocess.run(["cp", "-a", os.path.join(saved, "overlay"), w.ov], check=True)
        subprocess.run(["cp", "-a", os.path.join(saved, "arch"), w.arch], check=True)

    save()
    tmp = os.environ["TMPDIR"]
    areas = [w.arch, w.ov, tmp]

    def diff(got):
        g = basic(got)
        return [f"{p}: shown {g.get(p)}, expected {want.get(p)}" for p in sorted(set(g) | set(want)) if g.get(p) != want.get(p)]

    def look(overlay, kind, context):
        if len(want) == 1:
            with tarfile.open(path) as t:  # an empty TAR is not recognized as one, so it cannot be mounted
                if not t.getnames():
                    return
        st, got = show(w, overlay)
        sim.check(st == "ok", kind, lambda: f"{context}: mounting fails: {got}")
        d = diff(got)
        sim.check(not d, kind, lambda: f"{context}: {'; '.join(d[:4])}")

    context = f"{layout[0]} {os.path.basename(path)} {sorted(base)} after {trail}"

    def bytes_of(p):
        with open(p, "rb") as o:
            return o.read()

    # declined
    if s.draw(4) == 3:
        answer = s.pick(["", "no", "commit ", "Commit", EOFError])
        sim.shim.reset(areas)
        out, st = commit(w, answer)
        sim.check(bytes_of(path) == b, "declined-commit-changes-archive", context)
        sim.equal(sorted(os.listdir(w.arch)), [os.path.basename(path)], "declined-commit-leaves-files", context)
        look(True, "declined-commit-changes-view", context)
        sim.trace("declined", repr(answer), st)
    # undisturbed
    sim.shim.reset(areas)
    out, st = commit(w, "commit")
    total = [sim.shim.count(MUT, i) for i in range(3)]
    reads = sim.shim.count(READ, 0)
    sim.trace("commit", st, total, reads)
    sim.probe(f"undisturbed-{st}")
    if st != "ok":
        # a commit may be refused; then nothing may have changed
        sim.check(False, "commit-fails", lambda: f"{context}: {out[-1:]}")
    left = sorted(os.listdir(w.arch))
    sim.equal(left, [os.path.basename(path)], "commit-leaves-files", context)
    sim.check(not os.listdir(tmp), "commit-leaves-files", lambda: f"{context}: {os.listdir(tmp)}")
    look(False, "archive-differs-after-commit", context)
    look(True, "archive-with-overlay-differs-after-commit", context)
    sim.state(layout[0], tuple(sorted(kinds)))
    if not faults:
        # committing twice changes nothing
        sim.shim.reset(areas)
        out, st = commit(w, "commit")
        sim.check(st == "ok", "commit-fails", lambda: f"second commit, {context}: {out[-1:]}")
        look(False, "archive-differs-after-second-commit", context)
        return
    for _ in range(4 if sim.tier == "quick" else 8):
        restore()
        sim.shim.reset(areas)
        kind = f.weighted([(6, "crash"), (2, "crash-torn"), (3, "EIO"), (2, "ENOSPC"), (1, "short-write"), (2, "read-EIO"), (1, "tar-killed")])
        area = f.pick([0, 0, 0, 2, 1])
        at = f.draw(total[area] + 1)
        if kind == "crash":
            sim.shim.plan(MUT, area, at, [CRASH_BEFORE, CRASH_AFTER][f.draw(2)], n=None)
        elif kind == "crash-torn":
            sim.shim.plan(MUT, area, at, CRASH_TORN, arg=[0, 1, 512, 1000, 4096][f.draw(5)], n=None)
        elif kind == "EIO":
            sim.shim.plan(MUT, area, at, ERR, errno.EIO, n=1 if f.draw(2) else None)
        elif kind == "ENOSPC":
            sim.shim.shm.budget[area] = f.draw(1 + f.draw(3 * len(b)))
        elif kind == "short-write":
            sim.shim.plan(MUT, area, at, SHORT, arg=1 + f.draw(3000), n=1 + f.draw(3), kinds=("write", "pwrite"))
        elif kind == "read-EIO":
            sim.shim.plan(READ, 0 if f.draw(2) else 1, f.draw(reads + 1), ERR, errno.EIO)
        else:
            sim.shim.plan(MUT, 0, at, KILL_SELF)
        out, st = commit(w, "commit")
        hit = st == "killed" or sim.shim.total_hits() or kind == "ENOSPC"
        if hit:
            sim.injected(kind)
        call = next((x[0] + ":" + os.path.basename(x[1])[-12:] for x in reversed(sim.shim.log()) if x[4]), "-")
        sim.trace(kind, "at", at, call, "->", st, out[-1][1:3] if st == "exc" else "")
        sim.probe(f"faulted-{st}")
        c = f"{kind} at call {at} ({call}) -> {st}, {context}"
        sim.shim.reset(())
        sim.state(kind, call.split(":")[0], st)
        if st == "ok":
            look(False, "archive-differs-after-commit", c)
        elif st != "killed":
            if not call.startswith("unlink"):  # the removal itself may have failed
                sim.equal(sorted(os.listdir(w.arch)), [os.path.basename(path)], "failed-commit-leaves-files", c)
            sim.check(kind == "tar-killed" or area == 2 or not os.listdir(tmp), "failed-commit-leaves-files", lambda: f"{c}: {os.listdir(tmp)}")
        look(True, "interrupted-commit-loses-files", c)
        out, st = commit(w, "commit")
        sim.check(st == "ok", "commit-fails", lambda: f"after {c}: {out[-1:]}")
        look(False, "archive-differs-after-repeated-commit", c)
        for base_, _, names in os.walk(tmp):
            for n in names:
                os.unlink(os.path.join(base_, n))
        for n in os.listdir(tmp):
            os.rmdir(os.path.join(tmp, n))


CONFIGS = {"commits": lambda sim: scenario(sim, False), "faults": lambda sim: scenario(sim, True)}
RUNS = {"quick": {"commits": 200, "faults": 90}, "thorough": {"commits": 6000, "faults": 5000}}
