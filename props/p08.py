"""P08: a crash or storage error in the write overlay never loses or corrupts what it already holds."""
import base64
import errno
import os
import shutil
import subprocess

from dst import archives as A
from dst.kernel import KErr
from dst.shim import CRASH_AFTER, CRASH_BEFORE, CRASH_TORN, ERR, MUT, SHORT
from dst.sim import fork_phase

from . import overlay as O
from . import p07

PROP = "P08"
LEVEL = "exploration"
RULE = "distinct (operation in flight, kind of fault, system call hit, outcome, old/new/partial state seen) tuples"
REAL = p07.REAL
STUB = p07.STUB + ["process kill: the process ends at a chosen system call; completed calls survive, torn at a chosen length"]
ASSUMPTIONS = p07.ASSUMPTIONS + ["process-kill crash model, no power loss",
                                 "a renamed file may lose a changed owner, mode or time when killed within the rename"]
CHANGES = ("write", "create", "unlink", "rename", "mkdir", "rmdir", "truncate", "chmod", "chown", "utimens", "symlink", "link",
           "mkfifo")


def rows(w, dumped, shared):
    return {p: O.clean(r, p in shared) for p, r in dumped.items()}


class History:
    """Operations with the states of the reference before and after each."""

    def __init__(self, sim, s, w):
        self.sim, self.s, self.w = sim, s, w
        self.ops = O.Ops(sim, s, w)
        self.lower = set(self.ops.paths())
        self.items = []          # (description, fn, outcome on the reference)
        self.states = []         # rows
        self.raws = []           # contents of files
        self.inodes = []
        self.snapshot()

    def shared(self):
        out = set()
        for p in self.ops.paths():
            a = self.w.ref.lstat(p)
            if self.ops.kind(p) == "f" and a["st_nlink"] > 1:
                self.w.linked.add(a["st_ino"])
            if a["st_ino"] in self.w.linked:
                out.add(p)
        return out

    def snapshot(self):
        sh = self.shared()
        self.states.append((rows(self.w, O.dump(self.w.ref), sh), sh))
        self.inodes.append({p: self.w.ref.lstat(p)["st_ino"] for p in self.ops.paths()})

    def add(self):
        op = self.ops.draw()
        if op is None or isinstance(op[1], tuple):
            return False
        desc, fn = op
        what = desc.split(" ")[0]
        if what not in CHANGES or what == "rm" or "\n" in desc:
            return False
        if what == "link" and desc[5:].split(" /")[0] in self.lower:
            return False
        if what == "rename":
            a, b = desc[len("rename "):].split(" -> ")
            if self.ops.kind(a) == "d" and any(x == c or x.startswith(c + "/") for x in self.lower for c in (a, b)):
                return False
        paths = {"rename": lambda: desc[7:].split(" -> "), "symlink": lambda: [desc[8:].split(" -> ")[0]],
                 "link": lambda: ["/" + x if i else x for i, x in enumerate(desc[5:].split(" /"))]}.get(what)
        raw = {}
        for p in (paths() if paths else [self.path(desc)]):
            if self.ops.kind(p) == "f":
                raw[p] = self.w.ref.read_all(p)
        out = self.ops.run(self.w.ref, fn)
        for p in (paths() if paths else [self.path(desc)]):
            if self.ops.kind(p) == "f":
                raw[p + "#after"] = self.w.ref.read_all(p)
        self.raws.append(raw)
        self.items.append((desc, fn, list(out)))
        self.snapshot()
        return True

    @staticmethod
    def path(desc):
        """The single path of an operation (new names may contain a blank)."""
        what, rest = desc.split(" ", 1)
        strip = {"write": 2, "create": 2, "chmod": 1, "chown": 2, "utimens": 1, "truncate": 1, "mkdir": 1}.get(what, 0)
        return " ".join(rest.split(" ")[:len(rest.split(" ")) - strip])


def in_flight(desc, i, H, got, raw):
    """Differences that an operation cut short does not explain."""
    before, after = H.states[i][0], H.states[i + 1][0]
    shared = H.states[i + 1][1] | H.states[i][1]
    what = desc.split(" ")[0]
    bad = []
    loose = set()
    if what in ("write", "create", "truncate"):
        p = H.path(desc)
        ino = H.inodes[i].get(p)
        loose = {q for q, n in H.inodes[i].items() if n == ino} | {p}
    if what == "rename":
        a, b = desc[7:].split(" -> ")
        loose = {x for x in set(before) | set(after) if x in (a, b) or x.startswith(a + "/") or x.startswith(b + "/")}
    for p in sorted(set(got) | set(before) | set(after)):
        g, b, a = got.get(p), before.get(p), after.get(p)
        if p in shared:
            g, b, a = ({k: v for k, v in r.items() if k not in ("perm", "uid", "gid", "mtime")} if r else r for r in (g, b, a))
        if g == b or g == a:
            continue
        if p in loose and what in ("write", "create", "truncate"):
            if g and g["kind"] == "file" and partial(desc, H.raws[i], H.path(desc), raw.get(p), b, a) \
                    and all(g.get(k) in ((b or a or {}).get(k), (a or b or {}).get(k)) for k in ("perm", "uid", "gid")) \
                    and g.get("mtime") in ((b or {}).get("mtime"), "now", (a or {}).get("mtime")):
                continue
        if p in loose and what == "rename" and g:
            core = lambda r: r and {k: v for k, v in r.items() if k not in ("perm", "uid", "gid", "mtime")}  # noqa: E731
            if core(g) in (core(b), core(a)):
                continue
        bad.append(f"{p}: shown {g}, before {b}, after {a}")
    if what == "rename" and not bad:
        a, b = desc[7:].split(" -> ")
        if got.get(a) is None and before.get(a) is not None and got.get(b) is None:
            bad.append(f"{a}: neither at the old nor at the new path")
        elif got.get(a) is None and before.get(a) is not None:
            core = lambda r: r and {k: v for k, v in r.items() if k not in ("perm", "uid", "gid", "mtime")}  # noqa: E731
            if core(got[b]) != core(after.get(b)):
                bad.append(f"{a}: gone although {b} does not hold it: {got[b]}")
    return bad


def partial(desc, raws, p, g, b, a):
    """Whether contents g come from carrying out a part of the operation."""
    if g is None:
        return False
    old, new = raws.get(p), raws.get(p + "#after")
    if g == old or g == new:
        return True
    what = desc.split(" ")[0]
    if what == "truncate" or new is None:
        return False
    old = old or b""
    if what == "create":
        n = int(desc.rsplit(" ", 1)[1])
        off, trunc = 0, True
    else:
        mode, rest = desc.rsplit(" ", 2)[1:]
        n, off = (int(x) for x in rest.split("@"))
        trunc = mode.startswith("w")
        if mode == "a":
            off = len(old)
    if trunc and g == b"":
        return True
    data = new[off:off + n]
    for base in ([b"", old] if trunc else [old]):
        # the longest prefix of the data that can have been written
        if len(g) > max(len(base), off + n):
            continue
        k = min(n, max(0, len(g) - off))
        while k >= 0:
            x = base + b"\0" * max(0, off - len(base)) if k else base
            x = x[:off] + data[:k] + x[off + k:]
            if x == g:
                return True
            k -= 1
    return False


def child(w, H, first, last, final_dump=True):
    """Mounts, carries out operations first..last-1, and shows the tree."""
    def body(report):
        sim = w.sim
        sim.shim.arm()
        w.mount()
        report(["mounted"])
        for i in range(first, last):
            desc, fn, want = H.items[i]
            report(["start", i])
            raw = len(w.k.raw)
            r = list(H.ops.run(w.k, fn))
            report(["done", i, r])
            if len(w.k.raw) > raw:
                report(["raw", [str(x)[:300] for x in w.k.raw[raw:]]])
            if r != want:
                break
        sim.shim.disarm()
        if final_dump:
            report(["tree", O.dump(w.k)])
        sim.shim.arm()
        w.unmount()
        sim.shim.disarm()
        report(["unmounted"])
    return fork_phase(body)


def look(w, paths=(), probe=False):
    """Mounts without faults, shows the tree and optionally works on it."""
    def body(report):
        w.sim.shim.disarm()
        w.mount()
        t = O.dump(w.k)
        raw = {}
        for p in paths:
            try:
                raw[p] = base64.b64encode(w.k.read_all(p)).decode()
            except KErr:
                pass
        report(["tree", t, raw])
        if probe:
            n = w.k.open("/probe of p08", os.O_CREAT | os.O_RDWR | os.O_EXCL, 0o640)
            w.k.pwrite(n, b"works", 0)
            w.k.close(n)
            report(["probe", w.k.read_all("/probe of p08").decode()])
            w.k.unlink("/probe of p08")
            report(["tree2", O.dump(w.k)])
        w.unmount()
    return fork_phase(body)


def find(out, key):
    return next((x for x in reversed(out) if x[0] == key), None)


def histories(sim):
    s, f = sim.ops, sim.fault
    w = O.World(sim, s)
    fmt = p07.setup(sim, s, w)
    # the reference tree, from a mount with another overlay
    ov, w.ov = w.ov, sim.mkdir("scratch-overlay")
    w.mount()
    w.make_reference()
    w.unmount()
    w.ov = ov
    H = History(sim, s, w)
    n0 = s.draw(8)
    n = n0 + 1 + s.draw(5)
    tries = 0
    while len(H.items) < n and tries < 60:
        H.add()
        tries += 1
    if len(H.items) <= n0:
        n0 = 0
    n = len(H.items)
    for d, _, r in H.items:
        sim.trace(d, r)

    def compare(got, i, kind, message):
        g = rows(w, got, H.states[i][1])
        want = H.states[i][0]
        lines = [f"{p}: shown {g.get(p)}, expected {want.get(p)}" for p in sorted(set(g) | set(want)) if g.get(p) != want.get(p)]
        sim.check(not lines, kind, lambda: f"{fmt}: {message}: " + "; ".join(lines[:4]))

    trail = [d for d, _, _ in H.items]
    sim.shim.reset(())
    out, st = child(w, H, 0, n0)
    sim.check(st == "ok" and find(out, "tree"), "undisturbed-run-fails", lambda: f"{trail[:n0]}: {st} {out[-1:]}")
    compare(find(out, "tree")[1], n0, "undisturbed-tree-differs", f"after {trail[:n0]}")
    saved = sim.path("saved-overlay")
    subprocess.run(["cp", "-a", w.ov, saved], check=True)

    def restore():
        shutil.rmtree(w.ov)
        subprocess.run(["cp", "-a", saved, w.ov], check=True)

    sim.shim.reset([w.ov])
    out, st = child(w, H, n0, n)
    total = sim.shim.count(MUT, 0)
    sim.check(st == "ok" and find(out, "tree"), "undisturbed-run-fails", lambda: f"{trail}: {st} {out[-1:]}")
    done = sum(x[0] == "done" for x in out)
    sim.check(done == n - n0 and all(x[2] == H.items[x[1]][2] for x in out if x[0] == "done"), "undisturbed-outcome-differs",
              lambda: f"{trail}: {out[-3:-2]} expected {H.items[n0 + done - 1][2]}")
    compare(find(out, "tree")[1], n, "undisturbed-tree-differs", f"after {trail}")
    sim.trace("mutating calls", total, "in", n - n0, "operations")
    for _ in range(8 if sim.tier == "quick" else 16):
        restore()
        sim.shim.reset([w.ov])
        kind = f.weighted([(6, "crash"), (2, "crash-torn"), (4, "EIO"), (1, "EIO-for-a-while"), (2, "ENOSPC"), (2, "short-write"),
                           (1, "EDQUOT-on-create"), (1, "EROFS")])
        at = f.draw(total + 1)
        arg = f.draw(2)
        if kind == "crash":
            sim.shim.plan(MUT, 0, at, [CRASH_BEFORE, CRASH_AFTER][arg], n=None)
        elif kind == "crash-torn":
            sim.shim.plan(MUT, 0, at, CRASH_TORN, arg=[0, 1, 100, 512, 1000, 4096][f.draw(6)], n=None)
        elif kind == "EIO":
            sim.shim.plan(MUT, 0, at, ERR, errno.EIO)
        elif kind == "EIO-for-a-while":
            sim.shim.plan(MUT, 0, at, ERR, errno.EIO, n=2 + f.draw(20))
        elif kind == "EROFS":
            sim.shim.plan(MUT, 0, at, ERR, errno.EROFS, n=None)
        elif kind == "EDQUOT-on-create":
            sim.shim.plan(MUT, 0, at, ERR, errno.EDQUOT, n=None, kinds=("create", "mkdir", "symlink", "link", "mknod"))
        elif kind == "ENOSPC":
            sim.shim.shm.budget[0] = f.draw(1 + f.draw(40_000))
        else:
            sim.shim.plan(MUT, 0, at, SHORT, arg=1 + f.draw(1500), n=1 + f.draw(3), kinds=("write", "pwrite"))
        out, st = child(w, H, n0, n)
        hit = st == "killed" or sim.shim.total_hits() or kind == "ENOSPC"
        call = next((x[0] + ":" + os.path.basename(x[1])[-12:] for x in reversed(sim.shim.log()) if x[4]), "-")
        if hit:
            sim.injected(kind)
        acked = [x for x in out if x[0] == "done"]
        i = n0 + sum(x[2] == H.items[x[1]][2] for x in acked)  # operations 0..i-1 are completed
        started = find(out, "start")
        flight = started is not None and started[1] >= i
        sim.trace(f"{kind} at {at}/{total} {call} -> {st}, completed {i - n0} of {n - n0}", "in flight: " + H.items[i][0] if flight else "")
        context = f"{fmt}: after {trail[:i]}, {kind} at call {at} ({call})" + (f" during {H.items[i][0]}" if flight else "")
        sim.check(st in ("ok", "killed", "exc"), "process-died", lambda: f"{context}: {st}")
        if st == "exc":
            # mounting or unmounting may fail, operations may not end the process
            sim.check(not find(out, "mounted") or find(out, "tree"), "operation-crashes", lambda: f"{context}: {out[-1][1:]}")
        sim.shim.reset(())

        paths = set()
        if flight:
            what = H.items[i][0].split(" ")[0]
            if what in ("write", "create", "truncate"):
                p = H.path(H.items[i][0])
                paths = {q for q, x in H.inodes[i].items() if x == H.inodes[i].get(p)} | {p}
        back, st2 = look(w, sorted(paths), probe=True)
        sim.check(st2 == "ok" and find(back, "tree"), "mount-after-interruption-fails", lambda: f"{context}: {st2} {back[-1:]}")
        tree = find(back, "tree")
        raw = {p: base64.b64decode(x) for p, x in tree[2].items()}
        verdict = "-"
        if flight:
            got = rows(w, tree[1], H.states[i + 1][1] | H.states[i][1])
            bad = in_flight(H.items[i][0], i, H, got, raw)
            sim.check(not bad, "interrupted-operation-damages", lambda: f"{context} (outcome {(acked or [None])[-1]}): {'; '.join(bad[:4])}")
            ended = find(out, "tree")
            if ended:
                g1, g2 = dict(ended[1]), dict(tree[1])
                diff = [p for p in sorted(set(g1) | set(g2)) if O.clean(g1[p]) if p in g1 if p not in g2 or O.clean(g1[p]) != O.clean(g2[p])]
                diff += [p for p in g2 if p not in g1]
                sim.check(not diff, "remount-after-error-differs", lambda: f"{context} (outcome {acked[-1]}): " + "; ".join(
                    f"{p}: before the remount {g1.get(p)}, after {g2.get(p)}" for p in diff[:3]))
            full = {p: r for p, r in got.items()}
            verdict = "new" if full == H.states[i + 1][0] else "old" if full == H.states[i][0] else "partial"
        else:
            compare(tree[1], i, "completed-operation-lost", context)
            if find(out, "tree"):
                compare(find(out, "tree")[1], i, "tree-differs", context)
        sim.check(find(back, "probe")[1] == "works", "mount-not-working", lambda: context)
        t2 = find(back, "tree2")[1]
        c = lambda t: {p: O.clean(r) for p, r in t.items()}  # noqa: E731
        sim.check(c(t2) == c(tree[1]), "mount-not-working", lambda: f"{context}: creating and removing a file changes others")
        sim.probe(f"state-{verdict}")
        if st == "killed":
            sim.probe("killed")
        sim.state(H.items[i][0].split(" ")[0] if flight else "-", kind, call.split(":")[0], st, verdict)


CONFIGS = {"faults": histories}
RUNS = {"quick": {"faults": 190}, "thorough": {"faults": 12000}}
