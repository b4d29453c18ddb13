"""P13: mounts are added and removed while in use."""
import os
import posixpath
import stat
import types

from dst import archives as A
from dst.kernel import KErr, Kernel
from dst.shim import ERR, ERRNOS, READ
from dst.sim import where
from dst.view import h

from . import p15

PROP = "P13"
LEVEL = "exploration"
RULE = "distinct (kind of request, form of the path, state of the mount table, answer) tuples and distinct interleavings"
REAL = ["FuseMount with its control interface, SubvolumesMountSource, UnionMountSource, AutoMountLayer, FileVersionLayer and the mounted sources"]
STUB = ["the kernel's FUSE client (in-process)", "read errors while a source is opened (LD_PRELOAD seam)",
        "thread scheduling (line-level seeded scheduler)"]
ASSUMPTIONS = ["commands that concern other mount points start a further process and are outside",
               "the FUSE main loop runs in one thread; concurrency is checked at the level of the mount sources"]
NAMES = ["a", "b", "c", "x y", "ä"]
CONTROL = ".ratarmount-control"


def sources(sim, folder):
    """{name: (paths, recursive)}"""
    s = sim.data
    out = {}
    for i in range(3 + s.draw(3)):
        fmt = ["tar", "zip", "folder", "tar.zst", "tar.xz", "nested", "nested"][s.draw(7)]
        t = A.tree(s, max_files=5, max_size=3000, links=fmt in ("tar", "folder"))
        t[f"id{i}"] = A.Node("file", data=b"source %d" % i)
        from .common import suffix, write_archive
        p = os.path.join(folder, f"s{i}" + suffix(fmt))
        write_archive(fmt, p, t)
        out[p] = fmt
    return out


def sub(tree, mp):
    """The walk of a source as seen below a mount point."""
    return {(mp + p).rstrip("/"): x for p, x in tree.items()}


def expected(mounts, trees):
    """{path: node} for a mount table; folders above mount points have unknown attributes."""
    out = {"/": ["dir", set(), None]}
    for mp, key in mounts.items():
        parts = mp.strip("/").split("/")
        for i in range(len(parts)):
            d = "/" + "/".join(parts[:i])
            out.setdefault(d, ["dir", set(), None])[1].add(parts[i])
    out = {p: (x[0], sorted(x[1]), None) for p, x in out.items()}
    for mp, key in mounts.items():
        out.update(sub(trees[key], mp))
    return out


def node(k, p):
    a = k.lstat(p)
    key = (a["st_size"], a["st_mode"], a["st_mtime"], a["st_uid"], a["st_gid"])
    if stat.S_ISDIR(a["st_mode"]):
        return ("dir", sorted(n for n in k.listdir(p) if p != "/" or n != CONTROL), key)
    if stat.S_ISLNK(a["st_mode"]):
        return ("link", k.readlink(p), key)
    return ("file", k.read_all(p), key)


def same(got, want):
    return got[:2] == want[:2] and (want[2] is None or want[0] == "dir" or got[2] == want[2])


def command(fm, args, s):
    """Writes a command line; delimiters and the number of writes vary."""
    delimiter = [b" ", b"\n", b"\0"][s.draw(3)]
    if any(" " in a for a in args) and delimiter == b" ":
        delimiter = b"\0"
    line = b"ratarmount" + b"".join(delimiter + a.encode() for a in args)
    if delimiter == b" " and s.draw(2):
        line += b"\n"
    path = f"/{CONTROL}/command"
    fh = fm.open(path, os.O_WRONLY)
    if s.draw(3) == 2:
        cut = s.draw(len(line))
        fm.write(path, line[:cut], 0, fh)
        fm.write(path, line[cut:], cut, fh)
    else:
        fm.write(path, line, 0, fh)
    fm.flush(path, fh)
    fm.release(path, fh)


def history(sim):
    import ratarmount.FuseMount
    from ratarmount.FuseMount import FuseMount
    s = sim.ops
    started = []
    ratarmount.FuseMount.subprocess = types.SimpleNamespace(Popen=lambda *a, **k: started.append(a), PIPE=None)
    arch, mp = sim.mkdir("arch"), sim.mkdir("mp")
    srcs = sources(sim, arch)
    paths = sorted(srcs)
    garbage = os.path.join(arch, "garbage.tar")
    with open(garbage, "wb") as f:
        f.write(b"no archive" * 200)
    mode = s.draw(6)
    opts = dict(controlInterface=True, indexFilePath=":memory:", parallelization=1)
    lazy = s.draw(3) == 2
    if lazy:
        opts.update(recursive=True, lazyMounting=True)
    mounts = {}    # mount point -> key of what is mounted
    trees = {}

    def key_of(sel, recursive):
        key = (tuple(sel), recursive or lazy)
        if key not in trees:
            ref = FuseMount(list(sel), mp, indexFilePath=":memory:", parallelization=1, **({"recursive": True} if key[1] else {}))
            trees[key] = p15.walk(Kernel(ref))
            p15.close(ref)
        return key

    base = []
    fixed = None
    if mode == 4:
        base = paths[:2]
        opts["disableUnionMount"] = True
        for p in base:
            mounts["/" + os.path.basename(p)] = key_of([p], False)
    elif mode == 5:
        base = paths[:1]
        fixed = key_of(base, False)
    try:
        fm = FuseMount(base, mp, **opts)
    except Exception as e:
        sim.fail("mount-fails", f"{opts} with {base}: {type(e).__name__}: {e} at {where(e)}")
    k = Kernel(fm)
    handles = {}
    log = []
    forms = ["plain"]
    dense = s.draw(2)
    names = NAMES[:2] if dense else NAMES

    def point():
        """(text written, normalised mount point)"""
        r = s.draw(8)
        if r < 2 and mounts:
            p = s.pick(sorted(mounts))
            q = [p, posixpath.dirname(p), p + "/" + s.pick(names)][s.draw(3)]
        elif r == 2 and mounts:
            q = posixpath.dirname(s.pick(sorted(mounts))).rstrip("/") + "/" + s.pick(names)
        else:
            q = "/" + "/".join(s.pick(names) for _ in range(1 + (0 if dense else s.small(3))))
        form = s.pick(["relative", "relative", "absolute", "slash", "double", "up", "dot"])
        forms[0] = form
        rel = q.strip("/")
        text = {"relative": rel, "absolute": mp + q, "slash": rel + "/", "double": rel.replace("/", "//"),
                "up": "zz/../" + rel, "dot": "./" + rel}[form]
        return text, posixpath.normpath(q)

    def free(q):
        if fixed is not None or q == "/":
            return False
        return not any(m == q or m.startswith(q + "/") or q.startswith(m + "/") for m in mounts)

    def want_now():
        return trees[fixed] if fixed is not None else expected(mounts, trees)

    def look(p, why):
        want = want_now().get(p)
        try:
            got = node(k, p)
        except KErr as e:
            got = None
            sim.check(e.no in (2, 20), "fails", lambda: f"{p} answers {e.no} {e.cause!r} {k.raw[-1:]} with mounts {mounts} {why} after {log[-10:]}")
        sim.evaluations += 1
        if want is None:
            sim.check(got is None, "shown-without-mount", lambda: f"{p} is {got and p15.brief(got)} with mounts {mounts} {why} after {log[-10:]}")
        else:
            sim.check(got is not None and same(got, want), "wrong", lambda: f"{p} is {got and p15.brief(got)} instead of {p15.brief(want)} with mounts {mounts} {why} after {log[-10:]}")

    def check_all(why):
        want = want_now()
        try:
            got = p15.walk(k)
        except KErr as e:
            sim.fail("fails", f"{e.no} {e.cause!r} {k.raw[-1:]} with mounts {mounts} {why} after {log[-10:]}")
        got["/"] = ("dir", [n for n in got["/"][1] if n != CONTROL], None)
        got = {p: x for p, x in got.items() if not p.startswith("/" + CONTROL)}
        bad = [p for p in sorted(set(got) | set(want)) if p not in got or p not in want or not same(got[p], want[p])]
        sim.evaluations += len(want)
        sim.check(not bad, "wrong", lambda: f"{[(p, p15.brief(got.get(p)), p15.brief(want.get(p))) for p in bad[:3]]} with mounts {mounts} {why} after {log[-10:]}")

    used = set()
    for step in range(6 + s.draw(24)):
        op = ["mount", "mount", "mount", "unmount", "unmount", "look", "look", "open", "read", "all", "look"][s.draw(11)]
        if op == "mount":
            text, q = point()
            if text.rstrip("/") in ("", mp):
                continue   # (concerns the mount as a whole)
            sel = [s.pick(paths) for _ in range(1 if s.draw(4) or lazy else 2)]   # (lazily, archives inside of unions are not merged)
            if len(sel) == 2 and sel[0] == sel[1]:
                sel.pop()
            broken = s.draw(6) == 5 and s.pick([garbage, os.path.join(arch, "missing.tar"), mp + "/a"])
            recursive = s.draw(3) == 2
            args = (["-r"] if recursive else []) + ["--index-file", ":memory:", "-P", "1"] + sel
            if broken:
                args.insert(len(args) - s.draw(2), broken)
            hit = 0
            if s.draw(5) == 4:
                sim.shim.reset([arch])
                sim.shim.arm()
                sim.shim.plan(READ, 0, sim.shim.count(READ, 0) + sim.fault.small(30), ERR, ERRNOS["EIO"],
                              n=sim.fault.pick([1, 2, None]), kinds=("read", "pread") if sim.fault.draw(3) else ("openrd",))
            before = dict(mounts)
            try:
                command(fm, args + [text], s)
            finally:
                hit = sim.shim.total_hits()
                if hit:
                    sim.injected("read-error", hit)
                sim.shim.disarm()
            must = free(q) and not broken and not hit
            done = False
            if free(q):
                try:
                    a = fm.getattr(q)
                    done = True
                except OSError:
                    pass
            if must:
                sim.check(done, "mount-fails", lambda: f"{args + [text]} with mounts {mounts} after {log[-10:]}")
            if done:
                sim.check(not broken, "mounted-broken", lambda: f"{args + [text]} with mounts {mounts} after {log[-10:]}")
                mounts[q] = key_of(sel, recursive)
            log.append(f"mount {sel} {text} recursive={recursive} broken={broken} hit={hit}: {done}")
            sim.state("mount", forms[0], len(before), bool(broken), hit > 0, done)
            if not done and s.draw(2):
                check_all("after a failed mount")
        elif op == "unmount":
            text, q = point()
            if s.draw(2) and mounts:
                q = s.pick(sorted(mounts))
                text = q.strip("/") if s.draw(2) else mp + q
            if text.rstrip("/") in ("", mp):
                continue
            command(fm, ["-u", text], s)
            done = fixed is None and mounts.pop(q, None) is not None
            log.append(f"unmount {text}: {done}")
            sim.state("unmount", forms[0], len(mounts), done)
            if not done and s.draw(2):
                check_all("after a failed unmount")
        elif op == "look":
            want = want_now()
            used.update(want)
            p = s.pick(sorted(used)) if s.draw(2) else s.pick(sorted(want))
            if p == "/":
                continue
            look(p, "")
        elif op == "open":
            want = want_now()
            files = [p for p in sorted(want) if want[p][0] == "file"]
            if not files:
                continue
            p = s.pick(files)
            try:
                handles[k.open(p, os.O_RDONLY)] = (p, want[p][1])
            except KErr as e:
                sim.fail("fails", f"open {p} answers {e.no} {e.cause!r} {k.raw[-1:]} with mounts {mounts} after {log[-10:]}")
            log.append(f"open {p}")
        elif op == "read":
            if not handles:
                continue
            n = s.pick(sorted(handles))
            read(sim, fm, k, n, handles[n], s, mounts, log)
            if s.draw(4) == 3:
                handles.pop(n)
                k.close(n)
        else:
            check_all("")
        sim.trace(log[-1] if log else "", sorted(mounts))
    check_all("at the end")
    for n in sorted(handles):
        read(sim, fm, k, n, handles[n], s, mounts, log, True)
        k.close(n)
    sim.check(not fm.openedFiles, "handles-left", lambda: f"{len(fm.openedFiles)}")
    sim.check(not started, "subprocess", lambda: f"{started} {log}")
    fm._subprocesses.clear()
    fm._close()


def read(sim, fm, k, n, handle, s, mounts, log, whole=False):
    p, data = handle
    off, size = (0, len(data) + 1) if whole else (s.draw(len(data) + 2), 1 + s.draw(5000))
    try:
        got = bytes(fm.read(p, size, off, k.handles[n][1]))
    except Exception as e:
        sim.fail("open-file-unreadable", f"{p}: {type(e).__name__}: {e} with mounts {mounts} after {log[-10:]}")
    sim.equal(h(got), h(data[off:off + size]), "wrong-data", f"{p} [{off}:{off + size}] with mounts {mounts} after {log[-10:]}")


# ---- concurrent requests

def apply(state, op):
    """(new state, answer) of a request on a mount table {point: id}."""
    kind = op[0]
    if kind == "mount":
        q, i = op[1:]
        if any(m == q for m in state):
            return state, "exists"
        if any(m.startswith(q + "/") for m in state):
            return state, "exists"
        if any(q.startswith(m + "/") for m in state):
            return state, "exists"
        return {**state, q: i}, "ok"
    if kind == "unmount":
        q = op[1]
        if q in state:
            n = dict(state)
            return n, n.pop(q)
        return state, None
    p = op[1]
    m = [m for m in state if p == m or p.startswith(m + "/")]
    if kind == "look":
        if m:
            rest = p[len(m[0]):]
            return state, "dir" if rest in ("", "/d") else ["file", state[m[0]]] if rest in ("/id", "/d/id") else None
        return state, "dir" if p == "/" or any(x.startswith(p + "/") for x in state) else None
    if kind == "list":
        if m:
            rest = p[len(m[0]):]
            return state, ["d", "id", f"only{state[m[0]]}"] if rest == "" else ["id"] if rest == "/d" else None
        names = sorted({x[len(p.rstrip("/")) + 1:].split("/")[0] for x in state if x.startswith(p.rstrip("/") + "/")})
        return state, names or None if p != "/" else names
    raise ValueError(kind)


def linearizable(events, state, budget):
    """events: (call, return, op, answer), searched depth first with the real-time order."""
    seen = set()
    order = sorted(range(len(events)), key=lambda i: events[i][0])

    def go(done, state):
        if len(done) == len(events):
            return True
        key = (done, tuple(sorted(state.items())))
        if key in seen:
            return False
        seen.add(key)
        if len(seen) > budget:
            raise OverflowError
        first = min(events[i][1] for i in order if i not in done)
        for i in order:
            if i in done or events[i][0] > first:
                continue
            n, answer = apply(state, events[i][2])
            if answer == events[i][3] and go(done | {i}, n):
                return True
        return False
    return go(frozenset(), state)


def threads(sim):
    from ratarmount.FuseMount import FuseMount
    from ratarmountcore.mountsource.formats.folder import FolderMountSource
    s = sim.ops
    arch, mp = sim.mkdir("arch"), sim.mkdir("mp")
    srcs = []
    for i in range(4):
        p = os.path.join(arch, f"s{i}")
        A.lay_out([("id", A.Node("file", data=b"source %d" % i)), ("d", A.Node("dir")), ("d/id", A.Node("file", data=b"source %d" % i)),
                   (f"only{i}", A.Node("file", data=b""))], p)
        srcs.append(p)
    points = ["/a", "/b/c", "/b/d", "/b/c/e"][:2 + s.draw(3)]
    state = {}
    with sim.scheduler() as sc:
        fm = FuseMount([], mp, controlInterface=True, indexFilePath=":memory:")
        table = fm._subvolumes
        objects = [FolderMountSource(p) for p in srcs]
        ids = {id(o): i for i, o in enumerate(objects)}
        for q in points[:2]:
            if s.draw(2):
                i = s.draw(4)
                state[q] = i
                table.mount(q, objects[i])
        plans = []
        for t in range(2 + s.draw(2)):
            ops = []
            for _ in range(2 + s.draw(4)):
                r = s.draw(7)
                q = s.pick(points)
                if r < 2:
                    ops.append(("mount", q, s.draw(4)))
                elif r < 4:
                    ops.append(("unmount", q))
                elif r == 4:
                    ops.append(("list", s.pick(["/", "/b", q, q + "/d"])))
                else:
                    ops.append(("look", q + s.pick(["", "/id", "/d/id", "/d"])))
            plans.append(ops)
        events = []
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def one(op):
            if op[0] == "mount":
                able = table.is_mountable(op[1])
                try:
                    return "ok" if table.mount(op[1], objects[op[2]]) else "exists"
                except Exception as e:
                    if "already exists" in str(e):
                        return "exists"
                    raise
            if op[0] == "unmount":
                r = table.unmount(op[1])
                return None if r is None else ids[id(r)]
            if op[0] == "list":
                r = fm.mountSource.list_mode(op[1])
                r = sorted(n for n in r or () if n != CONTROL)
                return r or None if op[1] != "/" else r
            fi = fm.mountSource.lookup(op[1])
            if fi is None:
                return None
            if stat.S_ISDIR(fi.mode):
                return "dir"
            # whatever happens between lookup and open, it is this file
            with fm.mountSource.open(fi, buffering=0) as f:
                sc.yield_point()
                data = f.read()
            return ["file", int(data.split()[1])]

        def task(n):
            for op in plans[n]:
                a = tick()
                try:
                    answer = one(op)
                except Exception as e:
                    return ("request-fails", f"{op}: {type(e).__name__}: {e} at {where(e)} with {state} and {plans}")
                events.append((a, tick(), op, answer))
        for n in range(len(plans)):
            sc.spawn(lambda n=n: task(n), name=f"t{n}")
        sc.run()
        sim.sched_steps += sc.steps
        sim.sched_switches += sc.switches
        sim.interleavings.add(sc.signature)
        for t in sc.tasks:
            if t.exc is not None:
                raise t.exc
            if t.result:
                sim.fail(*t.result)
        for e in sorted(events):
            sim.trace(*e)
            sim.state("threads", e[2][0], type(e[3]).__name__, len(plans))
        sim.evaluations += len(events)
        try:
            ok = linearizable(events, state, 200_000)
        except OverflowError:
            sim.probe("search-given-up")
            ok = True
        sim.check(ok, "not-linearizable", lambda: f"from {state}: {sorted(events)}")
        fm._close()


CONFIGS = {"history": history, "threads": threads}
RUNS = {"quick": {"history": 200, "threads": 700}, "thorough": {"history": 9000, "threads": 30000}}
