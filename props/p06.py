"""P06: block-parallel decompression delivers the right bytes under every worker schedule."""
import errno
import io
import lzma
import multiprocessing
import multiprocessing.pool
import os
import signal

from dst import archives as A
from dst.shim import ERR, READ

import xz

import ratarmountcore.BlockParallelReaders as B

PROP = "P06"
LEVEL = "exploration"
RULE = "distinct (reader, workers, blocks in the request, cached/pending/missing state of those blocks, kind of operation, fault) tuples"
REAL = ["ParallelXZReader, ParallelZstdReader, BlockParallelReader, LRUCache, Prefetcher", "python-xz, liblzma, indexed_zstd block decoding"]
STUB = ["multiprocessing.pool.Pool: seeded discrete-event pool that runs the real block functions with per-worker globals"]
ASSUMPTIONS = ["workers do not share memory; a worker that is killed is outside (CPython's pool hangs on it)"]
GLOBALS = ("_parallelXzReaderFile", "_parallelZstdReaderFile")


class Injected(OSError):
    def __init__(self, job):
        super().__init__(5, f"injected failure of job {job}")
        self.job = job


class Result:
    def __init__(self, pool, n, fn, args, kwds, callback, error_callback):
        self.pool, self.n, self.fn, self.args, self.kwds = pool, n, fn, args, kwds
        self.callback, self.error_callback = callback, error_callback
        self.done, self.value, self.error = False, None, None

    def ready(self):
        self.pool.some()
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        self.pool.until(self)

    def get(self, timeout=None):
        self.pool.until(self)
        if self.error is not None:
            raise self.error
        return self.value


class World:
    """What all pools of a run share: choices, faults, log."""

    def __init__(self, sim):
        self.sim, self.s, self.f = sim, sim.sched_stream, sim.fault
        self.jobs = 0
        self.rate = 0
        self.failed = {}   # job -> (offset, size) of decode jobs made to fail, until surfaced
        self.surfaced = set()
        self.pools = []
        self.out_of_order = 0


class Pool:
    world = None

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.w = Pool.world
        self.w.pools.append(self)
        self.n = processes or 8
        self.initializer, self.initargs = initializer, initargs
        self.workers = [dict.fromkeys(GLOBALS) for _ in range(self.n)]
        self.started = set()
        self.queue, self.running, self.closed, self.dead = [], {}, False, False

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        self.w.jobs += 1
        r = Result(self, self.w.jobs, func, tuple(args), dict(kwds or {}), callback, error_callback)
        self.queue.append(r)
        self.some()
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in iterable]]

    def imap(self, func, iterable, chunksize=1):
        for r in [self.apply_async(func, (x,)) for x in iterable]:
            yield r.get()

    # --- the simulated world
    def _dispatch(self):
        for i in range(self.n):
            if i not in self.running and self.queue:
                self.running[i] = self.queue.pop(0)

    def _complete(self):
        self._dispatch()
        if not self.running:
            return False
        keys = sorted(self.running)
        i = keys[self.w.s.draw(len(keys))]
        r = self.running.pop(i)
        if any(x.n < r.n for x in self.running.values()):
            self.w.out_of_order += 1
        saved = {g: getattr(B, g, None) for g in GLOBALS}
        try:
            for g, v in self.workers[i].items():
                setattr(B, g, v)
            try:
                if i not in self.started:
                    self.started.add(i)
                    if self.initializer:
                        self.initializer(*self.initargs)
                decode = len(r.args) == 3
                if decode and self.w.rate and self.w.f.draw(self.w.rate) == 0:
                    self.w.sim.injected("worker-failure")
                    self.w.failed[r.n] = r.args[1:3]
                    raise Injected(r.n)
                r.value = r.fn(*r.args, **r.kwds)
            except Exception as e:  # noqa
                r.error = e
            for g in GLOBALS:
                self.workers[i][g] = getattr(B, g, None)
        finally:
            for g, v in saved.items():
                setattr(B, g, v)
        r.done = True
        self._dispatch()
        if r.error is None and r.callback:
            r.callback(r.value)
        if r.error is not None and r.error_callback:
            r.error_callback(r.error)
        return True

    def some(self):
        for _ in range(self.w.s.draw(4)):
            if not self._complete():
                break

    def until(self, r):
        while not r.done:
            if not self._complete():
                self.w.sim.fail("hang", f"waits for a job that is never run (pool dead: {self.dead})")

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.dead = True
        self.queue, self.running = [], {}

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self._complete():
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def make_xz(s, path, size):
    data = A.content(s, size)
    out, pos = [], 0
    import subprocess
    streams = 1 + s.draw(3)
    cuts = sorted(s.draw(size + 1) for _ in range(streams - 1)) if size else []
    for a, b in zip([0, *cuts], [*cuts, size]):
        block = [4096, 700, 20_000, 1 << 20][s.draw(4)]
        out.append(subprocess.run(["xz", "-0", "-c", f"--block-size={block}", "-T1"], input=data[a:b], stdout=subprocess.PIPE,
                                  check=True).stdout)
    with open(path, "wb") as f:
        f.write(b"".join(out))
    return data


def make_zst(s, path, size):
    import indexed_zstd  # noqa
    data = A.content(s, size)
    block = [4096, 700, 20_000][s.draw(3)]
    import zstandard
    with open(path, "wb") as f:
        for k in range(0, max(1, size), block):
            f.write(zstandard.ZstdCompressor(write_content_size=True).compress(data[k:k + block]))
    return data


def scenario(sim, faults):
    s = sim.ops
    w = World(sim)
    real = multiprocessing.pool.Pool
    mp = multiprocessing.Pool
    handler = signal.getsignal(signal.SIGINT)
    Pool.world = w
    saved = {g: getattr(B, g, None) for g in GLOBALS}
    try:
        multiprocessing.pool.Pool = Pool
        multiprocessing.Pool = Pool
        run(sim, s, w, faults)
    finally:
        multiprocessing.pool.Pool = real
        multiprocessing.Pool = mp
        signal.signal(signal.SIGINT, handler)
        for g, v in saved.items():
            setattr(B, g, v)
    sim.probe("jobs", w.jobs)
    sim.probe("completed-out-of-order", w.out_of_order)


def damaged(sim):
    """Blocks that cannot be decoded and read errors of the storage, in workers and elsewhere."""
    s, f = sim.ops, sim.fault
    w = World(sim)
    real, mp = multiprocessing.pool.Pool, multiprocessing.Pool
    handler = signal.getsignal(signal.SIGINT)
    Pool.world = w
    saved = {g: getattr(B, g, None) for g in GLOBALS}
    sim.shim.reset([sim.path("store")])
    try:
        multiprocessing.pool.Pool = multiprocessing.Pool = Pool
        p = os.path.join(sim.mkdir("store"), "f.xz")
        data = make_xz(sim.data, p, 1000 + s.draw(120_000))
        n = 2 + s.draw(5)
        good = xz.open(p, "rb")
        bounds = [*good.block_boundaries, len(data)]
        good.close()
        eio = f.draw(2) == 1
        if not eio:
            with open(p, "r+b") as o:
                for _ in range(1 + f.draw(3)):
                    at = 12 + f.draw(os.path.getsize(p) - 12)
                    o.seek(at)
                    b = o.read(1)
                    o.seek(at)
                    o.write(bytes([b[0] ^ (1 + f.draw(255))]))
        try:
            serial = xz.open(p, "rb")
            if [*serial.block_boundaries, len(serial)] != bounds:
                return
        except (xz.XZError, lzma.LZMAError, ValueError):
            return
        bad = set()
        for i, (a, b) in enumerate(zip(bounds, bounds[1:])):
            try:
                with xz.open(p, "rb") as x:
                    x.seek(a)
                    if x.read(b - a) != data[a:b]:
                        return  # not detectable
            except (xz.XZError, lzma.LZMAError):
                bad.add(i)
        try:
            r = B.ParallelXZReader(p, parallelization=n)
        except (xz.XZError, lzma.LZMAError):
            return
        sim.trace("blocks", len(bounds) - 1, "bad", sorted(bad), "EIO", eio)
        sim.injected("damaged-block", len(bad))
        ref = io.BytesIO(data)
        for _ in range(10 + s.draw(30)):
            if s.draw(2):
                o = max(0, min(len(data), bounds[s.draw(len(bounds))] + s.draw(7) - 3)) if s.draw(2) else s.draw(len(data) + 9)
                r.seek(o)
                ref.seek(o)
            amount = [s.draw(50), s.draw(3000), s.draw(30_000), -1, len(data)][min(4, s.draw(9))]
            at = ref.tell()
            want = ref.read(amount)
            need = {i for i in range(len(bounds) - 1) if bounds[i] < at + len(want) and bounds[i + 1] > at}
            hits = 0
            if eio:
                sim.shim.clear_plan()
                sim.shim.reset([sim.path("store")])
                if f.draw(3) == 0:
                    sim.shim.plan(READ, 0, f.draw(6), ERR, errno.EIO, n=1 + f.draw(3))
                    sim.shim.arm()
            try:
                got = r.read(amount)
            except Exception as e:  # noqa
                got = e
            sim.shim.disarm()
            if eio:
                hits = sim.shim.total_hits()
                sim.injected("read-error", hits)
                hits += w.sim.probes.get("earlier-read-errors", 0)
                sim.probe("earlier-read-errors", sim.shim.total_hits())
            sim.trace("read", amount, "at", at, len(got) if isinstance(got, bytes) else type(got).__name__)
            sim.state("damaged", n, min(4, len(need)), bool(need & bad), eio, bool(hits))
            if isinstance(got, Exception):
                if eio:
                    # the failure of a prefetched block may show later, once
                    sim.check(hits and isinstance(got, (OSError, xz.XZError)), "wrong-error", lambda: f"read({amount}) at {at}: {got!r}")
                else:
                    sim.check(need & bad and (isinstance(got, (lzma.LZMAError, xz.XZError))), "foreign-failure",
                              lambda: f"read({amount}) at {at} needs blocks {sorted(need)}, damaged {sorted(bad)}: {got!r}")
                ref.seek(at)
            else:
                sim.check(not need & bad, "damage-not-reported", lambda: f"read({amount}) at {at} of damaged blocks {sorted(need & bad)}")
                if got != want:
                    i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                    sim.fail("wrong-bytes", f"read({amount}) at {at} of {len(data)}: got {len(got)} bytes, expected {len(want)}, first "
                                            f"difference at {i}, damaged blocks {sorted(bad)}")
            sim.equal(r.tell(), ref.tell(), "wrong-position", f"tell after read({amount}) at {at}")
        if eio:
            for _ in range(sim.probes.get("earlier-read-errors", 0) + 1):
                try:
                    r.seek(0)
                    got = r.read()
                    break
                except OSError:
                    got = None
            sim.check(got == data, "no-recovery", "reading everything after the read errors stopped")
        r.close()
    finally:
        multiprocessing.pool.Pool, multiprocessing.Pool = real, mp
        signal.signal(signal.SIGINT, handler)
        for g, v in saved.items():
            setattr(B, g, v)


def run(sim, s, w, faults):
    readers = []
    for i in range(1 + s.draw(2)):
        size = [0, 100, 5000, 60_000, 250_000][1 + s.draw(4)] + s.draw(5000)
        kind = "zst" if s.draw(4) == 3 else "xz"
        p = sim.path(f"f{i}.{kind}")
        n = 2 + s.draw(5)
        if kind == "xz":
            data = make_xz(sim.data, p, size)
            r = B.ParallelXZReader(p, parallelization=n)
        else:
            try:
                data = make_zst(sim.data, p, size)
            except ImportError:
                continue
            r = B.ParallelZstdReader(p, parallelization=n)
        readers.append((kind, n, r, io.BytesIO(data), data))
        sim.trace("reader", kind, n, len(data), len(r.blockBoundaries) - 1)
    if faults:
        w.rate = 2 + s.draw(12)
    for step in range(12 + s.draw(40)):
        if not readers:
            return
        if faults and w.rate and s.draw(10) == 0:
            w.rate = 0
            sim.probe("faults-stopped")
        elif faults and not w.rate and s.draw(10) == 0:
            w.rate = 2 + s.draw(6)
        kind, n, r, ref, data = readers[s.draw(len(readers))]
        size = len(data)
        op = s.draw(12)
        before = ref.tell()
        if op < 4:
            mode = s.draw(5)
            bb = r.blockBoundaries
            if mode == 0:
                a = (s.draw(size + 50), 0)
            elif mode == 1:
                a = (s.draw(2 * size + 10) - size, 1)
            elif mode == 2:
                a = (-s.draw(size + 20), 2)
            else:
                a = (max(0, bb[s.draw(len(bb))] + s.draw(5) - 2), 0)
            want, got = seek(ref, size, a), seek(r, size, a)
            sim.trace("seek", a, want)
            sim.equal(got, want, "wrong-position", f"{kind} seek{a} from {before}")
            sim.equal(r.tell(), ref.tell(), "wrong-position", f"{kind} tell after seek{a} from {before}")
            continue
        if op == 4:
            sim.equal(r.tell(), ref.tell(), "wrong-position", f"{kind} tell")
            if kind == "xz":
                o = s.draw(size + 5)
                want = None if o >= size else max(i for i, b in enumerate(r.blockBoundaries[:-1]) if b <= o)
                sim.equal(r.find_block(o), want, "wrong-block", f"find_block({o})")
            continue
        if op == 5 and s.draw(3) == 0:
            # before daemonizing, all threads are joined
            try:
                if r._pool:
                    r.join_threads()
                    sim.trace("join_threads")
            except AttributeError:
                pass
            continue
        amount = [s.draw(50), s.draw(3000), s.draw(30_000), -1, None, 0, size, 1 << 30][min(7, s.draw(11))]
        blocks = [i for i, b in enumerate(r.blockBoundaries[:-1])
                  if r.blockBoundaries[i + 1] > before and (amount is None or amount < 0 or b < before + max(1, amount))]
        sim.state(kind, n, min(5, len(blocks)), amount is None or amount < 0, bool(w.rate), op,
                  tuple(("m" if i not in r._blockCache else "d" if getattr(r._blockCache.data.get(i), "done", None) else "p")
                        for i in blocks[:3]) if hasattr(r, "_blockCache") else ())
        want = ref.read(amount)
        how = "readinto" if op == 11 and amount is not None and 0 <= amount < 1 << 29 else "read"
        try:
            if how == "readinto":
                buf = bytearray(amount)
                got = bytes(buf[:r.readinto(buf)])
            else:
                got = r.read(amount)
        except Injected as e:
            ref.seek(before)
            sim.trace(how, amount, "at", before, "fails")
            sim.check(faults, "harness")
            o, z = w.failed[e.job]
            end = size if amount is None or amount < 0 else before + max(1, amount)
            sim.check(o < end and o + z > before, "foreign-failure",
                      f"{kind} read({amount}) at {before} fails with the failure of the block at {o} of size {z}")
            sim.check(e.job not in w.surfaced, "failure-repeated",
                      f"{kind} read({amount}) at {before}: the failure of one worker job surfaces again instead of trying again")
            w.surfaced.add(e.job)
            sim.equal(r.tell(), before, "wrong-position", f"{kind} tell after a failed read({amount}) at {before}")
            continue
        sim.trace(how, amount, "at", before, len(want))
        sim.evaluations += 1
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            sim.fail("wrong-bytes", f"{kind} {how}({amount}) at {before} of {size}: got {len(got)} bytes, expected {len(want)}, "
                                    f"first difference at {i}")
        sim.equal(r.tell(), ref.tell(), "wrong-position", f"{kind} tell after {how}({amount}) at {before}")
    w.rate = 0
    for kind, n, r, ref, data in readers:
        # with the failures over, everything can be read within as many attempts as there are unsurfaced failures
        for _ in range(len(w.failed) + 1):
            try:
                r.seek(0)
                got = r.read()
                break
            except Injected as e:
                sim.check(e.job not in w.surfaced, "failure-repeated", f"{kind} read() after the failures stopped")
                w.surfaced.add(e.job)
        else:
            sim.fail("no-recovery", kind)
        sim.check(got == data, "wrong-bytes", f"{kind} whole contents: {len(got)} bytes, expected {len(data)}")
        r.close()


def seek(f, size, a):
    try:
        if a[1] and (f.tell() if a[1] == 1 else size) + a[0] < 0:
            # BytesIO stops at 0 where files raise
            if isinstance(f, io.BytesIO):
                raise ValueError
        return f.seek(*a)
    except (ValueError, OSError):
        return "error"


def plain(sim):
    scenario(sim, False)


def failing(sim):
    scenario(sim, True)


CONFIGS = {"schedules": plain, "failures": failing, "damaged": damaged}
RUNS = {"quick": {"schedules": 1500, "failures": 1500, "damaged": 1000},
        "thorough": {"schedules": 40000, "failures": 40000, "damaged": 40000}}
