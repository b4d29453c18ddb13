"""Seeded cooperative scheduler. Tasks are real threads of which exactly one runs at a time; which one, and
for how many yield points, is drawn from the run's 'sched' stream. Yield points are: every source line of the
code under test (sys.settrace), every operation on a simulated lock, file, pool or timer.

Locks made by the code under test while a scheduler is installed are simulated ones."""
import _thread
import sys
import threading
import zlib

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_alloc = threading._allocate_lock
current = None  # the active Scheduler


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class TaskKilled(BaseException):
    pass


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.gate = _real_alloc()
        self.gate.acquire()
        self.done = False
        self.blocked = None   # predicate: () -> bool runnable?
        self.wake_at = None   # virtual time at which a timed wait ends
        self.exc = None
        self.result = None
        self.ident = None
        self.daemon = False


class Scheduler:
    def __init__(self, stream, clock=None, gaps=(4, 30, 300, 3000), trace_prefixes=(), max_steps=2_000_000):
        self.s = stream
        self.clock = clock
        self.tasks = []
        self.by_ident = {}
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.trace_prefixes = tuple(trace_prefixes)
        self.gap_bound = gaps[stream.draw(len(gaps))]
        self.countdown = self._gap()
        self.main_gate = _real_alloc()
        self.main_gate.acquire()
        self.running = None
        self.failure = None
        self.signature = 0
        self._cache = {}
        self.blocks = 0

    # --- drawing -------------------------------------------------------------------------
    def _gap(self):
        v = self.s.draw(1 << 16)
        return float("inf") if v == 0 else 1 + v % self.gap_bound

    # --- tasks ---------------------------------------------------------------------------
    def spawn(self, fn, name=None):
        t = Task(self, name or f"t{len(self.tasks)}", fn)
        self.tasks.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        if self.trace_prefixes:
            sys.settrace(self._tracer)
        try:
            t.result = t.fn()
        except TaskKilled:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            self._dispatch(None)

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _tracer(self, frame, event, arg):
        code = frame.f_code
        want = self._cache.get(code)
        if want is None:
            want = self._cache[code] = code.co_filename.startswith(self.trace_prefixes)
        return self._line if want else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.yield_point()
        return self._line

    # --- switching -----------------------------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.blocked is None or t.blocked():
                out.append(t)
        return out

    def _pick(self, exclude=None):
        r = self._runnable()
        if not r:
            # let virtual time pass to the next timed wait
            timed = [t for t in self.tasks if not t.done and t.wake_at is not None]
            if timed:
                t = min(timed, key=lambda x: (x.wake_at, x.name))
                if self.clock and self.clock.mono < t.wake_at:
                    self.clock.advance(t.wake_at - self.clock.mono)
                t.wake_at = None
                t.blocked = None
                return t
            return None
        if exclude is not None and len(r) > 1 and exclude in r:
            r.remove(exclude)
        return r[self.s.draw(len(r))] if len(r) > 1 else r[0]

    def _dispatch(self, me):
        """Hand over to another task; me = None when the caller has ended."""
        if self.failure:
            self.main_gate.release()
            return
        if all(t.done for t in self.tasks):
            self.main_gate.release()
            return
        nxt = self._pick()
        if nxt is None:
            if all(t.done or t.daemon for t in self.tasks):
                self.main_gate.release()
                if me is not None:
                    me.gate.acquire()
                return
            self.failure = Deadlock("all unfinished tasks wait: " + ", ".join(
                t.name for t in self.tasks if not t.done))
            self.main_gate.release()
            if me is not None:
                me.gate.acquire()
            return
        if nxt is me:
            me.blocked = None
            me.wake_at = None
            return
        self.switches += 1
        self.running = nxt
        nxt.blocked = None
        nxt.wake_at = None
        nxt.gate.release()
        if me is not None:
            me.gate.acquire()

    def yield_point(self):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.failure:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.failure = StepLimit("no progress within the step bound")
            self.main_gate.release()
            me.gate.acquire()
        self.countdown -= 1
        if self.countdown > 0:
            return
        self.countdown = self._gap()
        r = [t for t in self._runnable() if t is not me]
        if not r:
            return
        nxt = r[self.s.draw(len(r))] if len(r) > 1 else r[0]
        self.signature = zlib.crc32(f"{me.name}>{nxt.name}@{self.steps}".encode(), self.signature)
        self.switches += 1
        nxt.blocked = None
        nxt.wake_at = None
        self.running = nxt
        nxt.gate.release()
        me.gate.acquire()

    def wait_until(self, pred, timeout=None):
        """Block the current task until pred() holds. Returns pred()."""
        me = self.by_ident.get(_thread.get_ident())
        if me is None:
            if not pred():
                raise Deadlock("wait outside of any task")
            return True
        self.yield_point()
        deadline = None if timeout is None else self.clock.mono + timeout
        while not pred():
            self.blocks += 1
            me.blocked = pred
            me.wake_at = deadline
            self._dispatch(me)
            if deadline is not None and not pred() and self.clock.mono >= deadline:
                return False
        me.blocked = None
        me.wake_at = None
        return True

    def sleep(self, seconds):
        me = self.me()
        if me is None:
            self.clock.advance(seconds)
            return
        until = self.clock.mono + max(0.0, seconds)
        me.blocked = lambda: self.clock.mono >= until
        me.wake_at = until
        self._dispatch(me)

    def run(self):
        """Run all tasks to completion. Raises Deadlock / StepLimit."""
        global current
        assert current is self
        self._dispatch(None)
        self.main_gate.acquire()
        if self.failure:
            raise self.failure
        return self.tasks

    def __enter__(self):
        global current
        current = self
        return self

    def __exit__(self, *a):
        global current
        current = None


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = _thread.get_ident()
        if s is None:
            if self._owner is not None and not (self._reentrant and self._owner == me):
                if not blocking:
                    return False
                raise Deadlock("lock taken twice outside of any task")
        else:
            s.yield_point()
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if self._owner is not None:
                if not blocking:
                    return False
                if not s.wait_until(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                    return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        if current is not None:
            current.yield_point()

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        if current is not None:
            current.yield_point()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _reentrant = True


def _Lock():
    return SimLock() if current is not None else _real_Lock()


def _RLock(*a, **k):
    return SimRLock() if current is not None else _real_RLock(*a, **k)


_real_thread_start = threading.Thread.start
_real_thread_join = threading.Thread.join


def _start(self):
    s = current
    if s is None:
        return _real_thread_start(self)
    self._started.set()

    def body():
        try:
            self.run()
        finally:
            self._dst_done = True
    self._dst_done = False
    t = s.spawn(body, name=f"{self.name}")
    t.daemon = self.daemon
    self._dst_task = t


def _join(self, timeout=None):
    if not hasattr(self, "_dst_task"):
        return _real_thread_join(self, timeout)
    s = current
    if s is not None:
        s.wait_until(lambda: self._dst_task.done, timeout)


_real_is_alive = threading.Thread.is_alive


def _is_alive(self):
    if hasattr(self, "_dst_task"):
        return not self._dst_task.done
    return _real_is_alive(self)


def install():
    threading.Lock = _Lock
    threading._allocate_lock = _Lock
    threading.RLock = _RLock
    threading.Thread.start = _start
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
