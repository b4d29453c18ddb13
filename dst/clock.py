"""Virtual time. Installed before anything of ratarmount is imported; inactive until a run activates it."""
import time
import timeit

_real = {k: getattr(time, k) for k in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
                                       "perf_counter_ns", "sleep", "process_time")}
active = None


class Clock:
    def __init__(self, start=1_800_000_000.0, tick=1e-6):
        self.wall = start
        self.mono = 1000.0
        self.start = self.mono
        self.tick = tick
        self.advanced = 0.0
        self.hook = None  # called on sleep: (seconds)

    def advance(self, dt):
        if dt > 0:
            self.mono += dt
            self.advanced += dt
        self.wall += dt

    def jump_wall(self, dt):
        self.wall += dt

    def now_wall(self):
        self.advance(self.tick)
        return self.wall

    def now_mono(self):
        self.advance(self.tick)
        return self.mono

    def sleep(self, s):
        if self.hook:
            self.hook(s)
        else:
            self.advance(max(0.0, s))


def _mk(name, fn):
    real = _real[name]

    def f(*a):
        return fn(*a) if active is not None else real(*a)
    f.__name__ = name
    return f


def install():
    time.time = _mk("time", lambda: active.now_wall())
    time.time_ns = _mk("time_ns", lambda: int(active.now_wall() * 1e9))
    time.monotonic = _mk("monotonic", lambda: active.now_mono())
    time.monotonic_ns = _mk("monotonic_ns", lambda: int(active.now_mono() * 1e9))
    time.perf_counter = _mk("perf_counter", lambda: active.now_mono())
    time.perf_counter_ns = _mk("perf_counter_ns", lambda: int(active.now_mono() * 1e9))
    time.sleep = _mk("sleep", lambda s: active.sleep(s))
    timeit.default_timer = time.perf_counter


def real_time():
    return _real["monotonic"]()


def real_sleep(s):
    return _real["sleep"](s)
