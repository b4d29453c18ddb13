"""All randomness of a simulated run: named streams of small integers, recorded, replayable, shrinkable.

One seed decides every stream. A replay supplies the recorded integers instead; a stream that runs out
returns 0, and every generator is written so that 0 is the plainest choice (no fault, no preemption, stop)."""
import hashlib
import random


class Stream:
    def __init__(self, seed, name, preset=None):
        self.name = name
        h = hashlib.sha256(f"{seed}/{name}".encode()).digest()
        self._rng = random.Random(int.from_bytes(h[:16], "big"))
        self._preset = preset
        self._pos = 0
        self.record = []

    def draw(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if self._preset is None:
            v = self._rng.randrange(n)
        else:
            v = self._preset[self._pos] if self._pos < len(self._preset) else 0
            self._pos += 1
            v = v % n
        self.record.append(v)
        return v

    def chance(self, permille):
        v = self.draw(1000)
        return v >= 1000 - permille

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first pair is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, value in pairs:
            if v < w:
                return value
            v -= w
        return pairs[-1][1]

    def small(self, hi):
        """Skewed to small values, but reaching hi."""
        k = self.draw(4)
        if k == 0:
            return self.draw(min(hi, 2) + 1)
        if k == 1:
            return self.draw(min(hi, 16) + 1)
        return self.draw(hi + 1)

    def bytes(self, n):
        """n bytes, from one recorded integer."""
        s = self.draw(1 << 16)
        return random.Random(s).randbytes(n)

    def shuffle(self, seq):
        out, pool = [], list(seq)
        while pool:
            out.append(pool.pop(self.draw(len(pool))))
        return out

    def subset(self, seq, permille=500):
        return [x for x in seq if self.chance(permille)]


class Choices:
    def __init__(self, seed, preset=None):
        self.seed = seed
        self._preset = preset
        self.streams = {}

    def stream(self, name):
        if name not in self.streams:
            preset = None if self._preset is None else self._preset.get(name, [])
            self.streams[name] = Stream(self.seed, name, preset)
        return self.streams[name]

    def dump(self):
        return {k: s.record for k, s in self.streams.items()}
