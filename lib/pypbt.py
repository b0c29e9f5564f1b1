"""Choice-sequence property testing in Python, for the checks that generate whole programs or
process invocations.  A case is the list of its choices: replayed and shrunk at that level."""
import hashlib, random, time


class Src:
    def __init__(self, rng=None, forced=None):
        self.rng, self.forced, self.pos, self.log = rng, forced, 0, []

    def below(self, n):
        n = max(1, n)
        if self.forced is not None and self.pos < len(self.forced):
            v = self.forced[self.pos] % n
        elif self.rng is None:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        return v

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, num, den):
        return self.below(den) >= den - num      # shrinks to False

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def size(self, mx, block=64):
        k = self.below(6)
        if k <= 1:
            return self.below(min(mx, 40) + 1)
        if k <= 3:
            v = self.below(mx // block + 1) * block + self.below(5) - 2
            return max(0, min(mx, v))
        return self.below(mx + 1)


def seeded(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big'))


def fingerprint(choices):
    return hashlib.sha256(repr(choices).encode()).hexdigest()[:16]


def shrink(choices, fails, budget_s=60, budget_n=200):
    """smallest failing choice list found; fails(list) -> bool must be deterministic"""
    t0 = time.time()
    best = list(choices)
    n = 0

    def ok(c):
        nonlocal n
        n += 1
        return n <= budget_n and time.time() - t0 < budget_s and fails(c)
    # drop the tail, then chunks, then lower single choices
    changed = True
    while changed and n < budget_n and time.time() - t0 < budget_s:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size:]
                if c != best and ok(c):
                    best, changed = c, True
                else:
                    i += size
                if n >= budget_n or time.time() - t0 >= budget_s:
                    return best
            size //= 2
        for i in range(len(best)):
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    c = best[:i] + [v] + best[i + 1:]
                    if ok(c):
                        best, changed = c, True
                        break
    return best
