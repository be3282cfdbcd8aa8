"""Choice-sequence randomness and shrinking (the engine under every generator).

A generator is a function gen(src) -> case.  Every random decision it takes is an integer drawn
through Src.n(k), which is recorded.  A recorded sequence replays to the same case, and shrinking
edits the sequence, never the case, so a shrunk case is always one the generator can produce.
0 is the simplest choice by convention."""
import random, time


class Src:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.rec = []

    def n(self, k):
        """integer in [0,k)"""
        if k <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v %= k
        else:
            v = self.rng.randrange(k)
        self.rec.append(v)
        return v

    def rng_int(self, a, b):
        return a + self.n(b - a + 1)

    def choice(self, seq):
        return seq[self.n(len(seq))]

    def p(self, num, den=100):
        """true with probability num/den; the simple choice is False"""
        return self.n(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        tot = sum(w for w, _ in pairs)
        v = self.n(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def shuffle(self, lst):
        lst = list(lst)
        for i in range(len(lst) - 1, 0, -1):
            j = i - self.n(i + 1)
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def bits(self, nbits):
        v = 0
        while nbits > 0:
            b = min(nbits, 16)
            v = (v << b) | self.n(1 << b)
            nbits -= b
        return v


def shrink(choices, fails, budget_s=90, max_evals=600, log=None):
    """Greedy minimisation.  fails(choices) -> (bool, normalised choices)."""
    t0 = time.time()
    best = list(choices)
    seen = set()
    evals = 0

    def attempt(c):
        nonlocal best, evals
        key = tuple(c)
        if key in seen or c == best:
            return False
        seen.add(key)
        if time.time() - t0 > budget_s or evals >= max_evals:
            return False
        evals += 1
        ok, norm = fails(c)
        if ok and (len(norm), norm) < (len(best), best):
            best = norm
            return True
        return False

    improved = True
    while improved and time.time() - t0 < budget_s and evals < max_evals:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i + size <= len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if time.time() - t0 > budget_s or evals >= max_evals:
                    break
            i = 0
            while i < len(best):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            lo = 0
            for cand in (0, 1, v // 2, v - 1):
                if 0 <= cand < v and attempt(best[:i] + [cand] + best[i + 1:]):
                    improved = True
                    break
    return best, evals
