"""Deterministic-simulation core: one seeded choice stream drives a whole run.

Every decision of a run -- workload, schedule, delay, fault -- is one call of `Sim.choose`.  A run is
therefore a pure function of its list of choices: a seed generates the list, a replay file stores it, and
the shrinker edits it.  Choice 0 is always the simplest alternative (no fault, no switch, smallest size).
"""

import hashlib
import random
from collections import Counter

import numpy as np


class Violation(Exception):
    """The property is broken; `kind` is the stable signature used for shrinking and known findings."""

    def __init__(self, kind, message=""):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Skip(Exception):
    """The generated case is outside of the property's domain."""


class SimInterrupt(KeyboardInterrupt):
    """injected Ctrl-C"""


class SimExit(SystemExit):
    """injected SystemExit"""


class SimError(NotImplementedError, np.linalg.LinAlgError, TypeError, KeyError, IndexError, AttributeError, AssertionError):
    """injected failure of a user callback or of a numerical kernel, of any of the usual types"""

    __str__ = Exception.__str__


class SimOSError(OSError):
    """injected I/O failure of a user callback"""


class SimMemoryError(MemoryError):
    """injected allocation failure"""


class SimArithmeticError(FloatingPointError):
    """injected floating point trap"""


class HangError(BaseException):
    """watchdog"""


class Sim:
    MAX_EVENTS = 400

    def __init__(self, seed=0, choices=None):
        self.seed = seed
        self._random = random.Random(seed)
        self._replay = None if choices is None else list(choices)
        self._pos = 0
        self.choices = []
        self.labels = []
        self.clock = 0.0
        self.faults = Counter()
        self.probes = Counter()
        self.events = []
        self.n_events = 0
        self._digest = hashlib.blake2b(digest_size=16)
        self._state = hashlib.blake2b(digest_size=12)
        self.sample = {}

    # -- choices ---------------------------------------------------------------------------------------
    def choose(self, n, label=""):
        """an integer in [0, n)"""
        n = int(n)
        if n <= 1:
            return 0
        if self._replay is None:
            c = self._random.randrange(n)
        else:
            c = self._replay[self._pos] if self._pos < len(self._replay) else 0
            self._pos += 1
            c = min(max(int(c), 0), n - 1)
        self.choices.append(c)
        self.labels.append(label)
        return c

    def flip(self, p, label=""):
        if self._replay is None:
            c = int(self._random.random() < p)
            self.choices.append(c)
            self.labels.append(label)
            return bool(c)
        return bool(self.choose(2, label))

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pick from [(item, weight)]; replay stores the index"""
        items = [i for i, _ in pairs]
        if self._replay is None:
            c = self._random.choices(range(len(items)), weights=[w for _, w in pairs])[0]
            self.choices.append(c)
            self.labels.append(label)
            return items[c]
        return items[self.choose(len(items), label)]

    def integer(self, lo, hi, label=""):
        """an integer in [lo, hi]"""
        return lo + self.choose(hi - lo + 1, label)

    def uniform(self, lo, hi, label=""):
        return lo + (hi - lo) * self.choose(4096, label) / 4095.0

    def rng(self, label=""):
        """a NumPy generator for bulk data; its seed is one choice"""
        return np.random.RandomState(self.choose(1 << 20, label))

    # -- recording -------------------------------------------------------------------------------------
    def log(self, *event):
        self.n_events += 1
        text = " ".join(_fmt(e) for e in event)
        self._digest.update(text.encode())
        self._digest.update(b"\n")
        if len(self.events) < self.MAX_EVENTS:
            self.events.append(f"t={self.clock:.6f} {text}")
        elif len(self.events) == self.MAX_EVENTS:
            self.events.append("...")

    def absorb(self, array):
        """mix the bytes of an array into the run's digest"""
        self._digest.update(np.ascontiguousarray(array).tobytes())

    def fault(self, kind):
        self.faults[kind] += 1
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def cover(self, *key):
        """what makes this run distinct, by the property's measure"""
        self._state.update(repr(key).encode())

    @property
    def digest(self):
        return self._digest.hexdigest()

    @property
    def state_key(self):
        return self._state.hexdigest()


def _fmt(e):
    if isinstance(e, np.ndarray):
        return hashlib.blake2b(np.ascontiguousarray(e).tobytes(), digest_size=6).hexdigest()
    if isinstance(e, float):
        return repr(e)
    return str(e)


def shrink(execute, choices, kind, budget_s, now):
    """Minimise a choice list while the same violation kind persists.

    `execute(choices)` -> kind or None.  Passes: truncate, delete blocks, zero blocks, lower values."""
    t0 = now()
    best = list(choices)
    tried = 0

    def ok(c):
        nonlocal tried
        tried += 1
        return execute(c) == kind

    def timeleft():
        return now() - t0 < budget_s

    while best and best[-1] == 0:
        if not timeleft() or not ok(best[:-1]):
            break
        best = best[:-1]
    improved = True
    while improved and timeleft():
        improved = False
        n = max(1, len(best) // 2)
        while n >= 1 and timeleft():
            i = 0
            while i < len(best) and timeleft():
                block = best[i : i + n]
                cand = best[:i] + best[i + n :]
                if ok(cand):
                    best, improved = cand, True
                    continue
                if any(block):
                    cand = best[:i] + [0] * len(block) + best[i + n :]
                    if ok(cand):
                        best, improved = cand, True
                i += n
            n //= 2
        for i in range(len(best)):
            if not timeleft():
                break
            while best[i] > 1:
                cand = best[:]
                cand[i] = best[i] // 2
                if timeleft() and ok(cand):
                    best, improved = cand, True
                else:
                    break
    while best and best[-1] == 0 and ok(best[:-1]):
        best = best[:-1]
    return best, tried
