"""Explorer core: controlled nondeterminism, state accounting, violations.

Every source of nondeterminism the code under test has is owned here:
  * `random` (shuffle/sample/choice/... all go through Random._randbelow),
  * the clock (time.time & friends),
  * environment answers (each check substitutes them through public methods).
A `Chooser` decides each of them; `explore` enumerates all its choice sequences,
optionally bounded by the number of deviations from the default answer 0.
"""
import hashlib
import json
import logging  # noqa: F401 (reads the clock when first imported)
import os
import random
import signal
import sys
import time

REAL_MONOTONIC = time.monotonic
REAL_TIME = time.time


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail
        self.choices = None


class Hang(BaseException):
    """A single execution exceeded its (generous) real-time or step allowance."""


class ReplayDivergence(BaseException):
    """A replayed prefix met different choice points: harness error."""


# --------------------------------------------------------------- clock
class Clock:
    """Virtual clock. Frozen unless a script makes it jump."""
    T0 = 1_000_000.0

    def __init__(self):
        self.reset()

    def reset(self, expire_at=None, jump=1e6, step=0.0):
        self.now = self.T0
        self.reads = 0
        self.expire_at = expire_at     # index of the read that sees the jump
        self.jump = jump
        self.step = step

    def read(self):
        i = self.reads
        self.reads += 1
        self.now += self.step
        if self.expire_at is not None and i == self.expire_at:
            self.now += self.jump
        return self.now


CLOCK = Clock()


def own_clock():
    time.time = CLOCK.read
    time.monotonic = CLOCK.read
    time.perf_counter = CLOCK.read


# --------------------------------------------------------------- random
class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []          # number of options at each point
        self.choices = []
        self.live = True

    def choose(self, n, kind=""):
        n = int(n)
        if n <= 1:
            return 0
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if not 0 <= c < n:
                raise ReplayDivergence(
                    "choice %d out of range %d at point %d" % (c, n, i))
        else:
            c = 0
        self.points.append(n)
        self.choices.append(c)
        return c


_CURRENT = [None]
_ORIG_RANDBELOW = random.Random._randbelow


def _controlled_randbelow(self, n):
    ch = _CURRENT[0]
    if ch is None or isinstance(self, random.SystemRandom):
        return 0 if ch is None else _ORIG_RANDBELOW(self, n)
    return ch.choose(n, "random")


def own_random():
    random.Random._randbelow = _controlled_randbelow

    def rnd():
        ch = _CURRENT[0]
        return 0.0 if ch is None else ch.choose(4, "random") / 4.0
    random.random = rnd


class under:
    """with under(chooser): library randomness is decided by it."""
    def __init__(self, chooser):
        self.chooser = chooser

    def __enter__(self):
        self.old = _CURRENT[0]
        _CURRENT[0] = self.chooser
        return self.chooser

    def __exit__(self, *a):
        _CURRENT[0] = self.old


# --------------------------------------------------------------- context
def short_hash(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "little")


class Ctx:
    """Per-worker accounting."""
    def __init__(self, tier="quick", seed=1, forced=None, known=()):
        self.tier, self.seed = tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.caps = {}
        self.counters = {}
        self.forced = forced          # replay: the recorded choices
        self.known = set(known)
        self.known_hits = {}
        self.case = None
        self.deadline = None

    def state(self, *key):
        self.states.add(short_hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, label):
        label = str(label)
        if label in self.outcomes or len(self.outcomes) < 5000:
            self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(kw)

    def cap(self, what):
        self.caps[what] = self.caps.get(what, 0) + 1

    # -- stateless exploration of choice trees ------------------------
    def explore(self, run, max_dev=None, max_runs=None, on_known=None):
        """run(chooser) is executed for every choice sequence (with at most
        max_dev non-default choices). Returns the number of executions."""
        if self.forced is not None:
            ch = Chooser(self.forced)
            try:
                run(ch)
            except Violation as v:
                v.choices = ch.choices
                raise
            return 1
        stack = [[]]
        runs = 0
        while stack:
            prefix = stack.pop()
            if max_runs is not None and runs >= max_runs:
                self.cap("max_runs")
                break
            ch = Chooser(prefix)
            try:
                run(ch)
            except Violation as v:
                v.choices = list(ch.choices)
                raise
            if ch.choices[:len(prefix)] != prefix:
                raise ReplayDivergence("prefix not replayed")
            runs += 1
            dev = sum(1 for c in prefix if c)
            # children, pushed so that the simplest are popped first
            kids = []
            for i in range(len(prefix), len(ch.points)):
                if max_dev is not None and dev + 1 > max_dev:
                    break
                for alt in range(1, ch.points[i]):
                    kids.append(ch.choices[:i] + [alt])
            stack.extend(reversed(kids))
        return runs


# --------------------------------------------------------------- watchdog
class watchdog:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(signum, frame):
            raise Hang("no answer within %g s of real time" % self.seconds)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def silence():
    """fd-level: Gurobi writes to the C stdout. Returns the real stdout fd."""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    sys.stdout = open(os.devnull, "w")
    return keep


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, bytes):
        return o.decode("latin1")
    return str(o)


def dumps(o, **kw):
    return json.dumps(o, default=jsonable, **kw)
