"""Stateless exploration of choice trees, and the bookkeeping every check shares.

A check is a function `body(ch, rec)` that drives the *real* gama code once.  Every
source of nondeterminism the check owns (thread schedule, queue delivery, random
draws, outcome of an evaluation, fault point, input value) is asked for with
`ch.choose(n, label)`.  `explore` runs `body` for every possible sequence of answers:
depth first, replaying the prefix and taking answer 0 ever after, exactly as in the
stateless model checkers Verisoft and CHESS.  With `bound=k` only executions with at
most k non-default answers at points declared `dev=True` are explored (delay/deviation
bounding).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold in the execution under way.

    `key` identifies the failing input/call site/history, for the known-findings file.
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Prune(BaseException):
    """The execution is not part of the space (an assumption does not hold)."""


class Hang(BaseException):
    """Raised by the watchdog: one single execution does not come to an end."""


class Chooser:
    def __init__(self, prefix=(), expect=()):
        self.prefix = list(prefix)
        self.expect = list(expect)
        self.trace = []  # (choice, n, dev)
        self.labels = []
        self.diverged = False
        self.deviations = 0

    def choose(self, n, label="", dev=False):
        if n <= 0:
            raise ValueError("nothing to choose from")
        i = len(self.trace)
        if n == 1 and not (i < len(self.prefix) and self.expect and self.expect[i] != 1):
            c = 0
        elif i < len(self.prefix):
            c = self.prefix[i]
            if (self.expect and i < len(self.expect) and self.expect[i] != n) or c >= n:
                self.diverged = True
                c = min(c, n - 1)
        else:
            c = 0
        if i < len(self.prefix) and self.prefix[i] != c:
            self.diverged = True
        if dev and c != 0:
            self.deviations += 1
        self.trace.append((c, n, dev))
        self.labels.append(label)
        return c

    def pick(self, options, label="", dev=False):
        options = list(options)
        return options[self.choose(len(options), label, dev)]

    def flag(self, label="", dev=False):
        return bool(self.choose(2, label, dev))

    @property
    def choices(self):
        return [c for c, _, _ in self.trace]


def known_keys(prop):
    """Keys of the findings recorded (not repaired) for this property."""
    path = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
    try:
        with open(path) as fh:
            return {
                f["key"]: f["what"]
                for f in json.load(fh).get("findings", [])
                if f["property"] == prop
            }
    except FileNotFoundError:
        return {}


class Recorder:
    """Counts what an exploration covers; collects violations."""

    MAX_SAMPLES = 4

    def __init__(self, prop="?", scenario="?", params=None):
        self.prop, self.scenario, self.params = prop, scenario, params
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.samples = []
        self.violations = []
        self.capped = False
        self.diverged = 0
        self.counters = {}
        self.known = known_keys(prop)
        self.known_hits = set()

    def state(self, *parts):
        """Note a (canonical) state or observed outcome."""
        blob = repr(parts).encode()
        self.states.add(hashlib.blake2b(blob, digest_size=8).digest())

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(obj)

    def fail(self, message, choices, trace_text="", key=None):
        if key is not None and key in self.known:
            self.known_hits.add(key)
            return
        self.violations.append(
            dict(
                property=self.prop,
                scenario=self.scenario,
                params=self.params,
                choices=list(choices),
                message=message,
                detail=trace_text,
            )
        )

    def export(self):
        return dict(
            scenario=self.scenario,
            executions=self.executions,
            transitions=self.transitions,
            states=list(self.states),
            samples=self.samples,
            violations=self.violations,
            capped=self.capped,
            diverged=self.diverged,
            counters=self.counters,
            known_hits=sorted(self.known_hits),
        )


EXECUTION_LIMIT_S = float(os.environ.get("VERIF_EXEC_LIMIT", "120"))


def _alarm(signum, frame):
    raise Hang()


def run_once(body, ch, rec):
    """Run one execution. Returns None, or (message, text) when the property broke."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXECUTION_LIMIT_S)
    try:
        try:
            body(ch, rec)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    except Prune:
        rec.count("pruned")
        return None
    except Violation as e:
        return str(e), traceback.format_exc(limit=12), e.key
    except Hang:
        return "execution does not terminate", traceback.format_exc(limit=12), "hang"
    except KeyboardInterrupt:
        return "KeyboardInterrupt escaped", traceback.format_exc(limit=12), None
    except BaseException as e:  # anything the code under test let escape
        return f"unexpected {type(e).__name__}: {e}", traceback.format_exc(limit=20), None
    return None


def explore(body, rec, bound=None, max_executions=None, stop_at=3, prefix=()):
    """Explore every execution of `body` (below the non-default-answer bound)."""
    stack = [(list(prefix), None)]
    while stack:
        if max_executions is not None and rec.executions >= max_executions:
            rec.capped = True
            return
        prefix_, expect = stack.pop()
        ch = Chooser(prefix_, expect or ())
        problem = run_once(body, ch, rec)
        rec.executions += 1
        rec.transitions += max(1, len(ch.trace))
        if ch.diverged:
            rec.diverged += 1
        if problem is not None:
            rec.fail(problem[0], ch.choices, problem[1], problem[2])
            if problem[2] == "hang" or len(rec.violations) >= stop_at:
                return
        ns = [n for _, n, _ in ch.trace]
        devs = []
        d = 0
        for c, n, dev in ch.trace:
            devs.append(d)
            d += 1 if (dev and c) else 0
        new = []
        for i in range(len(prefix_), len(ch.trace)):
            c, n, dev = ch.trace[i]
            if bound is not None and dev and devs[i] + 1 > bound:
                continue
            for alt in range(1, n):
                new.append((ch.choices[:i] + [alt], ns[: i + 1]))
        stack.extend(reversed(new))


def product_explore(rec, body, **domains):
    """Convenience: enumerate the product of `domains` through the chooser."""
    names = list(domains)

    def wrapped(ch, rec_):
        values = {k: ch.pick(domains[k], k) for k in names}
        return body(rec_, **values)

    explore(wrapped, rec)


def check(condition, message):
    if not condition:
        raise Violation(message)
