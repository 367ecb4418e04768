"""Drives the real search methods with an evaluation whose outcome the explorer picks.

The searches run as wired by a real Gama instance (its operator set, its callbacks),
inside `procs.Inline`: the real evaluator and worker loop, the explorer deciding which
evaluation in flight completes next, how it ends, and when a timeout strikes.
"""
import functools
import os
import random

import numpy as np
import stopit
from gama.genetic_programming.components import Fitness, Individual
from gama.utilities.evaluation_library import Evaluation
from gama.utilities.generic.async_evaluator import AsyncEvaluator

from mc import core, procs, rng, spaces

DRIVER = None  # the driver of the execution under way (workers run inline)


class WorkerDies(BaseException):
    pass


def evaluate(individual, **kwargs):
    """Stands in for the evaluation of a pipeline, executed by a worker."""
    return DRIVER.evaluation(individual, kwargs)


def find_individual(item, depth=4):
    """The individual a submitted item is about, wherever it is kept."""
    if isinstance(item, Individual):
        return item
    if depth == 0:
        return None
    if isinstance(item, (list, tuple)):
        parts = list(item)
    elif isinstance(item, dict):
        parts = list(item.values())
    elif isinstance(item, functools.partial):
        parts = [item.args, item.keywords, item.func]
    else:
        parts = list(getattr(item, "__dict__", {}).values())
    for part in parts:
        found = find_individual(part, depth - 1)
        if found is not None:
            return found
    return None


class Driver:
    """One execution of one or more searches on one Gama instance."""

    def __init__(self, ch, space="mixed", n_workers=1, outcomes=("ok1", "ok0", "error"),
                 interrupt=None, max_interrupts=1, regularize=True, order_dev=False,
                 gama_kwargs=None):
        global DRIVER
        DRIVER = self
        self.ch = ch
        self.n_workers = n_workers
        self.outcomes = list(outcomes)
        self.outcome_of = None  # fixes the outcome of the k-th evaluation, or None
        self.timeline = []  # ("submit", id, kwargs), ("result", id, (subsample, score))
        self.submitted = []  # (results delivered before, individual)
        self.interrupt = interrupt  # None or exception class
        self.interrupts_left = max_interrupts
        self.regularize = regularize
        self.order_dev = order_dev
        self.max_deaths = 0
        self.evaluated = []  # (id, outcome, kwargs) in order of execution
        self.scores = {}  # id -> list of scores by evaluation
        self.completed = []  # evaluations seen by a subscriber
        self.random_state = random.getstate()
        self.np_state = np.random.get_state()
        random.seed(7)
        np.random.seed(7)
        self.uuids = rng.deterministic_uuid()
        self.uuids.__enter__()
        self.saved_init = AsyncEvaluator.__init__
        self.saved_defaults = AsyncEvaluator.defaults
        self.config = spaces.spaces()[space]
        self.gama = spaces.new_gama(
            self.config, n_jobs=n_workers, regularize_length=regularize,
            **(gama_kwargs or {})
        )
        AsyncEvaluator.defaults = {}
        # what a fit provides for the search: workers, and a log of their memory usage
        AsyncEvaluator.__init__ = functools.partialmethod(
            self.saved_init, n_workers=n_workers, memory_limit_mb=None,
            logfile=os.path.join(self.gama.output_directory, "memory.log"),
        )
        self.ops = self.gama._operator_set
        self.ops.evaluate = evaluate
        self.gama.evaluation_completed(self.completed.append)

    def close(self):
        global DRIVER
        DRIVER = None
        AsyncEvaluator.__init__ = self.saved_init
        AsyncEvaluator.defaults = self.saved_defaults
        self.uuids.__exit__(None, None, None)
        random.setstate(self.random_state)
        np.random.set_state(self.np_state)
        import shutil

        shutil.rmtree(self.gama.output_directory, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    # ---- the world the search sees ------------------------------------------------
    def evaluation(self, individual, kwargs):
        k = len(self.evaluated)
        outcome = self.outcome_of(k) if self.outcome_of else None
        if outcome is None:
            deaths = sum(o == "dies" for _, o, _ in self.evaluated)
            options = [o for o in self.outcomes
                       if o != "dies"
                       # somebody has to survive: a lost call is never reported
                       or (deaths < self.max_deaths and self.env.job_queue._pipe)]
            outcome = self.ch.pick(options, "outcome")
        self.evaluated.append((str(individual._id), outcome, dict(kwargs)))
        for kind, ident, given in self.timeline:
            if kind == "submit" and ident == str(individual._id) and not given:
                given.update(kwargs, seen=True)
                break
        if outcome == "dies":
            raise WorkerDies()
        if outcome == "raise":
            raise ValueError("evaluation broke")
        result = Evaluation(individual, pid=1)
        failed = outcome in ("error", "stale")
        # ("ok", v): a score of v;  "okD": a score of D
        value = float("-inf") if failed else float(outcome[2:])
        result.score = (value,)
        if self.regularize:
            result.score += (-len(individual.primitives),)
        if failed:
            result.error = "it did not work"
        result.duration = 1.0
        individual.fitness = Fitness(result.score, None, 1.0, 1.0)
        self.scores.setdefault(str(individual._id), []).append(value)
        self.timeline.append(
            ("result", str(individual._id), (kwargs.get("subsample"), value))
        )
        return result

    def note_submit(self, item):
        ind = find_individual(item)
        if ind is not None:
            self.submitted.append((self.env.delivered, ind))
            # how it is to be evaluated becomes known when it is
            self.timeline.append(("submit", str(ind._id), {}))

    def before_result(self, env):
        if self.interrupt is None or self.interrupts_left <= 0:
            return
        if self.ch.choose(2, "interrupt strikes"):
            self.interrupts_left -= 1
            raise self.interrupt()

    def search(self, method, start, cap=200):
        """Runs one search; returns "done" or the name of what interrupted it."""
        env = procs.Inline(self.ch, order_dev=self.order_dev)
        env.worker_death = WorkerDies
        env.before_result = self.before_result
        env.cap = cap
        env.submitted = self.note_submit
        self.env = env
        with env:
            try:
                method.search(self.ops, start_candidates=start)
                how = "done"
            except procs.EnoughSeen:
                how = "cap"
            except (stopit.TimeoutException, KeyboardInterrupt) as e:
                if self.interrupt is None or not isinstance(e, self.interrupt):
                    raise
                how = type(e).__name__
        alive = [r for r in env.workers if r.alive or not r.reaped]
        core.check(not alive, f"{len(alive)} workers left after the search ({how})")
        return how

    # ---- what can be observed ---------------------------------------------------
    def ids(self, individuals):
        return [str(i._id) for i in individuals]

    def new_individuals(self, n):
        return [self.ops.individual() for _ in range(n)]

    def delivered_ok(self, since=0):
        """Ids of the individuals whose evaluation completed without error, in order."""
        return [
            str(e.individual._id) for e in self.completed[since:] if e.error is None
        ]
