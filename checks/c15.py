"""C15: callbacks see every evaluation, and can not break a fit."""
import os
import shutil
import tempfile

import pandas as pd
import stopit
from gama.postprocessing import EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import MinMaxScaler, StandardScaler

from mc import clock as clock_module
from mc import core, e2e, procs, slow, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one or two real fits with every callback behaving as chosen at every "
    "evaluation; state = (search, behaviour of the callbacks, number of evaluations)"
)
BOUNDS = {
    "quick": "3 searches x 2 kinds of model, 2 callbacks, 3 evaluations; at most two "
    "misbehaviours out of {error, odd error, user interrupt, timeout, swallowed timeout, "
    "time lost}; fits repeated once; 5 callbacks with failing evaluations",
    "thorough": "as quick with 4 evaluations and three misbehaviours for random search",
}
ASSUMPTIONS = ["callbacks do not change the evaluation they are given"]
SEARCHES = dict(
    random=RandomSearch,
    ea=lambda: AsyncEA(population_size=3),
    asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=1.0, reduction_factor=2),
)
HOW = ("fine", "error", "odd error", "interrupt", "timeout")
SPACE = {GaussianNB: {"var_smoothing": [1e-9, 1e-3, 0.1]}, MinMaxScaler: {},
         StandardScaler: {}}
FAILING = {GaussianNB: {"var_smoothing": [1e-9, 0.1, "not a number"]}, MinMaxScaler: {}}


def scenarios(tier):
    out = []
    for search in SEARCHES:
        for pp in ("best", "ensemble"):
            for where in range(4 if pp == "best" else 1):
                out.append(dict(name=f"faults-{search}-{pp}-{where}", op="faults",
                                search=search, pp=pp, where=where,
                                n=3 + (tier == "thorough")))
        out.append(dict(name=f"failing-{search}", op="failing", search=search, n=6))
    for search in SEARCHES:
        for late in (1, 40, 70, 200):
            out.append(dict(name=f"time-{search}-{late}", op="time", search=search,
                            late=late))
    return out


class Odd(Exception):
    """Not even its text can be had."""

    def __str__(self):
        raise ValueError("no text")


def body(name, p, tier):
    def new(**kw):
        root = tempfile.mkdtemp(dir=os.getcwd())
        out = os.path.join(root, "out")
        pp = (EnsemblePostProcessing(ensemble_size=2) if p.get("pp") == "ensemble"
              else None)
        space = kw.pop("space", SPACE)
        g = spaces.new_gama(space, search=SEARCHES[p["search"]](), post_processing=pp,
                            output_directory=out, store="logs", **kw)
        return g, root

    def rows(root):
        return pd.read_csv(os.path.join(root, "out", "evaluations.log"), sep=";")

    def faults(ch, rec):
        """The first callback is well behaved, the others are not (nor is their order)."""
        x, y = e2e.small_data(15)
        behaviour, seen = [], [[], [], []]
        ended = []

        def misbehaving(which):
            def call(evaluation):
                seen[which].append(evaluation)
                n = len(seen[which])
                # ended at its first evaluation, a search has nothing to show yet
                how = HOW if n > 1 else HOW[:3]
                if n == p["where"] and which == 0:
                    how = ch.pick(how[1:], "callback")  # this one misbehaves in any case
                else:
                    how = ch.pick(how, "callback", dev=True)
                behaviour.append(how)
                if how == "error":
                    raise ValueError("callback fails")
                if how == "odd error":
                    raise Odd()
                if how == "interrupt":
                    ended.append(n)
                    raise KeyboardInterrupt()
                if how == "timeout":
                    ended.append(n)
                    raise stopit.TimeoutException()
            return call

        with e2e.session(5):
            g, root = new()
            try:
                g.evaluation_completed(misbehaving(0))
                g.evaluation_completed(seen[2].append)
                g.evaluation_completed(misbehaving(1))
                total = 0
                for fit_number in range(2 if p["where"] == 0 else 1):
                    behaviour.clear()
                    del ended[:]
                    for s in seen:
                        s.clear()
                    env = e2e.fit(g, ch, x, y, limit=p["n"], order_dev=False)[1]
                    n = env.delivered
                    total += n
                    what = f"{p['search']} with callbacks {behaviour}"
                    core.check(n == p["n"] or ended, f"{what}: only {n} evaluations")
                    core.check(not ended or n == ended[0],
                               f"{what}: went on from {ended} to {n} evaluations")
                    core.check(len(seen[0]) == n,
                               f"{what}: the first callback saw {len(seen[0])} of {n}")
                    cut = 1 if ended else 0
                    for s in seen[1:]:
                        core.check(n - cut <= len(s) <= n,
                                   f"{what}: a later callback saw {len(s)} of {n}")
                    for s in seen[1:]:
                        core.check(all(a is b for a, b in zip(seen[0], s)),
                                   f"{what}: callbacks saw other evaluations")
                    ids = [str(e.individual._id) for e in seen[0]]
                    core.check(len(set(ids)) == n, f"{what}: an evaluation was seen twice")
                    log = list(rows(root).id)
                    core.check(len(log) == total and log[total - n:] == ids,
                               f"{what}: {len(log)} evaluations logged, {total} made")
                    core.check(len(g.predict(x)) == len(x), f"{what}: no model")
                    texts = [e.individual.pipeline_str() for e in seen[0]]
                    reference = baseline(fit_number)
                    core.check(
                        texts == reference[:n],
                        f"{what}: evaluated {texts}, without them {reference[:n]}",
                    )
                    if fit_number == 0 and ended:
                        break  # from here on, the search differs
            finally:
                shutil.rmtree(root, ignore_errors=True)
        rec.state(name, tuple(behaviour))
        rec.sample(behaviour)

    def failing(ch, rec):
        """Evaluations that failed are completed evaluations, too."""
        x, y = e2e.small_data(15)
        seen = [[] for _ in range(5)]
        bad = ch.choose(6, "which callback misbehaves")
        how = ch.pick(HOW[1:3], "how") if bad < 5 else "fine"

        def callback(i):
            def call(evaluation):
                seen[i].append(evaluation)
                if i == bad:
                    raise ValueError("callback fails") if how == "error" else Odd()
            return call

        with e2e.session(ch.pick((1, 2, 3), "seed")):
            g, root = new(space=FAILING)
            try:
                for i in range(5):
                    g.evaluation_completed(callback(i))
                try:
                    env = e2e.fit(g, ch, x, y, limit=p["n"], order_dev=False)[1]
                except Exception:
                    if any(e.error is None for e in seen[0]):
                        raise
                    raise core.Prune()  # there is no model if everything failed
                n = env.delivered
                for i, s in enumerate(seen):
                    core.check(len(s) == n and all(a is b for a, b in zip(s, seen[0])),
                               f"{p['search']}: callback {i} saw {len(s)} of {n} evaluations "
                               f"while callback {bad} is faulty ({how})")
                failed = [str(e.individual._id) for e in seen[0] if e.error is not None]
                log = rows(root)
                core.check(list(log.id) == [str(e.individual._id) for e in seen[0]],
                           f"{p['search']}: {len(log)} of {n} evaluations are in the log")
            finally:
                shutil.rmtree(root, ignore_errors=True)
        rec.count("failed_evaluations", len(failed))
        rec.state(name, bad, how, len(failed))

    cache = {}

    def baseline(fit_number):
        """What is evaluated without callbacks that misbehave."""
        if fit_number not in cache:
            x, y = e2e.small_data(15)
            with e2e.session(5):
                g, root = new()
                try:
                    seen = []
                    g.evaluation_completed(
                        lambda e: seen.append(e.individual.pipeline_str()))
                    for i in range(fit_number + 1):
                        del seen[:]
                        e2e.fit(g, core.Chooser(), x, y, limit=p["n"], order_dev=False)
                        cache[i] = list(seen)
                finally:
                    shutil.rmtree(root, ignore_errors=True)
        return cache[fit_number]

    def timed(ch, rec):
        """A callback loses time, and perhaps swallows the timeout which strikes then."""
        x, y = e2e.small_data(15)
        at = 1 + ch.choose(3, "which evaluation")
        swallow = ch.flag("swallow")
        again = ch.flag("second fit")
        seen = []
        swallowed = []
        with e2e.session(5):
            env = procs.Inline(ch, order_dev=True)
            with env, clock_module.Clock(env) as clock:
                slow.CLOCK = clock
                g, root = new(space={slow.Slow: {"cost": [0.9, 1.0, 1.1]}},
                              max_total_time=60, max_eval_time=10)
                env.before_result = lambda _: clock.move(0.1)

                def late(evaluation):
                    seen.append(clock.now)
                    if len(seen) == at + 1:
                        try:
                            clock.move(p["late"])
                        except Exception:
                            if not swallow:
                                raise
                            swallowed.append(clock.now)
                            # it was cut short, the rest of the time is lost now
                            clock.now += max(0, seen[-1] + p["late"] - clock.now)

                try:
                    g.evaluation_completed(late)
                    for fit_number in range(1 + again):
                        del seen[:]
                        start = clock.now
                        env.cap = env.delivered + 400
                        g.fit(x, y, warm_start=[])
                        core.check(len(g.predict(x)) == len(x), "no model")
                        # after the end of the search, at most one more round is seen
                        limit = start + 0.9 * 60
                        slack = 3.0 + (p["late"] if swallowed else 0)
                        late_ones = [t for t in seen if t > limit + 3.0 + 1e-6]
                        core.check(
                            len(late_ones) <= 1 and clock.now <= limit + slack + 10,
                            f"the search went on until {clock.now - start:.1f}s, "
                            f"{len(late_ones)} evaluations after the limit",
                        )
                        if p["late"] < 54:
                            core.check(clock.now - start > 40,
                                       f"the search stopped after {clock.now - start:.1f}s")
                finally:
                    slow.CLOCK = None
                    shutil.rmtree(root, ignore_errors=True)
        rec.state(name, at, swallow, again, len(seen))
        rec.sample(dict(at=at, swallow=swallow, seen=len(seen)))

    return dict(faults=faults, time=timed, failing=failing)[p["op"]]


def run(name, p, rec, tier):
    bound = 1
    if p["op"] == "faults" and tier == "thorough" and p["search"] == "random":
        bound = 2
    core.explore(body(name, p, tier), rec, bound=bound)
