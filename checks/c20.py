"""C20: fits, searches and evaluations keep to their time, on a clock the check moves."""
import itertools
import os
import shutil
import tempfile

import pandas as pd
from gama import GamaClassifier
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from gama.utilities.generic.stopwatch import Stopwatch
from gama.utilities.generic.timekeeper import TimeKeeper

from mc import clock as clock_module
from mc import core, e2e, procs, slow, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one or more real fits on a clock that the check moves (or one history "
    "of activities of the time keeper); state = (settings, durations of the evaluations)"
)
BOUNDS = {
    "quick": "3 searches, 9 settings of the limits, 4 mixes of durations of evaluations, "
    "2 kinds of model with 3 time fractions, one or two fits with a pause, a delay at any "
    "reading of the clock; all histories of 4 operations of the time keeper",
    "thorough": "as quick, with two delays, and histories of 6 operations",
}
ASSUMPTIONS = ["time only passes inside evaluations, between fits and where chosen"]
SEARCHES = dict(
    random=RandomSearch,
    ea=lambda: AsyncEA(population_size=3),
    asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=0.5, reduction_factor=2),
)
# (max_total_time, max_eval_time) -> seconds an evaluation may take, as documented
LIMITS = {
    (100, None): 10, (100, 7): 7, (30, None): 3, (8, None): 1, (4, None): 1,
    (20, 50): 20, (30, 17): 17, (7200, None): 720, (90000, 5000): 5000,
}
# time to train on one of the five folds, as part of what an evaluation may take
MIXES = ([0.061], [0.061, 0.153], [0.153, 0.251], [0.171, 2.05])
EPS = 1e-6


class Frame(pd.DataFrame):
    """A table at which it takes a while to look for the first time."""

    wait = None

    @property
    def _constructor(self):
        return Frame

    @property
    def dtypes(self):
        if Frame.wait is not None:
            wait, Frame.wait = Frame.wait, None
            wait()
        return super().dtypes


def scenarios(tier):
    out = []
    for search in SEARCHES:
        for i, (total, single) in enumerate(LIMITS):
            for mix in range(len(MIXES)):
                out.append(dict(name=f"{search}-{total}-{single}-{mix}", op="fit",
                                search=search, total=total, single=single, mix=mix,
                                delays=0))
    for search in SEARCHES:
        out.append(dict(name=f"delay-{search}", op="fit", search=search, total=20,
                        single=None, mix=1, delays=1 + (tier == "thorough")))
    for total in (20, None):
        out.append(dict(name=f"keeper-{total}", op="keeper", total=total,
                        depth=4 + 2 * (tier == "thorough")))
    out.append(dict(name="stopwatch", op="stopwatch"))
    return out


def body(name, p, tier):
    def fit(ch, rec):
        if p["delays"]:
            frac, pp_kind, again = 0.3, "best", False
        else:
            frac = ch.pick((0.1, 0.5, 0.0), "time fraction", dev=True)
            pp_kind = ch.pick(("best", "ensemble"), "model", dev=True)
            again = ch.flag("second fit", dev=True)
        # time to look at the data, before the search
        pre = 0.0 if p["delays"] or p["total"] == 4 else ch.pick(
            (0.0, p["total"] * 0.41, p["total"] + 5.0), "preparation", dev=True)
        allowed = LIMITS.get((p["total"], p["single"]), 2)
        seen, given, starts = [], [], []
        base = BestFitPostProcessing if pp_kind == "best" else EnsemblePostProcessing
        costs = [allowed * part for part in MIXES[p["mix"]]]

        class Post(base):
            def post_process(self, x, y, timeout, selection):
                given.append((clock.now, timeout))
                return super().post_process(x, y, timeout, selection) if selection else None

        x, y = e2e.small_data(15)
        x, y = Frame(x.iloc[:12]), y.iloc[:12]
        root = tempfile.mkdtemp(dir=os.getcwd())
        with e2e.session(3):
            env = procs.Inline(ch, order_dev=True)
            with env, clock_module.Clock(env) as clock:
                slow.CLOCK = clock
                jumps = [0.0]
                if p["delays"]:
                    reads = [0]

                    def on_read():
                        reads[0] += 1
                        if env.in_worker is None and reads[0] <= 12 and given == []:
                            jump = ch.pick((0.0, 3.0, 45.0), "delay", dev=True)
                            if jump:
                                jumps.append(jump)
                                clock.now += jump

                try:
                    g = spaces.new_gama(
                        {slow.Slow: {"cost": costs, "tag": [0, 1, 2]}}, search=SEARCHES[p["search"]](),
                        post_processing=Post(time_fraction=frac),
                        output_directory=os.path.join(root, "out"),
                        max_total_time=p["total"], max_eval_time=p["single"],
                    )
                    real = slow.Slow.fit

                    def before(env_):
                        clock.poll()
                        starts.append(clock.now)

                    env.before_result = before
                    g.evaluation_completed(
                        lambda e: seen.append((starts[-1], clock.now, e)))
                    for number in range(1 + again):
                        del seen[:], given[:], starts[:]
                        clock.now += 17.0 * number
                        env.cap = env.delivered + 1500
                        start = clock.now
                        if p["delays"]:
                            clock.on_read = on_read
                        if pre:
                            Frame.wait = lambda: clock.move(pre)
                        try:
                            g.fit(x, y, warm_start=[])
                        except RuntimeError as e:
                            core.check(sum(jumps) + pre > p["total"],
                                       f"refused to search: {e}")
                            core.check(not starts, "evaluated, but then refused")
                            rec.state(name, "refused", tuple(jumps))
                            return
                        finally:
                            clock.on_read = None
                            Frame.wait = None
                        core.check(pre <= p["total"], "searched without time left")
                        judge(start, pre, seen, given, starts, allowed, frac, costs, jumps)
                finally:
                    slow.CLOCK = None
                    shutil.rmtree(root, ignore_errors=True)
        rec.state(name, frac, pp_kind, again, pre, len(seen), tuple(jumps))
        rec.sample(dict(evaluations=len(seen), searched=given[0][0] - start))

    def judge(start, pre, seen, given, starts, allowed, frac, costs, jumps):
        total = p["total"]
        deadline = start + pre + (1 - frac) * (total - pre)
        core.check(len(given) == 1, f"post-processing was called {len(given)} times")
        end, left = given[0]
        lost = sum(jumps)
        core.check(abs(left - (start + total - end)) < EPS + lost,
                   f"{left} seconds left for post-processing, not {start + total - end}")
        core.check(end <= deadline + lost + EPS,
                   f"the search ended {end - deadline:.2f}s too late")
        core.check(end >= deadline - 1 - lost - EPS,
                   f"the search ended {deadline - end:.2f}s too early")
        rungs = 2 if p["search"] == "asha" else 1
        for began, ended, e in seen:
            took = ended - began
            # evaluations on the lower rungs are marked by what is reported as an error
            partial = rungs == 2 and e.error is not None and "full" in e.error
            cost = e.individual.pipeline.steps[-1][1].cost * 5
            limit = min(allowed, deadline + lost - began)
            core.check(took <= limit + EPS,
                       f"an evaluation took {took:.2f}s, allowed were {limit:.2f}s")
            if cost < min(allowed, int(deadline - start - pre) + start + pre - began - lost) - EPS:
                core.check((e.error is None or partial) and e.score[0] > float("-inf"),
                           f"an evaluation of {cost}s failed: {e.error}")
                core.check(abs(took - cost) < EPS + lost, f"took {took}s, not {cost}s")
            if cost > limit + EPS:
                core.check(e.error is not None and ("Timeout" in e.error or partial),
                           f"an evaluation of {cost}s was not cut off ({e.error})")
                core.check(e.score[0] == float("-inf"), f"its score is {e.score}")
            core.check(abs(e.individual.fitness.wallclock_time - took) < EPS,
                       f"recorded as {e.individual.fitness.wallclock_time}s, took {took}s")
        core.check(all(t <= deadline + lost + EPS for t in starts),
                   "an evaluation started after the search had to end")
        core.check(rungs == 2 or not starts or seen or min(costs) * 5 > allowed
                   or deadline - start - pre < min(costs) * 5 + 1 + lost,
                   "no evaluation was reported")

    def keeper(ch, rec):
        """All histories of activities against a sum."""
        env = procs.Inline(ch)
        with env, clock_module.Clock(env) as clock:
            total = p["total"]
            k = TimeKeeper(total)
            spent, current, log = 0.0, None, []
            stack = []

            def look():
                if total is None:
                    raises(lambda: k.total_time_remaining)
                else:
                    running = clock.now - current[0] if current else 0.0
                    core.check(abs(k.total_time_remaining - (total - spent - running)) < EPS,
                               f"{k.total_time_remaining} remaining after {log}")
                if current is None:
                    core.check(k.current_activity is None, f"an activity goes on: {log}")
                    raises(lambda: k.current_activity_time_elapsed)
                    raises(lambda: k.current_activity_time_left)
                    return
                began, limit, act = current
                core.check(k.current_activity.name == act, f"wrong activity: {log}")
                core.check(abs(k.current_activity_time_elapsed - (clock.now - began)) < EPS,
                           f"wrong time elapsed: {log}")
                left = None if limit is None else limit - (clock.now - began)
                if limit is None:
                    raises(lambda: k.current_activity_time_left)
                else:
                    core.check(abs(k.current_activity_time_left - left) < EPS,
                               f"wrong time left: {log}")
                for margin in (0.0, 3.0):
                    want = limit is not None and left < -margin
                    core.check(bool(k.current_activity.exceeded_limit(margin)) == want,
                               f"limit exceeded by {margin}? {not want}: {log}")

            def raises(f):
                try:
                    f()
                except RuntimeError:
                    return
                raise core.Violation(f"no error although undefined: {log}")

            look()
            for step in range(p["depth"]):
                op = ch.pick(("start", "start limited", "start zero", "move 2", "move 7")
                             if current is None
                             else ("end", "fail", "interrupt", "move 2", "move 7"),
                             "operation")
                log.append(op)
                if op.startswith("start"):
                    limit = {"start": None, "start limited": 5, "start zero": 0}[op]
                    act = f"a{step}"
                    cm = k.start_activity(act, time_limit=limit, activity_meta=["m"])
                    cm.__enter__()
                    stack.append(cm)
                    current = (clock.now, limit, act)
                elif op.startswith("move"):
                    clock.now += float(op[-1])
                else:
                    error = dict(end=None, fail=ValueError("x"),
                                 interrupt=KeyboardInterrupt())[op]
                    cm = stack.pop()
                    try:
                        swallowed = cm.__exit__(
                            type(error) if error else None, error, None)
                    except BaseException as e:
                        core.check(e is error, f"{e!r} instead of {error!r}")
                    else:
                        core.check(error is None or not swallowed,
                                   f"{error!r} was swallowed")
                    spent += clock.now - current[0]
                    current = None
                look()
            core.check([a.name for a in k.activities]
                       == [f"a{i}" for i, o in enumerate(log) if o.startswith("start")],
                       f"activities after {log}: {[a.name for a in k.activities]}")
            rec.state(name, tuple(log))
            for cm in stack:
                cm.__exit__(None, None, None)

    def stopwatch(ch, rec):
        now = [10.0]
        log = []
        sw = Stopwatch(lambda: now[0])
        began, ended = None, None
        for _ in range(6):
            op = ch.pick(("move", "toggle"), "operation")
            log.append(op)
            if op == "move":
                now[0] += 3.0
            elif began is None or ended is not None:
                sw.__enter__()
                began, ended = now[0], None
            else:
                sw.__exit__(None, None, None)
                ended = now[0]
            want = 0 if began is None else (now[0] if ended is None else ended) - began
            core.check(sw.elapsed_time == want, f"{sw.elapsed_time}, not {want}: {log}")
        rec.state(name, tuple(log))

    return dict(fit=fit, keeper=keeper, stopwatch=stopwatch)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, 
                 bound=p.get("delays") or (2 if tier == "thorough" else 1))
