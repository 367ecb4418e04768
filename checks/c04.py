"""C04: successive halving promotes by the rules and returns its highest rung."""
import math

from gama.search_methods.asha import AsynchronousSuccessiveHalving, asha
from stopit import TimeoutException

from mc import core, searches

LEVEL = "model_checking"
RULE = (
    "one execution = one run of the real search with one assignment of outcomes to "
    "evaluations, completion order and end point; state = (scenario, (rung, outcome) of "
    "every evaluation in order, how it ended, number of individuals returned)"
)
BOUNDS = {
    "quick": "1-2 workers, reduction factors 2-5, 1-4 rungs (fraction or row count), 0-9 "
    "start candidates, searches watched for up to 17 evaluations of which up to 8 have "
    "every outcome in {two scores, error/exception}; end by timeout or user at any point",
    "thorough": "as quick with 10 free outcomes and more completion orders",
}
ASSUMPTIONS = [
    "the evaluation of a pipeline is replaced by one whose outcome the explorer picks",
    "random draws of the genetic operators are fixed here (all of them: C06, C07)",
    "an interruption strikes while the search waits for a result",
]

SETTINGS = {
    # reduction, minimum, maximum, early stopping rate -> resource by rung
    "two": (2, 0.5, 1.0, 0, {0: 0.5, 1: 1.0}),
    "three": (3, 0.125, 1.0, 0, {0: 0.125, 1: 0.375, 2: 1.0}),
    "half3": (2, 0.25, 1.0, 0, {0: 0.25, 1: 0.5, 2: 1.0}),
    "rows": (2, 10, 35, 0, {0: 10, 1: 20, 2: 35}),
    "rows5": (5, 1, 125, 1, {1: 5, 2: 25, 3: 125}),
    "rows5s": (5, 1, 125, 2, {2: 25, 3: 125}),
    "rows5t": (5, 1, 125, 3, {3: 125}),
    "rows3": (3, 4, 12, 0, {0: 4, 1: 12}),
    "skip": (2, 0.25, 1.0, 1, {1: 0.5, 2: 1.0}),
    "none": (3, 0.5, 1.0, 3, {3: 1.0}),
    "less": (2, 100, 20, 0, {0: 20}),
    "top": (3, 1.0, 1.0, 0, {0: 1.0}),
    "deep": (2, 1, 16, 3, {3: 8, 4: 16}),
    "deep3": (3, 1, 729, 4, {4: 81, 5: 243, 6: 729}),
    "seventh": (7, 1 / 49, 1.0, 1, {1: 1 / 7, 2: 1.0}),
}


class Limited(AsynchronousSuccessiveHalving):
    """Ends by itself, when so many pipelines were evaluated on all data."""

    limit = None

    def search(self, operations, start_candidates):
        self.output = asha(operations, start_candidates=start_candidates,
                           max_full_evaluations=self.limit, **self.hyperparameters)


def scenarios(tier):
    deep = 2 if tier == "thorough" else 0
    out = []

    def add(**kw):
        kw.setdefault("outcomes", ["ok1", "ok0"])
        kw.setdefault("exc", "TimeoutException")
        kw["name"] = "-".join(
            str(v if not isinstance(v, list) else "".join(x[-2:] for x in v))
            for v in kw.values()
        )
        out.append(kw)

    for s in SETTINGS:
        for start in (0, 3, 9):
            add(setting=s, start=start, workers=1, free=7 + deep, cap=12)
    for s in ("two", "half3", "rows"):
        add(setting=s, start=2, workers=1, free=5 + deep, cap=14,
            outcomes=["ok1", "ok0", "ok2"])
        add(setting=s, start=2, workers=1, free=5 + deep, cap=12,
            outcomes=["ok1", "error", "raise"])
    for s in ("rows5s", "three"):
        # more evaluations on a rung than there are promotions due for long
        add(setting=s, start=2, workers=1, free=3, cap=17, outcomes=["ok2", "ok1", "ok0"])
    for s in ("half3", "two"):
        add(setting=s, start=2, workers=2, free=4, cap=11, orders=2 + deep)
        add(setting=s, start=2, workers=3, free=3, cap=9, orders=2 + deep)
    for s in ("two", "half3", "top", "three"):
        for exc in ("TimeoutException", "KeyboardInterrupt"):
            add(setting=s, start=3, workers=1, free=4 + deep, cap=9, exc=exc, stop=True,
                outcomes=["ok0", "error"])
            add(setting=s, start=1, workers=1, free=4 + deep, cap=9, exc=exc, stop=True,
                outcomes=["ok0", "raise"])
    for s in ("two", "half3"):
        add(setting=s, start=2, workers=1, free=4, cap=9, again=True,
            outcomes=["ok0", "error"])
    for s in ("two", "top", "deep"):
        for full in (1, 2):
            add(setting=s, start=2, workers=1, free=5, cap=12, full=full,
                outcomes=["ok1", "error"])
            add(setting=s, start=2, workers=2, free=3, cap=10, full=full, orders=2)
    return out


def body(name, p, tier):
    reduction, low, high, skip, resources = SETTINGS[p["setting"]]
    exc = dict(TimeoutException=TimeoutException, KeyboardInterrupt=KeyboardInterrupt)[
        p["exc"]
    ]

    def one(ch, rec):
        with searches.Driver(
            ch, n_workers=p["workers"], outcomes=p["outcomes"], space="pre2",
            interrupt=exc, order_dev=True,
        ) as d:
            kind = Limited if p.get("full") else AsynchronousSuccessiveHalving
            method = kind(
                reduction_factor=reduction, minimum_resource=low, maximum_resource=high,
                minimum_early_stopping_rate=skip,
            )
            method.limit = p.get("full")
            start = d.new_individuals(p["start"])
            log = []
            for _ in range(2 if p.get("again") else 1):
                given = list(start)
                since, first = len(d.completed), len(d.evaluated)
                d.submitted = []
                d.interrupts_left = 1
                how = watch(d, method, start)
                core.check(d.ids(start) == d.ids(given), "the caller's list was changed")
                log.append(judge(d, method, how, given, since, first))
                start = method.output
            rec.state(name, log)
            rec.sample(dict(rungs=log, choices=ch.choices[:40]))

    def watch(d, method, start):
        """Run the search until it is interrupted (it does not end by itself)."""
        n0 = len(d.evaluated)

        struck = []

        def before_result(env):
            k = len(d.evaluated) - n0
            if k >= p["cap"] or (p.get("stop") and d.ch.choose(2, "interrupt strikes")):
                struck.append(k)
                raise exc()

        def outcome(k):
            if k - n0 < p["free"]:
                return None
            return ("ok1", "ok0")[(k * 7 // 3) % 2]

        d.before_result = before_result
        d.outcome_of = outcome
        how = d.search(method, start)
        if p.get("full"):
            d.ended_itself = not struck
            return how
        core.check(struck, f"search ended by itself after {len(d.evaluated) - n0} evaluations")
        return how

    def judge(d, method, how, given, since, first):
        ran = d.evaluated[first:]
        done = d.completed[since:]
        events = list(d.timeline)
        d.timeline.clear()
        # -- which rung, on how much data, in what order
        rung_of = {v: k for k, v in resources.items()}
        entered = {}  # id -> rungs
        finished = {r: [] for r in resources}  # rung -> [(score, id)]
        promoted = {r: [] for r in resources}
        started = 0
        left = list(d.ids(given))
        lowest = min(resources)
        rungs = []
        for kind, ident, value in events:
            if kind == "submit":
                started += 1
                r = None  # submitted, but never evaluated: the rung is not known
                done_rungs = entered.setdefault(ident, [])
                if value.get("seen"):
                    subsample = value.get("subsample")
                    match = [q for s, q in rung_of.items() if math.isclose(s, subsample)]
                    core.check(match, f"evaluated on {subsample}, which is no rung")
                    core.check(
                        type(subsample) is type(high) or p["setting"] == "top",
                        f"resource is a {type(subsample).__name__}",
                    )
                    r = match[0]
                    core.check(r not in done_rungs, f"rung {r} twice for one pipeline")
                # what should come next, from the top rung down
                for q in sorted(resources, reverse=True)[1:]:
                    quota = len(finished[q]) // reduction - len(promoted[q])
                    rest = [(s, i) for s, i in finished[q] if i not in promoted[q]]
                    if quota > 0 and rest:
                        core.check(r in (None, q + 1),
                                   f"rung {r} started, promotion from {q} due")
                        best = max(s for s, _ in rest)
                        mine = [s for s, i in rest if i == ident]
                        core.check(mine, f"promoted from rung {q} without being due")
                        core.check(mine[0] == best,
                                   f"promoted with score {mine[0]}, best was {best}")
                        promoted[q].append(ident)
                        r = q + 1
                        break
                else:
                    core.check(r in (None, lowest), f"rung {r} without a promotion due")
                    r = lowest
                    if left:
                        core.check(ident in left, "new pipeline before start candidates")
                        left.remove(ident)
                done_rungs.append(r)
                rungs.append(r)
            elif kind == "result":
                r, score = value
                finished[rung_of_close(rung_of, r)].append((score, ident))
        # -- what comes out
        reached = [r for r in finished if finished[r]]
        want = sorted(i for _, i in finished[max(reached)]) if reached else []
        have = sorted(d.ids(method.output))
        core.check(have == want, f"{len(have)} returned, highest rung has {len(want)}")
        if p.get("full"):
            n_full = len(finished[max(resources)])
            core.check(n_full == p["full"] if d.ended_itself else n_full < p["full"],
                       f"{'ended' if d.ended_itself else 'went on'} with {n_full} complete "
                       f"evaluations, {p['full']} were asked for")
        # only evaluations on the top rung are complete evaluations
        top = resources[max(resources)]
        for e in done:
            k = [v for i, o, v in ran if i == str(e.individual._id)]
            full = any(e_sub(e, v, top) for v in k)
            outcomes = [o for i, o, v in ran if i == str(e.individual._id)]
            if e.error is None:
                core.check(full, "evaluated on part of the data, reported as complete")
            elif len(outcomes) == 1 and outcomes[0].startswith("ok"):
                core.check(not full, f"a complete evaluation is reported as {e.error!r}")
            elif outcomes == ["error"]:
                core.check(e.error == "it did not work",
                           f"a failure is reported as {e.error!r}")
        return [
            (rung_of_close(rung_of, v.get("subsample")), o) for _, o, v in ran
        ], how, len(have)

    def e_sub(e, v, top):
        return math.isclose(v.get("subsample"), top)

    def rung_of_close(rung_of, value):
        return [r for s, r in rung_of.items() if math.isclose(s, value)][0]

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=p.get("orders", 1))
