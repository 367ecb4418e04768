"""C03: evolutionary search keeps exactly what it found, whatever fails or ends it."""
import collections

from gama.search_methods.async_ea import AsyncEA
from stopit import TimeoutException

from mc import core, searches

LEVEL = "model_checking"
RULE = (
    "one execution = one run (or sequence of runs) of the real evolutionary search with "
    "one assignment of outcomes to evaluations, completion order and interruption point; "
    "state = (scenario, evaluations in order with outcome, how it ended, population)"
)
BOUNDS = {
    "quick": "1-2 workers, 1-4 start candidates, population 1-4, up to 6 evaluations; all "
    "outcomes in {two scores, error, exception, worker death}, all completion orders, "
    "interruption before any result, restart after any evaluation, two searches in a row",
    "thorough": "as quick with up to 8 evaluations and three searches in a row",
}
ASSUMPTIONS = [
    "the evaluation of a pipeline is replaced by one whose outcome the explorer picks",
    "random draws of the genetic operators are fixed here (all of them: C06, C07)",
    "an interruption strikes while the search waits for a result",
]


def scenarios(tier):
    deep = 1 if tier == "thorough" else 0
    out = []

    def add(**kw):
        kw.setdefault("outcomes", ["ok1", "ok0", "error"])
        kw["name"] = "-".join(
            str(v if not isinstance(v, list) else "".join(x[-2:] for x in v))
            for v in kw.values()
        )
        out.append(kw)

    for pop in (1, 2, 3, 4):
        for start in (1, 2, 4):
            for reg in (False, True):
                add(op="run", pop=pop, start=start, n=5 + deep, workers=1, reg=reg)
    for pop in (1, 3):
        for start in (2, 3):
            add(op="run", pop=pop, start=start, n=4 + deep, workers=2, reg=False)
    for n in (1, 2, 3):
        add(op="run", pop=3, start=3, n=n, workers=2, reg=True)
    add(op="run", pop=2, start=2, n=4 + deep, workers=3, reg=False)
    add(op="run", pop=3, start=2, n=5 + deep, workers=1, reg=True,
        outcomes=["ok1", "error", "raise"])
    add(op="run", pop=3, start=2, n=4 + deep, workers=2, reg=True,
        outcomes=["ok0", "raise", "error"])
    for workers in (1, 2):
        add(op="dies", pop=3, start=4, n=5 + deep, workers=workers, reg=True,
            outcomes=["ok0", "dies"])
    for exc in ("TimeoutException", "KeyboardInterrupt"):
        for pop in (1, 2):
            add(op="stop", pop=pop, start=2, n=5 + deep, workers=1, reg=False, exc=exc)
            add(op="stop", pop=pop, start=2, n=4 + deep, workers=2, reg=True, exc=exc,
                outcomes=["ok0", "error"])
        add(op="stop", pop=2, start=3, n=None, workers=1, reg=False, exc=exc)
    for pop in (1, 2, 3):
        for start in (1, 2):
            add(op="restart", pop=pop, start=start, n=5 + deep, workers=1, reg=True,
                outcomes=["ok0", "error"])
    for pop in (1, 2):
        add(op="restart", pop=pop, start=3, n=5 + deep, workers=1, reg=False,
            outcomes=["ok1", "ok0"])
    add(op="restart", pop=1, start=2, n=4 + deep, workers=2, reg=False,
        outcomes=["ok1", "ok0"])
    add(op="restart", pop=2, start=2, n=4 + deep, workers=2, reg=True,
        outcomes=["ok0", "error"])
    for pop in (1, 2, 3):
        for start in (2, 3):
            add(op="again", pop=pop, start=start, n=3, workers=1, reg=False)
    add(op="again", pop=2, start=2, n=3, workers=2, reg=True, outcomes=["ok0", "error"])
    for exc in ("TimeoutException", "KeyboardInterrupt"):
        add(op="again", pop=2, start=2, n=3, workers=1, reg=True, exc=exc,
            outcomes=["ok0", "error"])
    return out


def body(name, p, tier):
    exc = dict(TimeoutException=TimeoutException, KeyboardInterrupt=KeyboardInterrupt)

    def one(ch, rec):
        with searches.Driver(
            ch, n_workers=p["workers"], outcomes=p["outcomes"], regularize=p["reg"],
            interrupt=exc.get(p.get("exc")), space="pre2",
        ) as d:
            if p["op"] == "again":
                again(ch, rec, d)
            else:
                single(ch, rec, d)

    def judge(d, method, how, start, since, first, n, restarts=()):
        """The population and the progress against everything that was observed."""
        done = d.completed[since:]
        pop = d.ids(method.output)
        ok = [str(e.individual._id) for e in done if e.error is None]
        for i in method.output:
            core.check(i.fitness is not None, "individual without fitness in population")
        core.check(len(set(pop)) == len(pop), f"duplicates in the population: {pop}")
        core.check(len(pop) <= p["pop"], f"{len(pop)} individuals, at most {p['pop']}")
        core.check(set(pop) <= set(ok), "population holds one not successfully evaluated")
        scores = {}
        for e in done:
            if e.error is None:
                scores[str(e.individual._id)] = e.score
        for i in method.output:
            core.check(tuple(i.fitness.values) == tuple(scores[str(i._id)]),
                       "fitness in the population is not the score that was measured")
        if not restarts:
            if len(set(ok)) <= p["pop"]:
                core.check(set(pop) == set(ok), f"found {len(ok)}, kept {len(pop)}")
            else:
                core.check(len(pop) == p["pop"], "population not filled")
            if not p["reg"]:
                want = sorted((scores[i] for i in set(ok)), reverse=True)[: p["pop"]]
                have = sorted((scores[i] for i in pop), reverse=True)
                core.check(have == want, f"kept {have}, best were {want}")
        ran = [i for i, _, _ in d.evaluated[first:]]
        if how == "done" and n is not None:
            handled = len(ran) - sum(o == "dies" for _, o, _ in d.evaluated[first:])
            core.check(handled == n, f"{handled} evaluations awaited, should be {n}")
        core.check(how != "done" or n is not None, "endless search ended by itself")
        # start candidates come before all others
        if not restarts:
            ahead = 0
            left = collections.Counter(d.ids(start))
            for i in ran:
                if left[i] > 0:
                    left[i] -= 1
                else:
                    ahead += 1
                    core.check(
                        sum(left.values()) < max(2, p["workers"])
                        if p["workers"] > 1 else sum(left.values()) == 0,
                        "a new individual was evaluated before the start candidates",
                    )
        dup = [i for i, k in collections.Counter(ran).items() if k > 1]
        core.check(not dup, f"evaluated more than once: {dup}")
        # every completed evaluation reached the subscribers exactly once
        reported = [str(e.individual._id) for e in done]
        want = [i for i, o, _ in d.evaluated[first:] if o not in ("raise", "dies")]
        core.check(sorted(reported) == sorted(want),
                   f"{len(want)} evaluations completed, {len(reported)} were reported")
        return tuple((o) for _, o, _ in d.evaluated[first:]), how, len(pop)

    def single(ch, rec, d):
        start = d.new_individuals(p["start"])
        given = list(start)
        n = p["n"]
        restarts, at = [], []
        seen = [0]

        def restart():
            seen[0] += 1
            if not restarts and ch.choose(2, "restart"):
                restarts.append(seen[0])
                at.append((len(d.submitted), d.env.delivered))
                return True
            return False

        method = AsyncEA(population_size=p["pop"], max_n_evaluations=n,
                         restart_callback=restart if p["op"] == "restart" else None)
        cap = 5 if n is None else 60
        if p["op"] == "dies":
            d.max_deaths = 4
        how = d.search(method, start, cap=cap)
        core.check(d.ids(start) == d.ids(given), "the caller's list was changed")
        out = judge(d, method, how, given, 0, 0, n, restarts)
        if restarts:
            # the population from before is dropped, what came after is kept
            k = restarts[0]
            after = d.completed[k:]
            ok_after = {str(e.individual._id) for e in after if e.error is None}
            pop = set(d.ids(method.output))
            fresh = [i for count, i in d.submitted[at[0][0]:] if count == at[0][1]]
            core.check(len(fresh) == (p["pop"] if k != n else 0),
                       f"restarted with {len(fresh)} new individuals, the population "
                       f"is {p['pop']}")
            core.check(not any(i.meta.get("parents") for i in fresh),
                       "the new population is not new")
            if how == "done" and k < n:
                core.check(pop <= ok_after, "individuals from before the restart remain")
                core.check(len(pop) == min(p["pop"], len(ok_after)),
                           f"{len(ok_after)} found since the restart, {len(pop)} kept")
                if not p["reg"]:
                    found = {str(e.individual._id): e.score for e in after
                             if e.error is None}
                    want = sorted(found.values(), reverse=True)[: p["pop"]]
                    have = sorted((found[i] for i in pop), reverse=True)
                    core.check(have == want, f"kept {have} since the restart, best "
                               f"were {want}")
            elif how == "done":
                ok = {str(e.individual._id) for e in d.completed if e.error is None}
                core.check(pop or not ok, "nothing left of what the search found")
        rec.state(name, out, restarts)
        rec.sample(dict(outcomes=out[0], ended=how, population=out[2]))

    def again(ch, rec, d):
        """Searches in a row, each starting from what the previous one found."""
        method = AsyncEA(population_size=p["pop"], max_n_evaluations=p["n"])
        start = d.new_individuals(p["start"])
        log = []
        for k in range(2 if tier == "quick" else 3):
            given = list(start)
            since, first = len(d.completed), len(d.evaluated)
            how = d.search(method, start, cap=60)
            log.append(judge(d, method, how, given, since, first, p["n"]))
            start = method.output if method.output else d.new_individuals(p["start"])
        rec.state(name, log)
        rec.sample(dict(searches=log))

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
