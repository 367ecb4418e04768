"""C05: warm starts are honoured; random search reports all it evaluated."""
import itertools

import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.genetic_programming.components import Individual
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.linear_model import Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import MinMaxScaler
from stopit import TimeoutException

from mc import core, e2e, searches, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one sequence of fits (or searches) with one choice of warm start, "
    "interruption point and evaluation outcomes; state = (scenario, start and evaluated "
    "pipelines of every fit, size of the output)"
)
BOUNDS = {
    "quick": "three search methods; all sequences of 1-3 fits with warm start in {none "
    "given, empty, one, three individuals} interrupted after 1-4 evaluations by timeout or "
    "user; 120 start candidates; "
    "random search: 1-3 workers, up to 5 evaluations, all outcomes and orders",
    "thorough": "as quick with all sequences of 3 fits and 7 evaluations of random search",
}
ASSUMPTIONS = ["an interruption strikes while the search waits for a result"]

METHODS = dict(
    ea=lambda: AsyncEA(population_size=4),
    random=RandomSearch,
    asha=lambda: AsynchronousSuccessiveHalving(
        reduction_factor=2, minimum_resource=0.5, maximum_resource=1.0
    ),
)
EXC = dict(timeout=TimeoutException, user=KeyboardInterrupt)


def scenarios(tier):
    out = []
    starts = ("none", "empty", "one", "three")
    for method in METHODS:
        for seq in itertools.product(starts, repeat=2):
            for limit in (1, 4):
                out.append(dict(name=f"fit-{method}-{'-'.join(seq)}-{limit}", op="fit",
                                method=method, seq=seq, limit=limit, exc="timeout"))
        out.append(dict(name=f"fit-{method}-user", op="fit", method=method, limit=3,
                        seq=("three", "none"), exc="user"))
        if tier == "thorough":
            for seq in itertools.product(starts, repeat=3):
                out.append(dict(name=f"fit-{method}-{'-'.join(seq)}", op="fit",
                                method=method, seq=seq, limit=3, exc="timeout"))
        else:
            for seq in (("none", "none", "none"), ("three", "none", "one")):
                out.append(dict(name=f"fit-{method}-{'-'.join(seq)}", op="fit",
                                method=method, seq=seq, limit=3, exc="timeout"))
        for bad in ("mixed", "strings"):
            out.append(dict(name=f"bad-{method}-{bad}", op="bad", method=method, bad=bad))
        out.append(dict(name=f"fit-{method}-many", op="fit", method=method, limit=60,
                        seq=("none", "none"), exc="timeout"))
        out.append(dict(name=f"fit-{method}-hundred", op="fit", method=method, limit=130,
                        seq=("hundred",), exc="timeout"))
        for task in ("clf", "reg"):
            for source in ("previous", "instance", "text", "unfitted"):
                if method == "ea" or source == "previous" or tier == "thorough":
                    out.append(dict(name=f"steps-{method}-{task}-{source}", op="steps",
                                    method=method, task=task, source=source))
    deep = 2 if tier == "thorough" else 0
    for workers, n, start in ((1, 5, 1), (1, 5, 3), (2, 4, 2), (2, 4, 3), (3, 3, 3)):
        for outcomes in (["ok1", "error"], ["ok0", "raise"]):
            for exc in EXC:
                out.append(dict(name=f"random-{workers}-{n}-{start}-{outcomes[1]}-{exc}",
                                op="random", workers=workers, n=n + deep, start=start,
                                outcomes=outcomes, exc=exc))
    out.append(dict(name="random-again", op="random", workers=1, n=3, start=2, again=True,
                    outcomes=["ok1", "error"], exc="timeout"))
    return out


def body(name, p, tier):
    def one(ch, rec):
        dict(fit=fits, bad=bad, steps=steps, random=random_search)[p["op"]](ch, rec)

    def texts(individuals):
        return [i.pipeline_str() for i in individuals]

    def describe(individuals):
        return [(str(i._id), i.pipeline_str(), i.fitness) for i in individuals]

    def fits(ch, rec):
        x, y = e2e.small_data()
        with e2e.session():
            g = spaces.new_gama(
                spaces.spaces()["pre2"], search=METHODS[p["method"]](), store="logs"
            )
            done = []
            g.evaluation_completed(done.append)
            previous, log = [], []
            for what in p["seq"]:
                k = dict(one=1, three=3, hundred=120).get(what)
                given = None if what == "none" else [
                    g._operator_set.individual() for _ in range(k or 0)
                ]
                before = None if given is None else describe(given)
                known = {str(e.individual._id) for e in done}
                done.clear()
                e2e.fit(g, ch, x, y, limit=p["limit"], exc=EXC[p["exc"]],
                        warm_start=given)
                if given is not None:
                    core.check(describe(given) == before, "the caller's list was changed")
                ran = [str(e.individual._id) for e in done]
                core.check(len(ran) == p["limit"], f"{len(ran)} evaluations seen")
                expect = (
                    [str(i._id) for i in given] if given
                    else previous if what == "none" else []
                )
                n = min(len(expect), len(ran))
                core.check(set(ran[:n]) <= set(expect),
                           "start candidates were not evaluated first")
                core.check(len(set(ran)) == len(ran) or p["method"] == "asha",
                           "a pipeline was evaluated twice")
                if not expect or (what == "empty"):
                    core.check(not set(ran) & known, "old pipelines were evaluated again")
                output = g._search_method.output
                ids = [str(i._id) for i in output]
                core.check(set(ids) <= set(ran),
                           "the result holds pipelines this search did not evaluate")
                core.check(len(set(ids)) == len(ids), "duplicates in the result")
                if p["method"] == "random":
                    core.check(ids == ran, "not all evaluated pipelines in the result")
                core.check(ids, "nothing in the result")
                core.check(len(g.predict(x)) == len(x), "no model after fit")
                best = max(output, key=lambda i: i.fitness.values)
                steps = [type(s) for _, s in best.pipeline.steps]
                fitness = {
                    tuple(type(s) for _, s in i.pipeline.steps): i.fitness.values
                    for i in sorted(output, key=lambda i: i.fitness.values)
                }
                mine = tuple(type(s) for _, s in g.model.steps)
                core.check(
                    fitness.get(mine) == best.fitness.values,
                    f"the model is {mine}, the best pipeline found is {steps}",
                )
                previous = ids
                log.append((what, len(ran), len(ids)))
                rec.state(name, what, texts(output))
            rec.sample(dict(fits=log))

    def table(kind):
        n = 36
        x = pd.DataFrame({"a": [i * 1.5 % 5 for i in range(n)]})
        if kind == "many":
            x["c"] = pd.Series([f"v{i % 12}" for i in range(n)]).astype("category")
        elif kind == "missing":
            x["b"] = [None if i % 5 == 0 else i * 0.7 for i in range(n)]
        return x, pd.Series([i % 3 if p["task"] == "clf" else i % 7 / 2 for i in range(n)])

    def steps(ch, rec):
        """Whatever it is started with, a fit evaluates pipelines for its own data."""
        learner = {GaussianNB: {}} if p["task"] == "clf" else {Ridge: {"alpha": [1.0, 2.0]}}
        space = {**learner, MinMaxScaler: {}}
        first, second = (ch.pick(("plain", "many", "missing"), f"data {i}") for i in "12")
        if first == second:
            raise core.Prune()
        source = p["source"]
        with e2e.session():
            def make():
                return spaces.new_gama(
                    space, search=METHODS[p["method"]](), max_pipeline_length=2,
                    cls=dict(clf=GamaClassifier, reg=GamaRegressor)[p["task"]],
                    scoring=dict(clf="accuracy", reg="r2")[p["task"]],
                )

            g = make()
            e2e.fit(g, core.Chooser(), *table(first), limit=3)
            start = None
            if source == "instance":
                other = make()
                e2e.fit(other, core.Chooser(), *table(first), limit=3)
                start = list(other._final_pop)
            elif source == "text":
                start = [Individual.from_string(i.pipeline_str(), g._pset)
                         for i in g._final_pop]
            elif source == "unfitted":
                start = [make()._operator_set.individual() for _ in range(2)]
            done = []
            g.evaluation_completed(done.append)
            x, y = table(second)
            e2e.fit(g, core.Chooser(), x, y, limit=6, warm_start=start)
            for e in done:
                core.check(
                    e.error is None or "full evaluation" in str(e.error),
                    f"{first} then {second}, starting from {source}: "
                    f"{e.individual.pipeline_str()} failed with {e.error}",
                )
            core.check(len(done) == 6, f"{first} then {second}: {len(done)} evaluations")
            core.check(len(g.predict(x)) == len(x), "no predictions")
        rec.state(name, first, second, source)

    def bad(ch, rec):
        x, y = e2e.small_data()
        with e2e.session():
            g = spaces.new_gama(spaces.spaces()["pre2"], search=METHODS[p["method"]]())
            good = g._operator_set.individual()
            start = [good, "GaussianNB(data)"] if p["bad"] == "mixed" else ["a", "b"]
            try:
                e2e.fit(g, ch, x, y, limit=1, warm_start=start)
            except TypeError:
                rec.state(name)
                return
            core.check(False, "a warm start that holds no individuals was accepted")

    def random_search(ch, rec):
        exc = EXC[p["exc"]]
        with searches.Driver(ch, n_workers=p["workers"], outcomes=p["outcomes"],
                             space="pre2", interrupt=exc) as d:
            method = RandomSearch()
            start = d.new_individuals(p["start"])
            log = []
            for _ in range(2 if p.get("again") else 1):
                given = list(start)
                first, since = len(d.evaluated), len(d.completed)

                def before_result(env, first=first):
                    if len(d.evaluated) - first >= p["n"] or ch.choose(2, "interrupt"):
                        raise exc()

                d.before_result = before_result
                how = d.search(method, start)
                core.check(how == exc.__name__, f"ended by itself ({how})")
                core.check(d.ids(start) == d.ids(given), "the caller's list was changed")
                ran = d.evaluated[first:]
                want = [i for i, o, _ in ran if o != "raise"]
                core.check(d.ids(method.output) == want,
                           f"evaluated {len(want)}, reported {len(method.output)}")
                done = [str(e.individual._id) for e in d.completed[since:]]
                core.check(done == want, "evaluations not reported once, in order")
                left = set(d.ids(given))
                for i, _, _ in ran:
                    core.check(i in left or len(left) < p["workers"],
                               "a new pipeline came before the start candidates")
                    left.discard(i)
                core.check(len({i for i, _, _ in ran}) == len(ran), "evaluated twice")
                log.append([o for _, o, _ in ran])
                start = method.output or d.new_individuals(1)
            rec.state(name, log, how)
            rec.sample(dict(outcomes=log))

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=0 if p["op"] == "fit" else None)
