"""C25: what the user sets is what is used, in every fit; what is not set is as documented."""
import math
import multiprocessing
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e

LEVEL = "model_checking"
RULE = (
    "one execution = construction with one combination of settings and one or two real fits; "
    "state = (settings, sizes of the data)"
)
BOUNDS = {
    "quick": "all combinations of set and unset hyperparameters of each search and of the "
    "ensemble, all sequences of two fits on 2 sizes of data for halving; all pipeline "
    "lengths 1-4 with 3 searches; workers, presets, metrics and their absence; objects "
    "used by another instance before",
    "thorough": "as quick with sequences of three fits on 3 sizes of data, and all combinations of ensemble settings",
}
ASSUMPTIONS = ["settings not mentioned in the documentation are not looked at"]
SPACE = {GaussianNB: {"var_smoothing": [1e-9, 0.1, 0.5]}, MinMaxScaler: {},
         DecisionTreeClassifier: {"max_depth": [1, 2]}, StandardScaler: {}}
REG = {DecisionTreeRegressor: {"max_depth": [1, 2, 3]}, MinMaxScaler: {}}


def scenarios(tier):
    out = []
    for size in (None, 1, 3, 60):
        for n in (None, 1, 4):
            out.append(dict(name=f"ea-{size}-{n}", op="ea", size=size, n=n))
    for factor in (None, 2):
        for low in (None, 0.25, 4, 400):
            for high in (None, 0.5, 18, 1000):
                if isinstance(low, int) != isinstance(high, int):
                    continue
                if tier == "quick" and factor and (low, high) not in (
                    (None, None), (0.25, 0.5), (4, 18), (4, 1000), (400, 18)
                ):
                    continue
                out.append(dict(name=f"asha-{factor}-{low}-{high}", op="asha",
                                factor=factor, low=low, high=high,
                                fits=2 + (tier == "thorough"),
                                sizes=(16, 24, 32) if tier == "thorough" else (16, 32)))
    for size in (None, 1, 4):
        out.append(dict(name=f"ensemble-{size}", op="ensemble", size=size))
    for length in (None, 1, 2, 3, 4):
        for search in ("random", "ea", "asha"):
            out.append(dict(name=f"length-{length}-{search}", op="length", length=length,
                            search=search))
    out += [dict(name="workers", op="workers"), dict(name="presets", op="presets"),
            dict(name="defaults", op="defaults"), dict(name="text", op="text")]
    for search in ("random", "ea", "asha"):
        out.append(dict(name=f"reuse-{search}", op="reuse", search=search))
    return out


def data(n=24, reg=False):
    i = np.arange(n)
    x = pd.DataFrame({"a": (i * 7) % 5 + 0.5, "b": (i * 3) % 4 / 2.0})
    y = pd.Series(((i * 7) % 5 > 1).astype(int))
    return x, (pd.Series(x.a * 1.5) if reg else y)


def body(name, p, tier):
    def new(cls=GamaClassifier, space=None, **kw):
        root = tempfile.mkdtemp(dir=os.getcwd())
        kw.setdefault("scoring", "accuracy")
        kw.setdefault("n_jobs", 1)
        g = cls(search_space=space or dict(SPACE), output_directory=os.path.join(root, "o"),
                store=kw.pop("store", "nothing"), verbosity=50, **kw)
        seen = []
        g.evaluation_completed(lambda e: seen.append(
            (e.individual.pipeline_str(), len(list(e.individual.primitives)),
             e.individual.meta.get("subsample"), e.individual.meta.get("rung"),
             len(e.score), e.error)))
        return g, seen, root

    def expect(given, defaults):
        return {k: defaults[k] if v is None else v for k, v in given.items()}

    def same(got, want, what):
        for k, v in want.items():
            core.check(got.get(k) == v, f"{what}: {k} is {got.get(k)}, not {v}")

    def ea(ch, rec):
        restarts = ch.pick((None, 2), "restart after")
        calls = []

        def restart():
            calls.append(1)
            return len(calls) == restarts

        search = AsyncEA(population_size=p["size"], max_n_evaluations=p["n"],
                         restart_callback=restart if restarts else None)
        want = expect(dict(population_size=p["size"], max_n_evaluations=p["n"]),
                      dict(population_size=50, max_n_evaluations=None))
        what = f"population {p['size']}, evaluations {p['n']}, restart {restarts}"
        with e2e.session(6):
            g, seen, root = new(search=search)
            try:
                for i in range(2):
                    del seen[:], calls[:]
                    e2e.fit(g, core.Chooser(), *data(), limit=8, order_dev=False)
                    same(search.hyperparameters, want, what)
                    core.check(len(seen) == (p["n"] or 8), f"{what}: {len(seen)} evaluations")
                    core.check(len(search.output) <= (p["size"] or 50),
                               f"{what}: population of {len(search.output)}")
                    if restarts:
                        core.check(len(calls) == len(seen),
                                   f"{what}: asked {len(calls)} times to restart, for "
                                   f"{len(seen)} evaluations")
                        if (p["n"] or 8) > 2 and p["size"] != 1:
                            core.check(len(search.output) <= len(seen) - 2,
                                       f"{what}: no restart")
                    elif (p["size"] or 50) >= len(seen):
                        core.check(len(search.output) == len(seen),
                                   f"{what}: only {len(search.output)} kept")
                    else:
                        core.check(len(search.output) == p["size"],
                                   f"{what}: only {len(search.output)} kept")
            finally:
                shutil.rmtree(root, ignore_errors=True)
        rec.state(name, restarts)

    def asha(ch, rec):
        rate = ch.pick((None, 1, 4), "rungs skipped")
        sizes = [ch.pick(p["sizes"], "rows") for _ in range(p["fits"])]
        if rate == 4 and tier == "quick" and len(set(sizes)) == 1:
            raise core.Prune()
        search = AsynchronousSuccessiveHalving(
            reduction_factor=p["factor"], minimum_resource=p["low"],
            maximum_resource=p["high"], minimum_early_stopping_rate=rate)
        factor, low = p["factor"] or 3, p["low"] or 0.125
        what = f"factor {factor}, from {low} to {p['high']}, skipping {rate}, rows {sizes}"
        with e2e.session(6):
            g, seen, root = new(search=search)
            try:
                for n in sizes:
                    del seen[:]
                    high = p["high"] or 1.0
                    if isinstance(high, int):
                        high = min(high, n)
                    resources, r = [], 0
                    top = math.ceil(round(math.log(high / low, factor), 9))
                    for r in range(rate or 0, top + 1):
                        resources.append(min(low * factor ** r, high))
                    resources = resources or [high]  # as far as the data allows
                    e2e.fit(g, core.Chooser(), *data(n), limit=12, order_dev=False,
                            warm_start=[])
                    same(search.hyperparameters,
                         dict(reduction_factor=factor, minimum_resource=low,
                              minimum_early_stopping_rate=rate or 0), what)
                    core.check(len(seen) == 12, f"{what}: {len(seen)} evaluations")
                    for s in seen:
                        want = resources[s[3] - (rate or 0)]
                        core.check(type(s[2]) is type(want) and abs(s[2] - want) < 1e-9,
                                   f"{what}: rung {s[3]} of {n} rows uses {s[2]}, not {want}")
                    core.check(seen[0][3] == (rate or 0), f"{what}: starts at {seen[0][3]}")
                    if len(resources) > 1:
                        core.check(any(s[3] > (rate or 0) for s in seen),
                                   f"{what}: nothing promoted in 12 evaluations")
            finally:
                shutil.rmtree(root, ignore_errors=True)
        rec.state(name, rate, tuple(sizes))
        rec.sample(what)

    def ensemble(ch, rec):
        models = ch.pick((200, None, 1, 2), "models")
        climb = ch.pick((10_000, None, 10), "rows used")
        fraction = ch.pick((0.3, 0.05, 0.9), "time") if (
            climb == 10_000 or tier == "thorough") else 0.3
        reg = ch.flag("regression")
        kw = {} if p["size"] is None else dict(ensemble_size=p["size"])
        if models != 200:
            kw["max_models"] = models
        if climb != 10_000:
            kw["hillclimb_size"] = climb
        if fraction != 0.3:
            kw["time_fraction"] = fraction
        post = EnsemblePostProcessing(**kw)
        what = f"ensemble {kw}"
        with e2e.session(6):
            g, seen, root = new(
                GamaRegressor if reg else GamaClassifier, REG if reg else None,
                scoring="r2" if reg else "accuracy", search=RandomSearch(),
                post_processing=post, max_total_time=1000)
            try:
                for _ in range(2):
                    e2e.fit(g, core.Chooser(), *data(24, reg), limit=5, order_dev=False)
                    same(post.hyperparameters, dict(
                        ensemble_size=p["size"] or 25, max_models=models,
                        hillclimb_size=climb), what)
                    weights = [w for _, w in g.model._models.values()]
                    core.check(sum(weights) == (p["size"] or 25),
                               f"{what}: weights {weights}")
                    core.check(models is None or len(weights) <= models,
                               f"{what}: {len(weights)} models")
                    search = [a for a in g._time_manager.activities if a.name == "search"]
                    left = (1 - fraction) * 1000
                    core.check(abs(search[-1].time_limit - left) < 30,
                               f"{what}: {search[-1].time_limit}s for the search")
            finally:
                shutil.rmtree(root, ignore_errors=True)
        rec.state(name, models, climb, fraction, reg)

    SEARCHES = dict(
        random=RandomSearch, ea=lambda: AsyncEA(population_size=3),
        asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=1.0))

    def length(ch, rec):
        space = ch.pick((None, {GaussianNB: {"var_smoothing": [1e-9, 0.1, 0.5, 0.7]}}),
                        "space")
        counts = ch.flag("length counts")
        seed = ch.choose(4, "seed")
        what = f"max length {p['length']}, {'no ' if space else ''}preprocessing"
        with e2e.session(seed):
            try:
                g, seen, root = new(
                    space=space, max_pipeline_length=p["length"],
                    search=SEARCHES[p["search"]](), regularize_length=counts)
            except ValueError:
                core.check(space is not None and (p["length"] or 1) > 1,
                           f"{what} was refused")
                rec.state(name, space is None, "refused")
                return
            core.check(space is None or (p["length"] or 1) == 1, f"{what} was accepted")
            try:
                e2e.fit(g, core.Chooser(), *data(), limit=12, order_dev=False)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            lengths = [s[1] for s in seen]
            core.check(max(lengths) <= (p["length"] or (1 if space else 99)),
                       f"{what}: pipelines of {lengths}")
            if p["length"] is None and space is None and p["search"] != "ea":
                core.check(max(lengths) <= 3, f"{what}: started with {lengths}")
            if space is None and (p["length"] or 3) > 1:
                core.check(max(lengths) > 1, f"{what}: no preprocessing in {lengths}")
            core.check({s[4] for s in seen} == {1 + counts},
                       f"{what}: {seen[0][4]} objectives")
        rec.state(name, space is None, counts, seed)

    def workers(ch, rec):
        n_jobs = ch.pick((None, -1, 1, 2, 5), "workers")
        cpus = ch.pick((1, 2, 3, 4, 6), "processors")
        want = {None: max(1, cpus // 2), -1: cpus}.get(n_jobs, n_jobs)
        real = multiprocessing.cpu_count
        multiprocessing.cpu_count = lambda: cpus
        try:
            with e2e.session(1):
                g, seen, root = new(n_jobs=n_jobs, search=RandomSearch())
                try:
                    env = e2e.fit(g, core.Chooser(), *data(), limit=3, order_dev=False)[1]
                finally:
                    shutil.rmtree(root, ignore_errors=True)
        finally:
            multiprocessing.cpu_count = real
        core.check(len(env.workers) == want,
                   f"n_jobs={n_jobs} with {cpus} processors: {len(env.workers)} workers")
        rec.state(name, n_jobs, cpus)

    def presets(ch, rec):
        preset = ch.pick((None, "simple", "performance"), "preset")
        post = ch.pick((None, "best", "ensemble"), "post-processing")
        search = ch.pick((None, "random", "ea", "asha"), "search")
        reg = ch.flag("regression")
        kw = {} if preset is None else dict(preset=preset)
        if post:
            kw["post_processing"] = dict(
                best=BestFitPostProcessing, ensemble=EnsemblePostProcessing)[post]()
        if search:
            kw["search"] = SEARCHES[search]()
        want = dict(best=BestFitPostProcessing, ensemble=EnsemblePostProcessing)[
            post or ("ensemble" if preset == "performance" else "best")]
        with e2e.session(1):
            g, seen, root = new(GamaRegressor if reg else GamaClassifier,
                                REG if reg else None, scoring="r2" if reg else "accuracy",
                                **kw)
            try:
                e2e.fit(g, core.Chooser(), *data(24, reg), limit=5, order_dev=False)
            finally:
                shutil.rmtree(root, ignore_errors=True)
        core.check(type(g._post_processing) is want and (
            not post or g._post_processing is kw["post_processing"]),
            f"preset {preset}, given {post}: {type(g._post_processing).__name__}")
        kind = dict(random=RandomSearch, ea=AsyncEA, asha=AsynchronousSuccessiveHalving)
        core.check(type(g._search_method) is kind[search or "ea"],
                   f"search {search}: {type(g._search_method).__name__}")
        many = hasattr(g.model, "_models")
        core.check(many == (want is EnsemblePostProcessing),
                   f"preset {preset}, given {post}: the model is {type(g.model).__name__}")
        rec.state(name, preset, post, search, reg)

    def defaults(ch, rec):
        """Two instances made the same way share nothing, and defaults are as documented."""
        reg = ch.flag("regression")
        which = ch.pick(("search", "post"), "object")
        cls = GamaRegressor if reg else GamaClassifier
        root = tempfile.mkdtemp(dir=os.getcwd())
        try:
            with e2e.session(1):
                a, b = [cls(output_directory=os.path.join(root, k), store="nothing",
                            verbosity=50) for k in "ab"]
                metric = "neg_mean_squared_error" if reg else "neg_log_loss"
                core.check([m.name for m in a._metrics] == [metric],
                           f"default metric {a._metrics}")
                core.check(a._time_manager.total_time == 3600, "default time")
                core.check(a._max_eval_time == 360, "default time for an evaluation")
                one, two = ((a._search_method, b._search_method) if which == "search"
                            else (a._post_processing, b._post_processing))
                core.check(one is not two and type(one) is type(two),
                           f"default {which} is shared")
                core.check(one._hyperparameters is not two._hyperparameters or
                           not one._hyperparameters, f"default {which} shares settings")
        finally:
            shutil.rmtree(root, ignore_errors=True)
        rec.state(name, reg, which)

    def text(ch, rec):
        """The text of a search or post-processing names what was set."""
        kind = ch.pick(("ea", "asha", "ensemble"), "what")
        cls, values = dict(
            ea=(AsyncEA, dict(population_size=(None, 0, 7), max_n_evaluations=(None, 9))),
            asha=(AsynchronousSuccessiveHalving, dict(
                reduction_factor=(None, 4), minimum_resource=(None, 0.5),
                maximum_resource=(None, 0.75), minimum_early_stopping_rate=(None, 0, 2))),
            ensemble=(EnsemblePostProcessing, dict(
                ensemble_size=(None, 3), hillclimb_size=(None, 50), max_models=(None, 0, 8))),
        )[kind]
        given = {k: ch.pick(v, k) for k, v in values.items()}
        made = cls(**given)
        shown = str(made)
        core.check(shown.startswith(cls.__name__ + "(") and shown.endswith(")"), shown)
        parts = [q for q in shown[len(cls.__name__) + 1:-1].split(",") if q]
        want = [f"{k}={v}" for k, v in given.items() if v is not None]
        core.check(sorted(parts) == sorted(want), f"{shown} for {given}")
        for k, v in given.items():
            if v is not None:
                core.check(made.hyperparameters[k] == v and made.hyperparameters[k] is not False,
                           f"{k} is {made.hyperparameters[k]}, set to {v}")
        rec.state(name, kind, tuple(given.items()))

    def reuse(ch, rec):
        """A search and a way to make the model, used before by another instance."""
        metric = ch.pick(("accuracy", "neg_log_loss"), "metric")
        first = ch.pick(("neg_log_loss", "accuracy", "r2"), "metric before")
        n = ch.pick((24, 16), "rows")
        ensemble = ch.flag("ensemble")
        keep = ch.flag("first instance is kept")

        def make():
            return (SEARCHES[p["search"]](), EnsemblePostProcessing(ensemble_size=4)
                    if ensemble else BestFitPostProcessing())

        def use(parts, metric, n, seed):
            reg = metric == "r2"
            x, y = data(n, reg)
            g, seen, root = new(GamaRegressor if reg else GamaClassifier,
                                REG if reg else None, scoring=metric, search=parts[0],
                                post_processing=parts[1], random_state=seed)
            try:
                e2e.fit(g, core.Chooser(), x, y, limit=8, order_dev=False)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            weights = sorted(w for _, w in g.model._models.values()) if ensemble else []
            return g, (seen, weights, list(g.predict(x)),
                       sorted(g.export_script(file=None).splitlines()))

        with e2e.session(3):
            want = use(make(), metric, n, 5)[1]
            parts = make()
            other, seen = use(parts, first, 20, 9)
            if not keep:
                del other
            g, got = use(parts, metric, n, 5)
            what = f"{metric}, {n} rows, ensemble {ensemble}, after {first}"
            for part, a, b in zip(("evaluations", "weights", "predictions", "code"), got, want):
                core.check(a == b, f"{what}: {part} {a}, not {b}")
        rec.state(name, metric, first, n, ensemble, keep)

    return dict(ea=ea, reuse=reuse, asha=asha, ensemble=ensemble, length=length, workers=workers,
                presets=presets, defaults=defaults, text=text)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
