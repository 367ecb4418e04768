"""C18: the search space is what the configuration says, and stays so."""
import copy
import itertools

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.configuration.classification import clf_config
from gama.configuration.parser import merge_configurations, pset_from_config
from gama.configuration.regression import reg_config
from gama.genetic_programming.components import DATA_TERMINAL
from gama.search_methods import AsyncEA, RandomSearch
from sklearn.base import BaseEstimator, TransformerMixin
from sklearn.cluster import KMeans
from sklearn.linear_model import Ridge
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.neighbors import KNeighborsClassifier
from sklearn.preprocessing import Binarizer, MinMaxScaler, PolynomialFeatures

from mc import core, e2e, rng, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one configuration (or pair of them) parsed or merged by the real code; "
    "state = (configurations)"
)
BOUNDS = {
    "quick": "all configurations with up to 2 learners, 2 preprocessors and 2 shared "
    "hyperparameters with 5 kinds of value sets, in 2 orders; all pairs of 150 of them "
    "merged; the shipped ones; histories of two fits and a second instance",
    "thorough": "as quick with all triples of a smaller set merged",
}
ASSUMPTIONS = ["values of one hyperparameter are hashable"]

SETS = {
    "list": [0.0, 1.0], "one": [1.0], "range": range(0, 3),
    "array": np.arange(0.0, 1.5, 0.5), "text": ["l1", None, False],
}
# what may be said about one hyperparameter of an operator; "shared" refers to the top level
HP = ("none", "list", "one", "range", "array", "text", "shared")
SHARED = ("none", "list", "range", "array")


def scenarios(tier):
    out = []
    for shared in SHARED:
        for order in (0, 1):
            out.append(dict(name=f"parse-{shared}-{order}", op="parse", shared=shared,
                            order=order))
    for a in range(len(small())):
        out.append(dict(name=f"merge-{a}", op="merge", a=a))
    if tier == "thorough":
        for a in range(0, len(small()), 3):
            out.append(dict(name=f"merge3-{a}", op="merge3", a=a))
    for name in ("clf", "reg"):
        out.append(dict(name=f"shipped-{name}", op="shipped", which=name))
    out.append(dict(name="bad", op="bad"))
    for search in ("random", "ea"):
        out.append(dict(name=f"instances-{search}", op="instances", search=search))
    for space in WIDTHS:
        out.append(dict(name=f"widths-{space}", op="widths", space=space))
    out.append(dict(name="tall", op="tall"))
    return out


POLY, SCALE = {PolynomialFeatures: {"degree": [2]}}, {MinMaxScaler: {}}
WIDTHS = {
    "none": {GaussianNB: {}}, "poly": {GaussianNB: {}, **POLY},
    "both": {GaussianNB: {}, **POLY, **SCALE}, "scale": {GaussianNB: {}, **SCALE},
}


class Stop(Exception):
    pass


def reachable(g):
    """The operators in the pipelines which the instance may create."""
    seen = set()

    def create(ch, rec):
        with rng.controlled(ch):
            ind = g._operator_set.individual()
        seen.update(q._primitive.identifier for q in ind.primitives)

    inner = core.Recorder()
    core.explore(create, inner)
    core.check(not inner.violations, f"no pipeline can be created: {inner.violations[:1]}")
    return seen


def small():
    """Configurations to merge."""
    out = []
    for shared in SHARED:
        for bnb in (None, "none", "list", "one", "shared"):
            if bnb == "shared" and shared == "none":
                continue
            for pre in (None, "none", "range", "array"):
                if bnb is None and pre is None and shared == "none":
                    continue
                out.append((shared, bnb, pre))
    return out


def config_of(shared, bnb, pre):
    config = {}
    if shared != "none":
        config["alpha"] = copy.copy(SETS[shared])
    if bnb is not None:
        config[BernoulliNB] = {}
        if bnb != "none":
            config[BernoulliNB]["alpha"] = [] if bnb == "shared" else copy.copy(SETS[bnb])
    if pre is not None:
        config[Binarizer] = {} if pre == "none" else {"threshold": copy.copy(SETS[pre])}
    return config


def plain(config):
    """A comparable, deep picture of a configuration (values keep type and order)."""
    def value(v):
        return type(v).__name__, tuple(v) if not isinstance(v, dict) else None

    return [
        (k, sorted((n, value(v)) for n, v in hp.items()) if isinstance(hp, dict)
         else value(hp))
        for k, hp in config.items()
    ]


def meaning(config):
    """operator -> hyperparameter -> set of values; shared ones under their name."""
    return {
        k: {n: None if isinstance(v, list) and not v else set(v) for n, v in hp.items()}
        if isinstance(hp, dict) else set(hp)
        for k, hp in config.items()
    }


def space_problem(pset, config):
    """None, or how the parsed space differs from the configuration."""
    roles = {
        "prediction": spaces.learners(config), DATA_TERMINAL: spaces.transformers(config)
    }
    expected = {}
    for role, classes in roles.items():
        have = [q.identifier for q in pset.get(role, [])]
        if sorted(c.__name__ for c in have) != sorted(c.__name__ for c in classes):
            return f"{role}: {have}, not {classes}"
        for q in pset.get(role, []):
            cls = q.identifier
            if q.output != role:
                return f"{cls.__name__} gives {q.output}, not {role}"
            domains = spaces.domains(config, cls)
            outputs = []
            for t in q.input:
                terminals = pset.get(t, [])
                names = {u.output for u in terminals}
                if len(names) != 1:
                    return f"{cls.__name__}: {t} stands for hyperparameters {names}"
                hp = names.pop()
                outputs.append(hp)
                got = [u.value for u in terminals]
                want = list(domains.get(hp, ()))
                if len(got) != len(want) or any(
                    not any(a is b or a == b for b in got) for a in want
                ):
                    return f"{cls.__name__}.{hp}: values {got}, not {want}"
                shared = isinstance(config[cls][hp], list) and not config[cls][hp]
                if not shared:
                    if t in expected and expected[t] is not cls:
                        return f"{cls.__name__}.{hp} is shared with {expected[t]}"
                    expected[t] = cls
            if sorted(outputs) != sorted(domains):
                return f"{cls.__name__} has {outputs}, not {sorted(domains)}"
    return None


def body(name, p, tier):
    def parse(ch, rec):
        items = []
        if p["shared"] != "none":
            items.append(("alpha", copy.copy(SETS[p["shared"]])))
        hps = HP if p["shared"] != "none" else HP[:-1]
        for cls, hp in ((BernoulliNB, "alpha"), (Ridge, "alpha"), (Binarizer, "threshold")):
            kinds = hps if hp == "alpha" else HP[:-1]
            kind = ch.pick(("absent",) + kinds, cls.__name__)
            if kind == "absent":
                continue
            d = {}
            if kind != "none":
                d[hp] = [] if kind == "shared" else copy.copy(SETS[kind])
            if ch.flag("second hyperparameter"):
                d[{Ridge: "tol", BernoulliNB: "binarize", Binarizer: "copy"}[cls]] = [0, 1]
            items.append((cls, d))
        if ch.flag("minmax"):
            items.append((MinMaxScaler, {}))
        if p["order"]:
            items.reverse()
        config = dict(items)
        before = plain(config)
        pset, checks = pset_from_config(config)
        problem = space_problem(pset, config)
        core.check(problem is None, f"{before}: {problem}")
        core.check(plain(config) == before, f"{before}: the configuration was changed")
        again, _ = pset_from_config(config)
        core.check(list(again.items()) == list(pset.items()),
                   f"{before}: parsed again, it differs")
        rec.state(name, str(before))

    def merge(ch, rec):
        pool = small()
        a, b = config_of(*pool[p["a"]]), config_of(*pool[ch.choose(len(pool), "other")])
        before = plain(a), plain(b)
        what = f"{before[0]} with {before[1]}"
        merged, clash = merged_or_clash(a, b, what)
        core.check((plain(a), plain(b)) == before, f"{what}: an argument was changed")
        rec.state(name, what)
        if merged is None:
            return
        # changing the result has no effect on the arguments
        for k in list(merged):
            if isinstance(merged[k], dict):
                merged[k]["new"] = [1]
        shared_dicts = [k for k in a if isinstance(a[k], dict) and "new" in a[k] and k in b]
        core.check(not shared_dicts, f"{what}: the result shares {shared_dicts}")

    def merged_or_clash(a, b, what):
        want = {}
        ma, mb = meaning(a), meaning(b)
        clash = False
        for k in list(ma) + [k for k in mb if k not in ma]:
            if k not in ma or k not in mb:
                want[k] = ma.get(k, mb.get(k))
            elif isinstance(k, str):
                want[k] = ma[k] | mb[k]
            else:
                want[k] = {}
                for hp in set(ma[k]) | set(mb[k]):
                    if hp not in ma[k] or hp not in mb[k]:
                        want[k][hp] = ma[k].get(hp, mb[k].get(hp))
                        continue
                    va, vb = ma[k][hp], mb[k][hp]
                    if type(a[k][hp]) is not type(b[k][hp]):
                        clash = True  # a list can not be merged with a range
                    elif va is None and vb is None:
                        want[k][hp] = None
                    else:
                        want[k][hp] = (va or set()) | (vb or set())
        try:
            merged = merge_configurations(a, b)
        except TypeError as e:
            core.check(clash, f"{what} refused: {e}")
            return None, True
        core.check(not clash, f"{what} are of different kinds, but merged")
        got = meaning(dict(merged))
        core.check(got == want, f"{what} gives {got}, not {want}")
        for k, hp in merged.items():
            for values in hp.values() if isinstance(hp, dict) else [hp]:
                if isinstance(values, list):
                    core.check(len(values) == len(set(values)), f"{what}: double values")
        pset, _ = pset_from_config(merged)
        problem = space_problem(pset, dict(merged)) if well_formed(merged) else None
        core.check(problem is None, f"{what}: {problem}")
        return merged, False

    def well_formed(config):
        return all(
            not (isinstance(v, list) and not v) or n in config
            for k, hp in config.items() if isinstance(hp, dict) for n, v in hp.items()
        )

    def merge3(ch, rec):
        pool = small()[::5]
        a = config_of(*small()[p["a"]])
        b, c = config_of(*ch.pick(pool, "second")), config_of(*ch.pick(pool, "third"))
        before = plain(a), plain(b), plain(c)
        try:
            left = merge_configurations(merge_configurations(a, b), c)
        except TypeError:
            raise core.Prune()
        core.check((plain(a), plain(b), plain(c)) == before, f"{before}: changed")
        for k, hp in left.items():
            parts = [m[k] for m in (a, b, c) if k in m]
            if isinstance(k, str):
                core.check(set(hp) == set().union(*map(set, parts)), f"{before}: {k}")
        rec.state(name, str(before))

    def shipped(ch, rec):
        config = dict(clf=clf_config, reg=reg_config)[p["which"]]
        cls = dict(clf=GamaClassifier, reg=GamaRegressor)[p["which"]]
        before = plain(config)
        how = ch.pick(("parse", "merge", "instance", "merge other", "merge mine"), "how")
        with e2e.session(1):
            if how == "parse":
                pset = pset_from_config(config)[0]
                core.check(space_problem(pset, config) is None, space_problem(pset, config))
            elif how == "merge":
                merged = merge_configurations(config, config)
                core.check(meaning(dict(merged)) == meaning(config), "merged with itself")
            elif how == "merge other":
                merged = merge_configurations(clf_config, reg_config)
                want = {**meaning(clf_config), **meaning(reg_config)}
                core.check(set(merged) == set(want), "operators are missing")
                pset = pset_from_config(merged)[0]
                problem = space_problem(pset, dict(merged))
                core.check(problem is None, problem)
            elif how == "merge mine":
                mine = {"alpha": [7.0], GaussianNB: {"var_smoothing": [0.5]}}
                merged = merge_configurations(config, mine)
                core.check(7.0 in merged["alpha"], "shared value is missing")
                core.check(GaussianNB in merged, "operator is missing")
            else:
                mine = ch.flag("given explicitly")
                scoring = ch.pick(dict(clf=("accuracy", "neg_log_loss", "roc_auc",
                                            ("accuracy", "neg_log_loss"),
                                            ("f1_macro", "accuracy")),
                                       reg=("r2", ("r2", "explained_variance")))[p["which"]], "metric")
                g = cls(n_jobs=1, store="nothing", scoring=scoring,
                        search_space=config if mine else None,
                        output_directory="c18-shipped")
                want = config
                if {"neg_log_loss", "roc_auc"} & {*scoring, scoring}:  # these need probabilities
                    want = {
                        k: v for k, v in config.items() if isinstance(k, str)
                        or k not in spaces.learners(config)
                        or hasattr(k(), "predict_proba")
                    }
                problem = space_problem(g._pset, want)
                core.check(problem is None, f"{scoring}: {problem}")
                g.cleanup("all")
                rec.state(name, how, scoring, mine)
        core.check(plain(config) == before, f"{how} changed the shipped configuration")
        rec.state(name, how)

    class Plain(BaseEstimator):
        pass

    def bad(ch, rec):
        entry = ch.pick((
            {Plain: {}}, {KMeans: {}} if not issubclass(KMeans, TransformerMixin)
            else {Plain: {"a": [1]}}, {3: [1]}, {None: {}}, {("a",): [1]},
        ), "entry")
        others = ch.pick(({}, {GaussianNB: {}}, {"alpha": [1.0], GaussianNB: {}}), "rest")
        try:
            pset_from_config({**others, **entry})
        except TypeError:
            rec.state(name, str(entry), str(others))
            return
        raise core.Violation(f"{entry} was accepted as part of a search space")

    def instances(ch, rec):
        """The space of an instance is its own, and survives (also wide) fits."""
        wide = ch.flag("wide data")
        second = ch.pick(("same", "fresh"), "second instance")
        config = {
            GaussianNB: {}, KNeighborsClassifier: {"n_neighbors": range(1, 3)},
            PolynomialFeatures: {"degree": [2]}, MinMaxScaler: {},
        }
        before = plain(config)
        x, y = e2e.small_data(15)
        if wide:
            x = pd.DataFrame({f"f{i}": [(r * (i + 3)) % 7 / 2 for r in range(15)]
                              for i in range(60)})
        from gama.postprocessing import EnsemblePostProcessing

        def make():
            return spaces.new_gama(
                config, search=dict(random=RandomSearch,
                                    ea=lambda: AsyncEA(population_size=3))[p["search"]](),
                post_processing=EnsemblePostProcessing(ensemble_size=2), store="logs",
                max_pipeline_length=2,
            )

        with e2e.session(3):
            g = make()
            other = make() if second == "same" else None
            e2e.fit(g, ch, x, y, limit=3, order_dev=False)
            core.check(plain(config) == before, "fit changed the configuration")
            other = other or make()
            problem = space_problem(other._pset, config)
            core.check(problem is None, f"a fit changed another instance: {problem}")
            seen = []
            other.evaluation_completed(lambda e: seen.append(e.individual))
            small_x, small_y = e2e.small_data(15)
            e2e.fit(other, ch, small_x, small_y, limit=3, order_dev=False)
            for i in seen:
                problem = spaces.membership_problem(
                    i, config, n_fixed=len(other._fixed_pipeline_extension))
                core.check(problem is None, f"evaluated {i.pipeline_str()}: {problem}")
        rec.state(name, wide, second)

    def widths(ch, rec):
        """What is left out for the size of the data is left out of that fit only."""
        from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing

        config = WIDTHS[p["space"]]
        before = plain(config)
        ensemble = ch.flag("ensemble")
        history = []
        with e2e.session(3):
            g = spaces.new_gama(
                config, search=RandomSearch(), store="logs",
                post_processing=EnsemblePostProcessing(ensemble_size=2) if ensemble
                else BestFitPostProcessing(),
            )
            for i in range(3 if tier == "thorough" else 2):
                n = ch.pick((3, 60), f"columns of fit {i}")
                history.append(n)
                x = pd.DataFrame({f"f{c}": [(r * (c + 3)) % 7 / 2 for r in range(15)]
                                  for c in range(n)})
                y = e2e.small_data(15)[1]
                e2e.fit(g, core.Chooser(), x, y, limit=3)
                want = set(spaces.learners(config)) | set(spaces.transformers(config))
                if ensemble and n > 50 and MinMaxScaler in config:
                    want.discard(PolynomialFeatures)  # would make the data too wide
                got = reachable(g)
                core.check(got == want, f"columns {history}: pipelines of {got}, not {want}")
                core.check(plain(config) == before, f"columns {history}: configuration")
        rec.state(name, ensemble, history)

    def tall(ch, rec):
        from gama.postprocessing import EnsemblePostProcessing

        config = ch.pick((
            {GaussianNB: {}, KNeighborsClassifier: {"n_neighbors": [1]}},
            {KNeighborsClassifier: {"n_neighbors": [1]}},
        ), "space")
        with e2e.session(3):
            reached = []

            class Probe(RandomSearch):
                """No evaluation of anything on that much data."""

                def search(self, operations, start_candidates):
                    reached.append(reachable(g))
                    raise Stop()

            g = spaces.new_gama(
                config, search=Probe(), store="logs",
                post_processing=EnsemblePostProcessing(ensemble_size=2),
            )
            for n in (10, 6_000_001, 10):
                x = pd.DataFrame({"a": np.arange(n) % 7 / 2})
                y = pd.Series(np.arange(n) % 2)
                try:
                    g.fit(x, y)
                except Stop:
                    pass
            core.check(reached[0] == set(config), f"pipelines of {reached[0]}")
            core.check(reached[2] == set(config), f"after large data, {reached[2]}")
            want = {GaussianNB} & set(config) or set(config)
            core.check(reached[1] == want, f"large data: {reached[1]}, not {want}")
        rec.state(name, str(config))

    return dict(widths=widths, tall=tall, parse=parse, merge=merge, merge3=merge3, shipped=shipped, bad=bad,
                instances=instances)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
