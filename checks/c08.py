"""C08: the text and the exported code of a pipeline denote exactly that pipeline."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama import GamaRegressor
from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import RandomSearch
from gama.utilities.export import individual_to_python
from gama.utilities.preprocessing import basic_encoding, basic_pipeline_extension
from scipy.spatial.distance import cosine
from sklearn.ensemble import RandomForestClassifier
from sklearn.feature_selection import SelectKBest, chi2, f_classif
from sklearn.metrics.pairwise import manhattan_distances
from sklearn.neighbors import KNeighborsClassifier
from sklearn.preprocessing import MinMaxScaler

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one pipeline (or one model after a fit) written as text and as code "
    "and read back; state = (search space, pipeline)"
)
BOUNDS = {
    "quick": "all pipelines of up to 3 steps (and some of 4-12) of 9 small search spaces, "
    "with functions as values and up to 13 hyperparameters; every operator of "
    "the shipped spaces with every value of every hyperparameter, and every pair of "
    "operators; tables of 0-45 columns with all mixes of column kinds; all incomplete or "
    "wrong texts of the small spaces; models of fits with both kinds of post-processing",
    "thorough": "as quick with pipelines of up to 4 steps and all pairs of settings of two "
    "hyperparameters in the shipped spaces",
}
ASSUMPTIONS = [
    "hyperparameter values contain no parentheses, commas or equal signs (documented)",
    "two estimators are equal iff class and parameters are",
]

SMALL = ("mixed", "shared", "learners", "single", "onlyhp", "pre2", "reg", "many", "calls")
# an operator with a dozen of hyperparameters; functions as values, of a learner too
EXTRA = dict(
    many={
        RandomForestClassifier: dict(
            n_estimators=[5], criterion=["gini", "entropy"], max_depth=[2], max_leaf_nodes=[7],
            min_samples_split=[2, 3], min_samples_leaf=[1], max_features=[0.5],
            bootstrap=[True], oob_score=[False], warm_start=[False], ccp_alpha=[0.0, 0.5],
            min_impurity_decrease=[0.0], min_weight_fraction_leaf=[0.0, 0.1]),
        MinMaxScaler: {},
    },
    calls={
        KNeighborsClassifier: dict(metric=[manhattan_distances, "euclidean", cosine],
                                   n_neighbors=[2]),
        SelectKBest: dict(score_func=[f_classif, chi2], k=[1]),
    },
)


def scenarios(tier):
    out = []
    for s in SMALL:
        out.append(dict(name=f"all-{s}", op="all", space=s))
        out.append(dict(name=f"wrong-{s}", op="wrong", space=s))
    for s in ("clf_config", "reg_config"):
        for part in range(6):
            out.append(dict(name=f"values-{s}-{part}", op="values", space=s, part=part))
        out.append(dict(name=f"pairs-{s}", op="pairs", space=s))
    for reg in (False, True):
        for n in (0, 1, 3, 31, 45):
            out.append(dict(name=f"prep-{reg}-{n}", op="prep", reg=reg, n=n))
    for pp in ("best", "ensemble"):
        for kind in ("int", "str", "reg"):
            for metric in ("label", "proba"):
                if kind == "reg" and metric == "proba":
                    continue
                out.append(dict(name=f"fit-{pp}-{kind}-{metric}", op="fit", pp=pp,
                                kind=kind, metric=metric))
    return out


def config_of(space):
    if space == "clf_config":
        from gama.configuration.classification import clf_config

        return clf_config
    if space == "reg_config":
        from gama.configuration.regression import reg_config

        return reg_config
    return EXTRA[space] if space in EXTRA else spaces.spaces()[space]


def same_value(a, b):
    if a is b:
        return True
    if callable(a) or callable(b):
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same_value, a, b))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def same_estimator(a, b):
    if type(a) is not type(b):
        return f"{type(a).__name__} became {type(b).__name__}"
    pa, pb = a.get_params(deep=False), b.get_params(deep=False)
    if set(pa) != set(pb):
        return "parameters differ"
    for k in pa:
        if k == "mapping":
            continue  # learned, removed on purpose
        if not same_value(pa[k], pb[k]):
            return f"{type(a).__name__}.{k}: {pa[k]!r} became {pb[k]!r}"
    return None


def same_pipeline(a, b):
    if [n for n, _ in a.steps] != [n for n, _ in b.steps]:
        return f"steps {[n for n, _ in a.steps]} became {[n for n, _ in b.steps]}"
    for (_, x), (_, y) in zip(a.steps, b.steps):
        why = same_estimator(x, y)
        if why:
            return why
    return None


def run_code(code, what):
    space = {}
    try:
        exec(compile(code, "exported", "exec"), space)
    except Exception as e:
        raise core.Violation(f"exported code does not run: {type(e).__name__}: {e}\n{code}")
    core.check(what in space, f"exported code defines no `{what}`")
    return space[what]


def body(name, p, tier):
    config = config_of(p["space"]) if "space" in p else None
    pset = pset_from_config(config)[0] if config is not None else None
    extra = [("imputation", None)]

    def identity(text, pipeline, rec):
        """`text` is read, compiled, written and exported without change."""
        ind = Individual.from_string(text, pset, to_pipeline=compile_individual)
        core.check(ind.pipeline_str() == text,
                   f"{text} reads back as {ind.pipeline_str()}")
        core.check(text in str(ind), "str of the individual lacks the pipeline")
        steps = [s for _, s in ind.pipeline.steps]
        core.check([type(s) for s in steps] == [c for c, _ in pipeline],
                   f"{text} compiles to {[type(s).__name__ for s in steps]}")
        for est, (cls, hp) in zip(steps, pipeline):
            got, default = est.get_params(deep=False), cls().get_params(deep=False)
            for k in got:
                want = hp[k] if k in hp else default[k]
                core.check(same_value(got[k], want),
                           f"{text}: {cls.__name__}.{k} is {got[k]!r}, not {want!r}")
        core.check(ind.short_name(">") == ">".join(c.__name__ for c, _ in pipeline),
                   f"{text} has short name {ind.short_name('>')}")
        clone = ind.copy_as_new()
        core.check(clone.pipeline_str() == text and clone != ind and ind == ind,
                   "a copy is not a new individual of the same pipeline")
        again = Individual.from_string(text, pset)
        core.check(again != ind and again._id != ind._id, "ids are not unique")
        lenient = Individual.from_string(text, pset, compile_individual, strict=False)
        core.check(lenient.pipeline_str() == text, "lenient reading differs")
        code = individual_to_python(ind)
        why = same_pipeline(ind.pipeline, run_code(code, "pipeline"))
        core.check(not why, f"exported code of {text}: {why}")
        rec.state(name, text)
        rec.sample(text)

    # ---- all pipelines of a small space
    depth = 4 if tier == "thorough" and p.get("space") in ("single", "pre2") else 3
    every = spaces.all_pipelines(config, depth) if p["op"] in ("all", "wrong") else []
    if p["op"] == "all":
        # some long ones: repeating one step, and taking turns
        pre = [(c, s) for c in spaces.transformers(config)
               for s in spaces.settings(config, c)]
        last = spaces.all_pipelines(config, 1)[-1]
        for n in range(3, 12):
            for k in range(len(pre)):
                every.append([pre[k]] * n + last)
                every.append([pre[(k + i) % len(pre)] for i in range(n)] + last)
    # ---- the shipped spaces: every value of every hyperparameter
    if p["op"] in ("values", "pairs"):
        first = {c: {h: v[0] for h, v in spaces.domains(config, c).items()}
                 for c in config if not isinstance(c, str)}
        learners, pre = spaces.learners(config), spaces.transformers(config)
        if p["op"] == "values":
            for cls in learners + pre:
                dom = spaces.domains(config, cls)
                variants = [first[cls]]
                variants += [{**first[cls], h: v} for h in dom for v in dom[h][1:]]
                if tier == "thorough":
                    for h1, h2 in itertools.combinations(sorted(dom), 2):
                        for v1, v2 in itertools.product(dom[h1], dom[h2]):
                            variants.append({**first[cls], h1: v1, h2: v2})
                base = [(learners[0], first[learners[0]])]
                for hp in variants:
                    every.append([(cls, hp)] if cls in learners else [(cls, hp)] + base)
            every = every[p["part"]::6]
        else:
            for a, b in itertools.product(pre, learners + pre):
                chain = [(a, first[a]), (b, first[b])]
                if b in pre:
                    chain.append((learners[-1], first[learners[-1]]))
                every.append(chain)

    def read_back(ch, rec):
        pipeline = ch.pick(every, "pipeline")
        identity(to_string(pipeline), pipeline, rec)

    def to_string(pipeline):
        def fmt(v):
            if isinstance(v, str):
                return f"'{v}'"
            return v.__name__ if callable(v) else str(v)

        text = "data"
        for cls, hp in pipeline:
            terms = []
            for n, v in hp.items():
                shared = isinstance(config[cls][n], list) and not config[cls][n]
                ident = n if shared else f"{cls.__name__}.{n}"
                terms.append((f"{n}={fmt(v)}", f"{ident}={fmt(v)}"))
            text = f"{cls.__name__}({text}{''.join(', ' + i for _, i in sorted(terms))})"
        return text

    def wrong(ch, rec):
        """A text with something missing or unknown is refused, never misread."""
        pipeline = ch.pick([q for q in every if len(q) <= 2], "pipeline")
        text = to_string(pipeline)
        cut = []
        for k, (cls, hp) in enumerate(pipeline):
            for h in hp:
                rest = [(c, {n: v for n, v in g.items() if (j, n) != (k, h)})
                        for j, (c, g) in enumerate(pipeline)]
                cut.append(("missing", to_string(rest), rest))
        for cls, _ in pipeline:
            cut.append(("unknown", text.replace(cls.__name__ + "(", "Nope(", 1), None))
        if "=" in text:
            head, tail = text.split("=", 1)
            cut.append(("value", f"{head}=99{tail}", None))
        for i, (kind, bad, rest) in enumerate(cut):
            try:
                got = Individual.from_string(bad, pset)
            except Exception:
                got = None
            core.check(got is None, f"{bad} was accepted as {got and got.pipeline_str()}")
            if kind == "missing":
                ind = Individual.from_string(bad, pset, compile_individual, strict=False)
                core.check(ind.pipeline_str() == bad, f"{bad} misread")
                steps = [s for _, s in ind.pipeline.steps]
                for est, (cls, hp) in zip(steps, rest):
                    params = est.get_params(deep=False)
                    core.check(type(est) is cls and
                               all(same_value(params[h], v) for h, v in hp.items()),
                               f"{bad} misread")
            rec.state(name, kind, bad)

    def table(n, mask, names):
        cols = {}
        for i in range(n):
            kind = mask[i % len(mask)]
            values = dict(
                two=["a", "b"] * 10,
                five=list("abcde") * 4,
                many=[f"v{j}" for j in range(20)],
                num=[float(j % 7) for j in range(20)],
            )[kind]
            values = [values[(j * (i + 1)) % 20] for j in range(20)]
            key = dict(plain=f"col{i}", quote=f'it\'s "{i}"', number=str(i),
                       long="c" * 30 + str(i))[names]
            cols[key] = pd.Series(values if kind == "num" else pd.Categorical(values))
        cols["z" if names != "number" else str(n)] = pd.Series([(j * 3) % 11 + 0.5 for j in range(20)])
        return pd.DataFrame(cols)

    def prep(ch, rec):
        """The preprocessing steps in exported code are those that were fit."""
        kinds = ("two", "five", "many", "num")
        mask = ch.pick([m for k in (1, 2, 3) for m in itertools.combinations(kinds, k)],
                       "kinds")
        names = ch.pick(("plain", "quote", "number", "long"), "names")
        x = table(p["n"], mask, names)
        encoded, encoding = basic_encoding(x, not p["reg"])
        steps = encoding.steps + basic_pipeline_extension(encoded, not p["reg"])
        cfg = config_of("reg" if p["reg"] else "mixed")
        own, _ = pset_from_config(cfg)
        learner = spaces.all_pipelines(cfg, 1)[0]
        ind = Individual.from_string(spaces.to_string(learner, cfg), own,
                                     to_pipeline=compile_individual)
        y = pd.Series([j % 2 for j in range(20)])
        post = BestFitPostProcessing()
        post.post_process(basic_pipeline_fit(encoded, steps[2:], y), y, 60.0, [ind])
        got = run_code(post.to_code(steps), "pipeline")
        want = steps + ind.pipeline.steps
        core.check([n for n, _ in got.steps] == [n for n, _ in want], "steps differ")
        for (_, a), (_, b) in zip(want, got.steps):
            why = same_estimator(a, b)
            core.check(not why, f"exported preprocessing: {why}")
        got.fit(x, y)
        reference = ind.pipeline.fit(
            basic_pipeline_fit(encoded, steps[2:], y), y
        )
        a = got.predict(x)
        b = reference.predict(basic_pipeline_fit(encoded, steps[2:], y))
        core.check(np.allclose(a, b), "exported pipeline predicts something else")
        rec.state(name, mask, names)

    def basic_pipeline_fit(x, steps, y):
        for _, t in steps:
            x = t.fit_transform(x, y)
        return x

    def fit(ch, rec):
        x, y = e2e.small_data()
        reg, cls = p["kind"] == "reg", None
        space = "reg" if reg else "mixed"
        x["c"] = pd.Categorical(["a", "b", "c", "a", "b"] * 4)
        limit = ch.pick((1, 4, 12), "evaluations")
        seed = ch.pick((3, 7, 5) if limit == 12 else (3, 7), "seed")
        size = 4
        if p["pp"] == "ensemble":
            # no pipeline fits these well: ensembles of several, weighted differently
            x["d"] = [((i * 11) % 13) / 3 - 2 for i in range(20)]
            y = pd.Series([int((i * 7) % 5 + (i * 11) % 13 / 3 > 3 + (i % seed == 1))
                           for i in range(20)])
            size = ch.pick((4, 7), "size")
        if p["kind"] == "str":
            y = y.map({0: "no", 1: "yes"})
        if reg:
            y, cls = y + x["b"] / 2, GamaRegressor
        scoring = ("neg_mean_squared_error" if reg else
                   "accuracy" if p["metric"] == "label" else "neg_log_loss")
        pp = EnsemblePostProcessing(ensemble_size=size) if p["pp"] == "ensemble" else None
        with e2e.session(seed):
            g = spaces.new_gama(config_of(space), cls, search=RandomSearch(),
                                scoring=scoring, post_processing=pp, store="all")
            try:
                g.export_script(None)
            except RuntimeError:
                pass
            else:
                raise core.Violation("a script was exported before the first fit")
            e2e.fit(g, ch, x, y, limit=limit)
            code = g.export_script(None)
            tools, path = tempfile.mkdtemp(dir=os.getcwd()), os.environ["PATH"]
            black = os.path.join(tools, "black")  # a stand-in: formatting takes long
            with open(black, "w") as fh:
                fh.write("#!/bin/sh\nexit 0\n")
            os.chmod(black, 0o755)
            os.environ["PATH"] = tools + os.pathsep + path
            try:
                target = os.path.join(os.getcwd(), "script.py")
                if os.path.exists(target):
                    os.remove(target)
                g.export_script(target)
                with open(target) as fh:
                    written = fh.read()
                with open(target, "w") as fh:
                    fh.write("what was (there\n" * 200)
                g.export_script(target)  # overwritten, unless asked to raise
                with open(target) as fh:
                    core.check(sorted(fh.read().split()) == sorted(written.split()),
                               "exporting to an existing file does not replace it")
                try:
                    g.export_script(target, raise_if_exists=True)
                except FileExistsError:
                    pass
                else:
                    raise core.Violation("an existing file was overwritten")
            finally:
                os.environ["PATH"] = path
                shutil.rmtree(tools, ignore_errors=True)
            pipe = run_code(code, "pipeline")
            why = same_pipeline_or_ensemble(pipe, run_code(written, "pipeline"))
            core.check(not why, f"file and text of the script differ: {why}")
            if p["pp"] == "best":
                core.check([type(s) for _, s in pipe.steps[2:]]
                           == [type(s) for _, s in g.model.steps],
                           "the script defines another pipeline than the model")
                for (_, a), (_, b) in zip(g.model.steps, pipe.steps[2:]):
                    core.check(not same_estimator(a, b), f"{same_estimator(a, b)}")
                pipe.fit(x, y)
                a, b = pipe.predict(x), g.predict(x)
                core.check(np.allclose(a, b) if reg else list(a) == list(b),
                           "the exported pipeline predicts something else")
            else:
                check_ensemble(g, pipe)
                pipe.fit(x, y)
                core.check(len(pipe.predict(x)) == len(x), "can not predict")
            rec.state(name, limit, seed, size, sorted(code.splitlines()))

    def same_pipeline_or_ensemble(a, b):
        if [n for n, _ in a.steps] != [n for n, _ in b.steps]:
            return "steps differ"
        for (n, x), (_, y) in zip(a.steps, b.steps):
            if n == "ensemble":
                if type(x) is not type(y) or x.weights != y.weights:
                    return "ensembles differ"
                for (_, u), (_, v) in zip(x.estimators, y.estimators):
                    if same_pipeline(u, v):
                        return same_pipeline(u, v)
            elif same_estimator(x, y):
                return same_estimator(x, y)
        return None

    def check_ensemble(g, pipe):
        voter = pipe.steps[-1][1]
        models = list(g.model._models.values())
        core.check(list(voter.weights) == [w for _, w in models], "weights differ")
        core.check(len(voter.estimators) == len(models), "number of models differs")
        want = "VotingRegressor" if p["kind"] == "reg" else "VotingClassifier"
        core.check(type(voter).__name__ == want, f"exported as {type(voter).__name__}")
        if p["kind"] != "reg":
            core.check(voter.voting == ("soft" if p["metric"] == "proba" else "hard"),
                       f"voting is {voter.voting}")
        prep_steps = pipe.steps[:-1]
        for (_, est), (model, _) in zip(voter.estimators, models):
            full = [s for _, s in prep_steps[2:]] + [s for _, s in est.steps]
            inner = [s for _, s in model.individual.pipeline.steps]
            core.check(len(full) == len(inner), "steps differ")
            for a, b in zip(inner, full):
                core.check(not same_estimator(a, b), f"{same_estimator(a, b)}")

    return dict(all=read_back, values=read_back, pairs=read_back, wrong=wrong, prep=prep,
                fit=fit)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=0)
