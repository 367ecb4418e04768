"""Tiny search spaces, and an oracle for membership that reads only the configuration."""
import itertools
import os
import tempfile

from sklearn.base import ClassifierMixin, RegressorMixin, TransformerMixin
from sklearn.linear_model import Ridge
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import Binarizer, MinMaxScaler, StandardScaler, Normalizer
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor


def spaces():
    """name -> configuration. Fresh objects at every call."""
    return {
        # learner without hyperparameters, learner with own + shared hyperparameters
        "mixed": {
            "fit_prior": [True, False],
            GaussianNB: {},
            BernoulliNB: {"alpha": [0.1, 1.0], "fit_prior": []},
            Binarizer: {"threshold": [0.0, 0.5]},
            MinMaxScaler: {},
        },
        # two operators sharing one hyperparameter; single-valued hyperparameters
        "shared": {
            "alpha": [0.1, 1.0],
            BernoulliNB: {"alpha": [], "binarize": [0.0]},
            DecisionTreeClassifier: {"max_depth": [1, 2]},
            Normalizer: {"norm": ["l1"]},
        },
        # no preprocessing at all
        "learners": {
            GaussianNB: {},
            DecisionTreeClassifier: {"max_depth": [1, 2, 3]},
        },
        # one learner, one preprocessor; nothing can be replaced by something else
        "single": {GaussianNB: {}, MinMaxScaler: {}},
        # one learner, hyperparameters only
        "onlyhp": {DecisionTreeClassifier: {"max_depth": [1, 2], "criterion": ["gini"]}},
        # one replaceable hyperparameter, fixed structure
        "pre2": {
            GaussianNB: {},
            Binarizer: {"threshold": [0.0, 0.5]},
            StandardScaler: {},
        },
        "reg": {
            "alpha": [0.5, 1.0],
            Ridge: {"alpha": []},
            DecisionTreeRegressor: {"max_depth": [1, 2]},
            MinMaxScaler: {},
            Binarizer: {"threshold": [0.0, 0.5]},
        },
    }


def learners(config):
    return [
        c
        for c in config
        if not isinstance(c, str)
        and issubclass(c, (ClassifierMixin, RegressorMixin))
        and not issubclass(c, TransformerMixin)
    ]


def transformers(config):
    return [c for c in config if not isinstance(c, str) and issubclass(c, TransformerMixin)]


def domains(config, cls):
    """hyperparameter -> values which the configuration allows for `cls`."""
    hps = {}
    for name, values in config[cls].items():
        if name == "param_check":
            continue
        if isinstance(values, list) and not values:
            values = config[name]
        hps[name] = list(values)
    return hps


def settings(config, cls):
    """All hyperparameter settings of `cls` which the configuration allows."""
    hps = domains(config, cls)
    names = sorted(hps)
    return [
        dict(zip(names, combo)) for combo in itertools.product(*(hps[n] for n in names))
    ]


def fmt(value):
    return f"'{value}'" if isinstance(value, str) else str(value)


def all_pipelines(config, max_length):
    """Every pipeline of the space as a list of (class, settings), learner last."""
    pre = [(c, s) for c in transformers(config) for s in settings(config, c)]
    out = []
    for n in range(max_length):
        for chain in itertools.product(pre, repeat=n):
            for c in learners(config):
                for s in settings(config, c):
                    out.append(list(chain) + [(c, s)])
    return out


def to_string(pipeline, config):
    """The documented textual form of a pipeline (see Individual.pipeline_str)."""
    text = "data"
    for cls, hp in pipeline:
        terms = []
        for name, value in hp.items():
            shared = isinstance(config[cls][name], list) and not config[cls][name]
            ident = name if shared else f"{cls.__name__}.{name}"
            terms.append((f"{name}={fmt(value)}", f"{ident}={fmt(value)}"))
        tail = "".join(", " + ident for _, ident in sorted(terms))
        text = f"{cls.__name__}({text}{tail})"
    return text


def describe_steps(steps, config):
    """Compiled estimators -> [(class, hyperparameters named in the space)]."""
    out = []
    for est in steps:
        cls = type(est)
        hp = config.get(cls, {})
        params = est.get_params(deep=False)
        out.append((cls, {n: params[n] for n in sorted(hp) if n != "param_check"}))
    return out


def membership_problem(individual, config, max_length=None, n_fixed=0):
    """None if the individual's compiled pipeline lies in the space, else why not."""
    pipe = individual.pipeline
    steps = [s for _, s in pipe.steps][n_fixed:]
    names = [n for n, _ in pipe.steps]
    if len(set(names)) != len(names):
        return f"step names are not unique: {names}"
    if not steps:
        return "empty pipeline"
    if max_length is not None and len(steps) > max_length:
        return f"{len(steps)} steps, but at most {max_length} are allowed"
    if len(steps) != len(list(individual.primitives)):
        return "compiled pipeline and individual differ in length"
    for i, est in enumerate(steps):
        cls = type(est)
        if cls not in config:
            return f"{cls.__name__} is not in the search space"
        want = learners(config) if i == len(steps) - 1 else transformers(config)
        if cls not in want:
            return f"{cls.__name__} at position {i} of {len(steps)} has the wrong role"
        params = est.get_params(deep=False)
        defaults = cls().get_params(deep=False)
        allowed = domains(config, cls)
        for k, values in allowed.items():
            if not any(params[k] is v or params[k] == v for v in values):
                return f"{cls.__name__}: {k}={params[k]} is not an allowed setting"
        others = {k for k in params if k not in allowed}
        if any(not _same(params[k], defaults[k]) for k in others):
            return f"{cls.__name__}: parameter outside the space was changed"
    # exactly one value for every hyperparameter of every step
    for node, est in zip(reversed(list(individual.primitives)), steps):
        given = [t.output for t in node._terminals]
        need = sorted(n for n in config[type(est)] if n != "param_check")
        if sorted(given) != need:
            return f"{type(est).__name__} has hyperparameters {given}, needs {need}"
    return None


def _same(a, b):
    try:
        return a is b or bool(a == b) or (a != a and b != b)
    except Exception:
        return True


def new_gama(config=None, cls=None, **kwargs):
    """A real Gama instance whose output directory lies in the scratch directory."""
    import logging

    from gama import GamaClassifier

    cls = cls or GamaClassifier
    kwargs.setdefault("store", "nothing")
    kwargs.setdefault("n_jobs", 1)
    kwargs.setdefault("scoring", "accuracy")
    out = kwargs.pop("output_directory", None) or tempfile.mkdtemp(dir=os.getcwd())
    g = cls(search_space=config, output_directory=out, **kwargs)
    gl = logging.getLogger("gama")
    gl.handlers = [h for h in gl.handlers if isinstance(h, logging.NullHandler)]
    return g
