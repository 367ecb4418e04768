"""C12: an evaluation measures a pipeline on data it was not trained on, or says it failed."""
import functools
import time

import numpy as np
import pandas as pd
import stopit
from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import (
    compile_individual,
    evaluate_individual,
    evaluate_pipeline,
)
from gama.genetic_programming.components import Individual
from gama.utilities.metrics import Metric
from sklearn import metrics as sk
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin
from sklearn.pipeline import Pipeline

from mc import core, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one real evaluation of a recording pipeline; state = (data shape, "
    "settings, fault point, outcome)"
)
BOUNDS = {
    "quick": "binary, 3-class and regression data of 20 or 23 rows with ordinary, shifted and "
    "duplicate row labels, 3 or 5 folds, 10 subsample settings, 1 or 2 metrics, and a fault "
    "of 5 kinds at every single call of transform, fit, predict and predict_proba; "
    "timeouts at every such call",
    "thorough": "as quick with every fault for every subsample and metric setting",
}
ASSUMPTIONS = [
    "every class has at least as many rows as there are folds",
    "scikit-learn's cross validation uses the splits it is given",
]


class Env:
    """What the recording estimators see and do in the evaluation under way."""

    fault = None  # (call, number, action)
    calls = {}
    trained = []

    @classmethod
    def reset(cls, fault=None):
        cls.fault, cls.calls, cls.trained = fault, {}, []

    @classmethod
    def call(cls, what):
        n = cls.calls.get(what, 0)
        cls.calls[what] = n + 1
        if cls.fault and cls.fault[:2] == (what, n):
            cls.fault[2]()


class Pass(TransformerMixin, BaseEstimator):
    def fit(self, X, y=None):
        return self

    def transform(self, X):
        Env.call("transform")
        return X


class Spy(BaseEstimator):
    """Remembers the rows it was trained on; every row and training set has an answer."""

    def fit(self, X, y):
        Env.call("fit")
        self.rows_ = tuple(sorted(int(v) for v in X["id"]))
        Env.trained.append(self.rows_)
        self.labels_ = dict(zip((int(v) for v in X["id"]), list(y)))
        self.classes_ = np.unique(y)
        self.salt_ = sum((i + 1) * r for i, r in enumerate(self.rows_)) % 89
        return self

    def value(self, row):
        return (row * 7 + self.salt_) % 11

    def predict(self, X):
        Env.call("predict")
        return self.answer([int(v) for v in X["id"]])


class SpyClassifier(ClassifierMixin, Spy):
    def answer(self, rows):
        return np.array([self.classes_[self.value(r) % len(self.classes_)] for r in rows])

    def predict_proba(self, X):
        Env.call("predict_proba")
        return self.proba([int(v) for v in X["id"]])

    def proba(self, rows):
        k = len(self.classes_)
        raw = np.array([[1.0 + (self.value(r) + 3 * c) % 5 for c in range(k)] for r in rows])
        return raw / raw.sum(axis=1, keepdims=True)


class SpyRegressor(RegressorMixin, Spy):
    def answer(self, rows):
        return np.array([self.value(r) / 2 for r in rows])


SUBSAMPLES = (None, 0.5, 0.75, 0.97, 1.0, 6, "train", "nearly", "between", "len")
BINARY = ("roc_auc", "average_precision")
METRICS = {
    "clf": (("accuracy",), ("neg_log_loss",), ("neg_log_loss", "accuracy"),
            ("accuracy", "neg_log_loss"),
            ("f1_macro", "precision_weighted"), ("roc_auc",), ("average_precision", "accuracy")),
    "reg": (("neg_mean_squared_error",), ("r2", "neg_mean_absolute_error")),
}


def scenarios(tier):
    out = []
    for task in ("two", "three", "reg"):
        for cv in (3, 5):
            out.append(dict(name=f"clean-{task}-{cv}", op="clean", task=task, cv=cv))
        for m in METRICS["reg" if task == "reg" else "clf"]:
            if m[0] in BINARY and task == "three":
                continue
            out.append(dict(name=f"fault-{task}-{'+'.join(m)}", op="fault", task=task,
                            metrics=list(m)))
        out.append(dict(name=f"timeout-{task}", op="timeout", task=task))
    out.append(dict(name="individual", op="individual"))
    out.append(dict(name="refuse", op="refuse"))
    return out


def data(task, n, index):
    x = pd.DataFrame({"id": range(n), "v": [float(i % 4) for i in range(n)]})
    if task == "reg":
        y = pd.Series([float((i * 5) % 7) for i in range(n)])
    elif task == "two":
        y = pd.Series([int(i % 5 < 2) for i in range(n)])
    else:
        y = pd.Series([(i * 2) % 3 for i in range(n)])
    idx = dict(
        plain=range(n), shifted=range(100, 100 + n), reverse=range(n - 1, -1, -1),
        same=[5] * n, text=[f"r{i}" for i in range(n)],
    )[index]
    x.index = idx
    y.index = idx
    return x, y


def size_of(subsample, n, cv):
    """(argument, rows used of a training fold of t rows)"""
    train = n - -(-n // cv)  # the smallest training fold
    if subsample == "train":
        return train - 3, lambda t: train - 3
    if subsample == "nearly":
        return train - 1, lambda t: train - 1
    if subsample == "between":
        return n - 1, lambda t: t
    if subsample == "len":
        return n, lambda t: t
    if isinstance(subsample, float) and subsample < 1:
        return subsample, lambda t: int(subsample * t)
    if isinstance(subsample, int):
        return subsample, lambda t: min(subsample, t)
    return subsample, lambda t: t


def oracle_score(name, y, labels, proba):
    if name == "accuracy":
        return sk.accuracy_score(y, labels)
    if name == "neg_log_loss":
        return -sk.log_loss(y, proba)
    if name == "f1_macro":
        return sk.f1_score(y, labels, average="macro")
    if name == "precision_weighted":
        return sk.precision_score(y, labels, average="weighted")
    if name == "roc_auc":
        return sk.roc_auc_score(y, proba[:, 1])
    if name == "average_precision":
        return sk.average_precision_score(y, proba[:, 1])
    if name == "neg_mean_squared_error":
        return -sk.mean_squared_error(y, labels)
    if name == "neg_mean_absolute_error":
        return -sk.mean_absolute_error(y, labels)
    return sk.r2_score(y, labels)


def body(name, p, tier):
    task = p.get("task")
    learner = SpyRegressor if task == "reg" else SpyClassifier
    kinds = METRICS["reg" if task == "reg" else "clf"]

    def pipeline():
        return Pipeline([("pass", Pass()), ("0", learner())])

    def evaluate(metric_names, x, y, **kw):
        return evaluate_pipeline(
            pipeline(), x, y, kw.pop("timeout", 60.0),
            tuple(Metric(m) for m in metric_names), **kw
        )

    def verify(result, x, y, metric_names, cv, rows_used):
        predictions, scores, estimators, error = result
        core.check(error is None, f"the evaluation failed: {error!r}")
        n = len(y)
        truth = list(y)
        core.check(len(estimators) == cv, f"{len(estimators)} models for {cv} folds")
        proba = metric_names[0] in ("neg_log_loss", *BINARY)
        core.check(len(predictions) == n, f"{len(predictions)} predictions for {n} rows")
        # the test rows of a fold are those predicted by its model; find them by value
        from sklearn.model_selection import KFold, StratifiedKFold

        split = KFold(cv) if task == "reg" else StratifiedKFold(cv)
        folds = list(split.split(np.zeros(n), truth))
        per_fold = {m: [] for m in metric_names}
        for (train, test), est in zip(folds, estimators):
            spy = est.steps[-1][1]
            got = set(spy.rows_)
            core.check(not got & set(test), "a model was trained on rows it is scored on")
            core.check(got <= set(train), "unknown rows in training")
            want = rows_used(len(train))
            core.check(len(spy.rows_) == len(got) == want,
                       f"trained on {len(spy.rows_)} rows of {len(train)}, not {want}")
            core.check(all(spy.labels_[r] == truth[r] for r in got),
                       "rows were trained with the labels of other rows")
            if task != "reg" and want < len(train):
                for c in set(truth):
                    share = want * np.mean([truth[r] == c for r in train])
                    have = sum(truth[r] == c for r in got)
                    core.check(abs(have - share) <= 1, "the subsample is not stratified")
            test = [int(r) for r in test]
            answer = spy.proba(test) if proba else spy.answer(test)
            core.check(np.allclose(predictions[test], answer),
                       "predictions are not those of the model not trained on these rows")
            for m in metric_names:
                pr = spy.proba(test) if task != "reg" else None
                per_fold[m].append(
                    oracle_score(m, [truth[r] for r in test], spy.answer(test), pr)
                )
        for m, s in zip(metric_names, scores):
            core.check(abs(s - np.mean(per_fold[m])) < 1e-9,
                       f"{m} is {s}, the folds have {per_fold[m]}")
        core.check(len(scores) == len(metric_names), f"scores {scores}")

    def clean(ch, rec):
        n = ch.pick((20, 23), "rows")
        index = ch.pick(("plain", "shifted", "reverse", "same", "text"), "row labels")
        names = ch.pick([m for m in kinds if not (m[0] in BINARY and task == "three")],
                        "metrics")
        sub = ch.pick(SUBSAMPLES, "subsample")
        x, y = data(task, n, index)
        before = x.copy(), y.copy()
        arg, used = size_of(sub, n, p["cv"])
        Env.reset()
        result = evaluate(names, x, y, cv=p["cv"], subsample=arg)
        verify(result, x, y, names, p["cv"], used)
        core.check(x.equals(before[0]) and y.equals(before[1]), "the data was changed")
        first = list(Env.trained)
        Env.reset()
        again = evaluate(names, x, y, cv=p["cv"], subsample=arg)
        core.check(again[1] == result[1] and Env.trained == first
                   and np.array_equal(again[0], result[0]),
                   "two evaluations of one pipeline use different data")
        rec.state(name, n, index, names, sub)
        rec.sample(dict(rows=n, index=index, metrics=names, subsample=arg))

    points_of = {}

    def fault(ch, rec):
        """A fault at any call: a complete failure, never part of a result."""
        names = p["metrics"]
        x, y = data(task, 20, "shifted")
        subs = SUBSAMPLES if tier == "thorough" else (None, 6)
        arg, used = size_of(ch.pick(subs, "subsample"), 20, 5)
        if arg not in points_of:
            Env.reset()
            evaluate(names, x, y, subsample=arg)
            points_of[arg] = [(w, i) for w, k in sorted(Env.calls.items())
                              for i in range(k)]
            verify(evaluate(names, x, y, subsample=arg), x, y, names, 5, used)
        points = points_of[arg]
        where = ch.pick(points, "fault point")
        what = ch.pick(("error", "memory", "outer", "user", "warning"), "fault")
        exc = dict(error=ValueError("no; \"really\"\nnot"), memory=MemoryError(),
                   outer=stopit.TimeoutException(), user=KeyboardInterrupt(),
                   warning=UserWarning("as error"))[what]

        def act():
            raise exc

        Env.reset(where + (act,))
        try:
            result = evaluate(names, x, y, subsample=arg)
        except (stopit.TimeoutException, KeyboardInterrupt) as e:
            core.check(what in ("outer", "user") and type(e) is type(exc),
                       f"{what} at {where} raised {e!r}")
        else:
            core.check(what not in ("outer", "user"), f"{exc!r} at {where} was swallowed")
            core.check(result[0] is None and not result[2],
                       f"{what} at {where}: predictions or models are returned")
            core.check(result[1] == tuple([float("-inf")] * len(names)),
                       f"{what} at {where}: scores are {result[1]}")
            core.check(result[3] is exc, f"{what} at {where}: error is {result[3]!r}")
        if what in ("outer", "memory"):  # and it leaves nothing behind
            Env.reset()
            verify(evaluate(names, x, y, subsample=arg), x, y, names, 5, used)
        rec.state(name, arg, where, what)

    def timeout(ch, rec):
        """Time runs out during any call of the pipeline."""
        names = kinds[ch.pick((0, 1), "metrics")]
        x, y = data(task, 20, "plain")
        Env.reset()
        evaluate(names, x, y)
        points = [(w, i) for w, k in sorted(Env.calls.items()) for i in range(k)
                  if i in (0, k // 2, k - 1)]
        where = ch.pick(points, "slow call")
        t = ch.pick((0.05, 0.5), "timeout")

        def act():
            end = time.time() + 20
            while time.time() < end:
                pass

        Env.reset(where + (act,))
        t0 = time.time()
        result = evaluate(names, x, y, timeout=t)
        took = time.time() - t0
        core.check(result[0] is None and not result[2]
                   and result[1] == tuple([float("-inf")] * len(names)),
                   f"timeout at {where}: parts of a result are returned: {result[:3]}")
        core.check(isinstance(result[3], stopit.TimeoutException),
                   f"timeout at {where}: error is {result[3]!r}")
        core.check(took < 10, f"a timeout of {t} took {took} s")
        rec.state(name, names, where, t)

    def individual(ch, rec):
        config = spaces.spaces()["mixed"]
        pset, _ = pset_from_config(config)
        texts = [spaces.to_string(q, config) for q in spaces.all_pipelines(config, 3)]
        text = ch.pick([texts[0], texts[5], texts[-1]], "pipeline")
        fixed = [("fixed", Pass())] if ch.flag("fixed steps") else []
        ind = Individual.from_string(
            text, pset, functools.partial(compile_individual, preprocessing_steps=fixed)
        )
        length = len([s for s in ind.pipeline.steps]) - len(fixed)
        add = ch.flag("length counts")
        err = ch.pick((None, ValueError("a;b"), stopit.TimeoutException()), "error")
        scores = ch.pick(((0.5,), (0.5, -2.0)), "scores")
        limit, left = ch.pick(((5.0, None), (5.0, 60.0), (50.0, 3.0), (5.0, -2.0)), "time")
        extra = ch.pick(({}, {"subsample": 0.5}), "other arguments")
        seen = {}
        pred, ests = np.arange(3), ["a", "b"]

        def stub(pipe, timeout, **kw):
            seen.update(kw, timeout=timeout, steps=[type(s) for _, s in pipe.steps])
            if err is not None:
                return None, tuple([float("-inf")] * len(scores)), None, err
            return pred, scores, ests, None

        kw = dict(extra)
        if left is not None:
            kw["deadline"] = time.time() + left
        e = evaluate_individual(ind, stub, timeout=limit, add_length_to_score=add, **kw)
        want_limit = limit if left is None else min(limit, left)
        got_limit = seen.pop("timeout")
        core.check(
            abs(got_limit - want_limit) < 1.0 if want_limit > 0 else got_limit < 0.5,
            f"the time limit is {got_limit}, not {want_limit}",
        )
        core.check(seen.pop("steps") == [type(s) for _, s in ind.pipeline.steps],
                   "another pipeline was evaluated")
        core.check(seen == extra, f"arguments {seen} arrive, not {extra}")
        want = scores if err is None else tuple([float("-inf")] * len(scores))
        want = want + ((-length,) if add else ())
        core.check(e.score == want and e.individual is ind, f"score is {e.score}")
        core.check(tuple(ind.fitness.values) == want, f"fitness is {ind.fitness}")
        core.check(e.duration >= 0 and e.start_time is not None, "no timing")
        if err is None:
            core.check(e.error is None and np.array_equal(e.predictions, pred)
                       and e.estimators == ests, "part of the result is lost")
        else:
            core.check(e.error is not None and str(err) in e.error
                       and type(err).__name__ in e.error, f"error is {e.error}")
            core.check(e.predictions is None and not e.estimators, "stray results")
        rec.state(name, text, bool(fixed), add, str(err), scores, limit, left)

    def refuse(ch, rec):
        x, y = data("two", 20, "plain")
        bad = ch.pick((None, "text", 0.0, -1.0), "argument")
        try:
            if isinstance(bad, float):
                evaluate_pipeline(Pipeline([("0", SpyClassifier())]), x, y, bad,
                                  (Metric("accuracy"),))
            else:
                evaluate_pipeline(bad, x, y, 10.0, (Metric("accuracy"),))
        except (TypeError, ValueError):
            pass
        else:
            raise core.Violation(f"{bad!r} was accepted")
        rec.state(name, bad)

    return dict(clean=clean, fault=fault, timeout=timeout, individual=individual,
                refuse=refuse)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=0)
