"""C19: scores are those scikit-learn gives for the same predictions."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import BestFitPostProcessing
from gama.search_methods import RandomSearch
from gama.utilities.metrics import (
    Metric,
    MetricType,
    classification_metrics,
    regression_metrics,
    scoring_to_metric,
)
from sklearn import metrics as sk
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.model_selection import StratifiedKFold
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one pair of labels and predictions scored by the real code; state = "
    "(metric, labels, predictions)"
)
BOUNDS = {
    "quick": "all labels and predictions over 3 classes (2 for binary metrics) and 3 rows, "
    "3 kinds of labels; probabilities out of 4 vectors per row; regression values out of 4 "
    "for 3 rows; score of fitted models on all subsets of 6 rows",
    "thorough": "as quick with 4 rows and subsets of 8 rows",
}
ASSUMPTIONS = [
    "labels given to score were seen in fit; roc_auc and average_precision are for two "
    "classes, the latter 0 and 1 or text"
]

PREDICT = ["accuracy"] + [
    f"{m}_{a}" for m in ("precision", "recall", "f1") for a in ("macro", "micro", "weighted")
]
BINARY = ("roc_auc", "average_precision")  # for two classes only
REGRESSION = sorted(regression_metrics)


def reference(metric, y, pred, labels=None):
    """What scikit-learn documents for this metric (higher is better)."""
    if metric == "accuracy":
        return sk.accuracy_score(y, pred)
    if metric == "neg_log_loss":
        return -sk.log_loss(y, pred, labels=labels)
    if metric == "roc_auc":
        return sk.roc_auc_score(y, pred)
    if metric == "average_precision":
        return sk.average_precision_score(y, pred, pos_label=max(labels or y))
    if metric in REGRESSION:
        f = dict(
            explained_variance=sk.explained_variance_score, r2=sk.r2_score,
            neg_mean_absolute_error=sk.mean_absolute_error,
            neg_mean_squared_log_error=sk.mean_squared_log_error,
            neg_median_absolute_error=sk.median_absolute_error,
            neg_mean_squared_error=sk.mean_squared_error,
        )[metric]
        return (-1 if metric.startswith("neg_") else 1) * f(y, pred)
    name, average = metric.rsplit("_", 1)
    f = dict(precision=sk.precision_score, recall=sk.recall_score, f1=sk.f1_score)[name]
    return f(y, pred, average=average)


LABEL_SETS = {
    "three": [0, 1, 2], "two": [0, 1], "other": [5, 7], "gap": [3, 7, 20],
    "text": ["n", "p", "q"], "yes": ["no", "yes"],
}


def scenarios(tier):
    out = []
    for m in PREDICT:
        out.append(dict(name=f"labels-{m}", op="labels", metric=m,
                        n=3 if tier == "quick" else 4))
    for m in ("neg_log_loss", "roc_auc", "average_precision"):
        out.append(dict(name=f"proba-{m}", op="proba", metric=m, n=3 if m == "neg_log_loss" and tier == "quick" else 4))
    for m in REGRESSION:
        out.append(dict(name=f"values-{m}", op="values", metric=m, n=3))
    for m in PREDICT + ["neg_log_loss", "roc_auc", "average_precision"]:
        for labels in ("int", "text", "gap"):
            if m == "average_precision" and labels == "gap":
                continue
            out.append(dict(name=f"fitted-{m}-{labels}", op="fitted", metric=m,
                            labels=labels, n=6 + 2 * (tier == "thorough")))
    for m in REGRESSION:
        out.append(dict(name=f"fitted-{m}", op="fitted", metric=m, labels="float",
                        n=6 + 2 * (tier == "thorough")))
    for first in LABEL_SETS:
        out.append(dict(name=f"search-{first}", op="search", first=first))
    out.append(dict(name="types", op="types"))
    out.append(dict(name="scoring", op="scoring"))
    out.append(dict(name="bad", op="bad"))
    return out


class Answer(ClassifierMixin, BaseEstimator):
    """Gives the answers it was told."""

    def __init__(self, answers=None, classes=None, proba=None):
        self.answers, self.classes, self.proba = answers, classes, proba
        self.classes_ = classes

    def fit(self, x, y):
        return self

    def predict(self, x):
        return np.asarray(self.answers)

    def predict_proba(self, x):
        return np.asarray(self.proba)


class Values(RegressorMixin, BaseEstimator):
    def __init__(self, answers=None):
        self.answers = answers

    def fit(self, x, y):
        return self

    def predict(self, x):
        return np.asarray(self.answers)


def close(a, b):
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-9


def body(name, p, tier):
    def judge(metric, model, x, y, pred, want, what, direct=None):
        got = metric(model, x, y)
        core.check(close(got, want), f"{what}: scorer gives {got}, not {want}")
        got = metric.maximizable_score(y, direct if direct is not None else pred)
        core.check(close(got, want), f"{what}: maximizable score {got}, not {want}")
        sign = -1 if metric.name.startswith("neg_") else 1
        got = metric.score(y, direct if direct is not None else pred)
        core.check(close(sign * got, want), f"{what}: score {got}, not {sign * want}")

    def labels(ch, rec):
        metric = Metric(p["metric"])
        names = [[0, 1, 2], ["a", "b", "c"], [-1, 4, 9]][ch.choose(3, "labels")]
        n = p["n"]
        y = [names[ch.choose(3, "label")] for _ in range(n)]
        x = np.zeros((n, 1))
        for pred in itertools.product(names, repeat=n):
            want = reference(p["metric"], y, list(pred))
            judge(metric, Answer(pred, names), x, np.array(y), np.array(pred), want,
                  f"{p['metric']} of {y}, {list(pred)}")
            rec.state(p["metric"], tuple(y), pred)
            rec.count("predictions scored")

    def proba(ch, rec):
        metric = Metric(p["metric"])
        n = p["n"]
        if p["metric"] in BINARY:
            vectors = [(0.9, 0.1), (0.5, 0.5), (0.3, 0.7)]
            names = [0, 1]
        else:
            vectors = [(0.8, 0.1, 0.1), (0.2, 0.5, 0.3), (0.0, 0.0, 1.0), (0.4, 0.4, 0.2)]
            names = [[0, 1, 2], ["a", "b", "c"]][ch.choose(2, "labels")]
        y = [names[ch.choose(len(names), "label")] for _ in range(n)]
        if len(set(y)) < len(names):
            raise core.Prune()  # undefined, or without knowing all classes
        x = np.zeros((n, 1))
        for pred in itertools.product(vectors, repeat=n):
            pred = np.array(pred)
            direct = pred[:, 1] if p["metric"] in BINARY else pred
            want = reference(p["metric"], y, direct)
            judge(metric, Answer(None, np.array(names), pred), x, np.array(y), pred, want,
                  f"{p['metric']} of {y}, {pred.tolist()}", direct)
            rec.state(p["metric"], tuple(y), pred.tobytes())
            rec.count("predictions scored")

    def values(ch, rec):
        metric = Metric(p["metric"])
        n = p["n"]
        domain = (0.0, 1.0, 2.5, 4.0) if "log" in p["metric"] else (-1.0, 0.0, 2.5, 4.0)
        y = [domain[ch.choose(4, "value")] for _ in range(n)]
        x = np.zeros((n, 1))
        for pred in itertools.product(domain, repeat=n):
            want = reference(p["metric"], y, list(pred))
            judge(metric, Values(pred), x, np.array(y), np.array(pred), want,
                  f"{p['metric']} of {y}, {pred}")
            rec.state(p["metric"], tuple(y), pred)
            rec.count("predictions scored")

    fitted_models = {}

    def fitted_model(kind):
        if kind in fitted_models:
            return fitted_models[kind]
        n = 24
        x = pd.DataFrame({"u": [float((i * 7) % n) + 0.25 for i in range(n)],
                          "v": [float((i * 5) % 9) / 2 for i in range(n)]})
        if p["labels"] == "float":
            y = pd.Series([(i * 5) % 7 / 2 + 0.5 for i in range(n)])
            space, cls = {DecisionTreeRegressor: {"max_depth": [2]}}, GamaRegressor
        else:
            names = dict(int=[0, 1, 2], text=["n", "p", "q"], gap=[3, 7, 20])[p["labels"]]
            if p["metric"] in BINARY:
                names = names[:2]
            y = pd.Series([names[(i * i + i // 3) % len(names)] for i in range(n)])
            space, cls = {DecisionTreeClassifier: {"max_depth": [2]}}, GamaClassifier
        with e2e.session(2):
            g = spaces.new_gama(space, cls=cls, scoring=p["metric"], search=RandomSearch())
            if kind == "array":
                e2e.fit(g, core.Chooser(), x.to_numpy(), y.to_numpy(), limit=1)
            else:
                e2e.fit(g, core.Chooser(), x, y, limit=1)
        fitted_models[kind] = g, x, y
        return fitted_models[kind]

    def fitted(ch, rec):
        """The score of a fitted model, on any rows, as the user gives the labels."""
        mask = ch.choose(2 ** p["n"] - 1, "rows") + 1
        kind = ch.pick(("frame", "array"), "data")
        g, x, y = fitted_model(kind)
        rows = [i for i in range(p["n"]) if mask >> i & 1]
        if p["metric"] == "r2" and len(rows) < 2:
            raise core.Prune()
        x, y = x.iloc[rows], y.iloc[rows]
        if p["metric"] == "roc_auc" and y.nunique() < 2:
            raise core.Prune()
        if kind == "array":
            given = x.to_numpy(), y.to_numpy()
        else:
            given = x, y
        got = g.score(*given)
        classes = None
        if p["metric"] in ("neg_log_loss", *BINARY):
            pred = g.predict_proba(given[0])
            classes = sorted(set(fitted_models[kind][2]))
            if p["metric"] in BINARY:
                pred = pred[:, 1]
        else:
            pred = g.predict(given[0])
        want = reference(p["metric"], y.to_numpy(), pred, labels=classes)
        if p["metric"].startswith("neg_"):
            # the documented result is the metric itself; either sign convention is fine,
            # but it has to be the same for all data
            core.check(close(abs(got), abs(want)),
                       f"score of rows {rows} is {got}, scikit-learn says {want}")
            sign = 0 if abs(want) < 1e-12 else np.sign(got) * np.sign(want)
            if sign:
                first = fitted_models.setdefault("sign", sign)
                core.check(first == sign, f"score of rows {rows} has another sign")
        else:
            core.check(close(got, want),
                       f"score of rows {rows} is {got}, scikit-learn says {want}")
        rec.state(name, mask, kind)

    def search(ch, rec):
        """Scores seen in the search, in one or two fits, with labels of any kind."""
        names = ch.pick((("neg_log_loss", "f1_macro", "accuracy"),
                         ("accuracy", "neg_log_loss")), "metrics")
        second = ch.pick((None,) + tuple(LABEL_SETS), "second labels")
        how = ch.pick(("same", "metrics"), "instances") if second else "one"
        metrics = [Metric(m) for m in names]
        done = []

        def make():
            g = spaces.new_gama({DecisionTreeClassifier: {"max_depth": [2]}},
                                scoring=metrics if how == "metrics" else names,
                                search=RandomSearch(), max_pipeline_length=None)
            g.evaluation_completed(done.append)
            return g

        with e2e.session(2):
            g = make()
            for i, kind in enumerate((p["first"], second)[: 2 if second else 1]):
                if i and how == "metrics":
                    g = make()
                labels_ = LABEL_SETS[kind]
                n = 30
                x = pd.DataFrame({"u": [(i * 7) % n + 0.25 for i in range(n)],
                                  "v": [(i * 5) % 9 / 2 for i in range(n)]})
                codes = np.array([(i + i // 4) % len(labels_) for i in range(n)])
                y = pd.Series([labels_[c] for c in codes])
                del done[:]
                e2e.fit(g, core.Chooser(), x, y, limit=1)
                got = done[0].score
                want = [[] for _ in names]
                for train, test in StratifiedKFold(5).split(x, codes):
                    model = DecisionTreeClassifier(max_depth=2, random_state=0)
                    model.fit(x.iloc[train], codes[train])
                    for m, scores in zip(names, want):
                        proba = m == "neg_log_loss"
                        pred = (model.predict_proba if proba else model.predict)(x.iloc[test])
                        scores.append(reference(m, codes[test], pred,
                                                range(len(labels_)) if proba else None))
                what = f"{p['first']} then {second} ({how}), {names}: fit {i}"
                core.check(done[0].error is None, f"{what} fails: {done[0].error}")
                for m, a, b in zip(names, got, want):
                    core.check(close(a, np.mean(b)), f"{what}: {m} is {a}, not {np.mean(b)}")
        rec.state(name, names, second, how)

    def types(ch, rec):
        m = ch.pick(sorted(classification_metrics) + REGRESSION, "metric")
        if m.endswith("_samples"):
            raise core.Prune()
        metric = Metric(m)
        core.check(metric.name == m, f"{m} is called {metric.name}")
        want = (MetricType.CLASSIFICATION if m in classification_metrics
                else MetricType.REGRESSION)
        core.check(metric.task_type == want, f"{m} is for {metric.task_type}")
        again = Metric(sk.get_scorer(m))
        core.check(again.name == m, f"scorer of {m} becomes {again.name}")
        needs = m in ("neg_log_loss", *BINARY)
        core.check(bool(metric.requires_probabilities) == needs,
                   f"{m} needs probabilities: {metric.requires_probabilities}")
        rec.state(name, m)

    def scoring(ch, rec):
        kind = ch.pick(("str", "metric", "tuple", "list", "metrics", "mixed", "generator"),
                       "kind")
        names = ["accuracy", "neg_log_loss", "f1_macro", "recall_macro", "precision_micro",
                 "f1_weighted"][: 1 + ch.choose(6, "number")]
        given = dict(
            str=lambda: names[0], metric=lambda: Metric(names[0]),
            tuple=lambda: tuple(names), list=lambda: list(names),
            metrics=lambda: [Metric(n) for n in names],
            mixed=lambda: [Metric(names[0])] + names[1:],
            generator=lambda: dict.fromkeys(names),
        )[kind]()
        got = scoring_to_metric(given)
        want = names[:1] if kind in ("str", "metric") else names
        core.check(isinstance(got, tuple) and [m.name for m in got] == want,
                   f"{given} becomes {got}")
        rec.state(name, kind, len(names))

    def bad(ch, rec):
        given = ch.pick(("nonsense", 3, None, ["accuracy", 3], [None], sk.accuracy_score,
                         "adjusted_rand_score"), "scoring")
        try:
            scoring_to_metric(given)
        except (TypeError, ValueError, KeyError):
            rec.state(name, str(given))
            return
        raise core.Violation(f"{given!r} was accepted as metric")

    return dict(search=search, labels=labels, proba=proba, values=values, fitted=fitted, types=types,
                scoring=scoring, bad=bad)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
