"""C13: fit and predict speak the language of the user's data."""
import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import EnsemblePostProcessing
from gama.search_methods import RandomSearch
from sklearn import metrics as sk
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one real fit (evaluations run inline) and the predictions of the "
    "model; state = (shape of the data, labels, metric, kind of model)"
)
BOUNDS = {
    "quick": "every pair (for the main metrics) of: 5 input types, 4 target types, 8 kinds of labels, 7 kinds of "
    "columns, unlabeled rows, 5 (3) kinds of earlier fits, 2-4 metrics, 2 kinds of model; 24 rows, one or two "
    "hyperparameter settings of a decision tree",
    "thorough": "every triple of these",
}
ASSUMPTIONS = ["feature columns of DataFrames are numeric or have category dtype (documented)"]

INPUTS = ("frame", "array", "intnames", "shifted", "duplicate")
TARGETS = ("series", "array", "column", "frame")
LABELS = ("01", "25", "neg", "three", "str", "cat", "bool", "digits")
COLUMNS = ("plain", "nan", "cat3", "cat12", "ints", "constant", "binary")
N = 24
# columns, labels and container of a fit before the one that is judged
EARLIER = (("plain", "01", "frame"), ("plain", "three", "frame"), ("cat3", "str", "frame"),
           ("cat12", "25", "array"), ("ints", "cat", "frame"))
REG_EARLIER = (("plain", "-", "frame"), ("cat12", "-", "frame"), ("ints", "-", "array"))


def scenarios(tier):
    out = []
    for pp in ("best", "ensemble"):
        for metric in ("accuracy", "neg_log_loss", "f1_macro", "roc_auc", "average_precision",
                       "accuracy+neg_log_loss", "neg_log_loss+accuracy"):
            for inp in INPUTS:
                out.append(dict(name=f"clf-{pp}-{metric}-{inp}", pp=pp, metric=metric,
                                inp=inp))
        for metric in ("neg_mean_squared_error", "r2"):
            for inp in INPUTS:
                out.append(dict(name=f"reg-{pp}-{metric}-{inp}", pp=pp, metric=metric,
                                inp=inp))
    out = [q for q in out if q["inp"] in ("frame", "array")
           or "+" not in q["metric"] and q["metric"] != "average_precision"]
    return sorted(out, key=lambda q: q["inp"] != "frame")


def features(kind):
    x = pd.DataFrame({
        "u": [float((i * 7) % N) + 0.25 for i in range(N)],  # tells all rows apart
        "v": [float((i * 5) % 9) / 2 for i in range(N)],
    })
    if kind == "nan":
        x.loc[[1, 7, 11], "v"] = np.nan
    elif kind == "cat3":
        x["c"] = pd.Categorical(["abc"[i % 3] for i in range(N)])
    elif kind == "cat12":
        x["c"] = pd.Categorical([f"k{i % 12}" for i in range(N)])
    elif kind == "ints":
        x["c"] = [float(i % 4) for i in range(N)]
    elif kind == "constant":
        x["c"] = [1.5] * N
    elif kind == "binary":
        x["c"] = pd.Categorical(["xy"[i % 2] for i in range(N)])
    return x


def labels(kind):
    two = [int((i * 7) % 5 > 1) for i in range(N)]
    if kind == "01":
        return pd.Series(two)
    if kind == "25":
        return pd.Series([(2, 5)[v] for v in two])
    if kind == "neg":
        return pd.Series([(1, -1)[v] for v in two])
    if kind == "three":
        return pd.Series([(i * 5) % 3 for i in range(N)])
    if kind == "str":
        return pd.Series([("no", "yes")[v] for v in two])
    if kind == "digits":
        return pd.Series([("1", "0")[v] for v in two])
    if kind == "cat":
        return pd.Series(pd.Categorical([("b", "a")[v] for v in two],
                                        categories=["b", "a"]))
    return pd.Series([bool(v) for v in two])


def as_input(x, inp, kind):
    if inp == "array":
        if kind in ("cat3", "cat12", "binary"):
            return x.astype(object).to_numpy()
        return x.to_numpy()
    if inp == "intnames":
        return x.set_axis(range(x.shape[1]), axis=1)
    if inp == "shifted":
        return x.set_axis(range(1000, 1000 + len(x)), axis=0)
    if inp == "duplicate":
        return x.set_axis([3] * len(x), axis=0)
    return x.copy()


def body(name, p, tier):
    reg = name.startswith("reg")

    def one(ch, rec):
        cols = ch.pick(COLUMNS, "columns", dev=True)
        target = ch.pick(TARGETS, "target type", dev=True)
        options = ("float",) if reg else LABELS
        if p["metric"] == "roc_auc":  # binary only
            options = tuple(o for o in LABELS if o != "three")
        if p["metric"] == "average_precision":  # these have a positive label
            options = ("01", "str", "cat", "bool", "digits")
        lab = ch.pick(options, "labels", dev=True)
        missing = ch.flag("unlabeled rows", dev=True)
        index_y = ch.flag("other row labels in y", dev=True)
        earlier = None
        if p["inp"] in ("frame", "array"):
            earlier = ch.pick((None,) + tuple(REG_EARLIER if reg else EARLIER),
                              "earlier fit", dev=True)
        binary = p["metric"] in ("roc_auc", "average_precision")
        if earlier and binary and earlier[1] in ("three", "25"):
            raise core.Prune()
        if missing and lab == "bool":
            raise core.Prune()  # objects; scikit-learn only takes str as such
        x = features(cols)
        y = pd.Series([float((i * 5) % 11) / 2 for i in range(N)]) if reg else labels(lab)
        given_y = y.copy()
        labeled = np.ones(N, bool)
        if missing:
            labeled[[2, 9]] = False
            given_y = given_y.astype(object) if lab in ("str", "bool", "digits") else given_y
            given_y = given_y.astype(float) if lab in ("01", "25", "neg", "three") else given_y
            given_y.iloc[[2, 9]] = None if lab in ("str", "digits", "bool") else np.nan
            if lab in ("01", "25", "neg", "three"):
                y = y.astype(float)
        if index_y:
            given_y.index = range(500, 500 + N)
        given_x = as_input(x, p["inp"], cols)
        if target == "array":
            given_y = given_y.to_numpy()
        elif target == "column":
            given_y = given_y.to_numpy().reshape(-1, 1)
        elif target == "frame":
            given_y = given_y.to_frame()
        keep_x = given_x.copy()
        keep_y = given_y.copy()
        config = ({DecisionTreeRegressor: {"criterion": ["squared_error"]}} if reg else
                  {DecisionTreeClassifier: {"criterion": ["gini", "entropy"]}})
        pp = EnsemblePostProcessing(ensemble_size=2) if p["pp"] == "ensemble" else None
        scoring = p["metric"]
        if "+" in scoring:  # the first one is the one that scores the model
            scoring = tuple(scoring.split("+"))
        with e2e.session(5):
            g = spaces.new_gama(config, GamaRegressor if reg else GamaClassifier,
                                search=RandomSearch(), scoring=scoring,
                                post_processing=pp)
            if earlier:  # the instance was used before, for other data
                was_x = as_input(features(earlier[0]), earlier[2], earlier[0])
                was_y = (pd.Series([float(i % 7) for i in range(N)]) if reg
                         else labels(earlier[1]))
                e2e.fit(g, ch, was_x, was_y, limit=2, order_dev=False)
                g.predict(was_x)
            result, _ = e2e.fit(g, ch, given_x, given_y, limit=2, order_dev=False)
            core.check(result is g, "fit does not return the instance")
            core.check(same(given_x, keep_x) and same(given_y, keep_y),
                       "fit changed the data it was given")
            pred = g.predict(given_x)
            core.check(isinstance(pred, np.ndarray) and pred.shape == (N,),
                       f"predictions have shape {getattr(pred, 'shape', None)}")
            core.check(same(given_x, keep_x), "predict changed the data it was given")
            truth = list(y)
            exact = p["pp"] == "best"  # a full tree, trained on all labeled rows
            if reg:
                if exact:
                    core.check(np.allclose(pred[labeled], np.array(truth)[labeled]),
                               "the model was not trained on the rows and labels given")
            else:
                known = [v for v, k in zip(truth, labeled) if k]
                core.check(all(any(q == v and isinstance(q, str) == isinstance(v, str)
                                   for v in known) for q in pred),
                           f"predicts {set(pred)}, the labels are {set(known)}")
                if exact:
                    core.check(all(a == b for a, b, k in zip(pred, truth, labeled) if k),
                               "the model was not trained on the rows and labels given")
                proba = g.predict_proba(given_x)
                classes = sorted(set(known))
                core.check(proba.shape == (N, len(classes)),
                           f"probabilities have shape {proba.shape}")
                core.check(np.allclose(proba.sum(axis=1), 1) and (proba >= 0).all(),
                           "probabilities do not add up to one")
                for row, q in zip(proba, pred):
                    if (row == row.max()).sum() == 1:
                        core.check(classes[int(row.argmax())] == q,
                                   "labels and probabilities disagree")
            # other containers with the same contents, and parts of the data
            core.check(list(g.predict(given_x[:1])) == list(pred[:1]),
                       "a single row is predicted differently")
            core.check(list(g.predict(given_x[5:17])) == list(pred[5:17]),
                       "part of the rows is predicted differently")
            if p["inp"] == "array":
                frame = pd.DataFrame(given_x, columns=[str(i) for i in range(x.shape[1])])
                if cols not in ("cat3", "cat12", "binary", "ints"):
                    core.check(list(g.predict(frame.astype(float))) == list(pred),
                               "a frame with the same values is predicted differently")
            odd = keep_x.copy() if p["inp"] != "array" else keep_x.copy()
            if p["inp"] == "array":
                odd[0, -1] = np.nan
            elif cols not in ("cat3", "cat12", "binary"):
                odd.iloc[0, -1] = np.nan
            else:
                odd[odd.columns[-1]] = pd.Categorical(
                    ["new"] + list(odd[odd.columns[-1]])[1:])
            after = g.predict(odd)
            core.check(len(after) == N, "can not predict unseen or missing values")
            score = g.score(keep_x[labeled], keep_y[labeled])
            core.check(abs(score - oracle(p["metric"], np.array(truth, object)[labeled],
                                          pred[labeled],
                                          None if reg else proba[labeled])) < 1e-9,
                       f"score is {score}")
        rec.state(name, cols, target, lab, missing, index_y, earlier)
        rec.sample(dict(columns=cols, target=target, labels=lab, unlabeled=missing))

    def oracle(metric, truth, pred, proba):
        metric = metric.split("+")[0]
        if reg:
            truth = truth.astype(float)
            return (sk.mean_squared_error(truth, pred) if metric != "r2"
                    else sk.r2_score(truth, pred))
        names = sorted(set(truth))
        t = np.array([names.index(v) for v in truth])
        if metric == "accuracy":
            return np.mean([a == b for a, b in zip(truth, pred)])
        if metric == "f1_macro":
            return sk.f1_score(t, [names.index(v) for v in pred], average="macro")
        if metric == "neg_log_loss":
            return sk.log_loss(t, proba, labels=range(len(names)))
        if metric == "average_precision":
            return sk.average_precision_score(t, proba[:, 1])
        return sk.roc_auc_score(t, proba[:, 1])

    return one


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(
            u is v or u == v or (u != u and v != v)
            for u, v in zip(a.ravel().tolist(), b.ravel().tolist()))
    if not (a.index.equals(b.index) and a.equals(b)):
        return False
    return not isinstance(a, pd.DataFrame) or list(a.columns) == list(b.columns)


def run(name, p, rec, tier):
    main = p["metric"] in ("accuracy", "neg_log_loss", "neg_mean_squared_error")
    bound = 3 if tier == "thorough" else 2 if main and p["inp"] == "frame" else 1
    core.explore(body(name, p, tier), rec, bound=bound)
