"""C11: an ensemble is the greedy weighted selection of the best models, and predicts so."""
import itertools
import os
import pickle
import random
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from gama.postprocessing import EnsemblePostProcessing
from gama.postprocessing.ensemble import build_fit_ensemble
from gama.utilities.evaluation_library import Evaluation, EvaluationLibrary
from gama.utilities.metrics import Metric
from sklearn import metrics as sk

from mc import core, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one ensemble built by the real code from one library of evaluations; "
    "state = (library, settings, resulting weights)"
)
BOUNDS = {
    "quick": "1-3 models (12 for the large start, 115 for a crowd), 5 rows, all "
    "assignments of 6 prediction "
    "vectors, 5 metrics, ensemble sizes 1-26, all limits on models, all row samples of the "
    "library and of hill climbing, remaining time positive or not, two shapes of labels",
    "thorough": "as quick with 4 models and all prediction vectors of 8",
}
ASSUMPTIONS = [
    "the library holds a result of every row for each model (C12) and the best models (C10)",
    "where two additions score equally either may be chosen",
]
METRICS = ("accuracy", "neg_log_loss", "roc_auc", "neg_mean_squared_error", "r2")
EPS = 1e-9


class Stub:
    """A fitted model: for row i it answers i's entry in a table."""

    def __init__(self, labels, classes=None, proba=None):
        self.labels, self.classes, self.proba = labels, classes, proba

    def predict(self, x):
        return np.array([self.labels[int(r)] for r in x["row"]])

    def predict_proba(self, x):
        return np.array([self.proba[int(r)] for r in x["row"]])


def scenarios(tier):
    out = []
    most = 4 if tier == "thorough" else 3
    for metric in METRICS:
        for k in range(1, most + 1):
            labels_ = ("-",) if metric in ("neg_mean_squared_error", "r2") else ("01", "25")
            for labels in labels_:
                if labels == "25" and k != 2:
                    continue
                if tier == "quick" and k == 3 and metric in ("roc_auc", "r2"):
                    continue
                out.append(dict(name=f"select-{metric}-{k}-{labels}", op="select",
                                metric=metric, k=k, labels=labels))
        out.append(dict(name=f"rows-{metric}", op="rows", metric=metric, labels="01"))
        if tier != "quick" or metric != "roc_auc":
            out.append(dict(name=f"large-{metric}", op="large", metric=metric, labels="01"))
        if metric in ("accuracy", "neg_log_loss", "neg_mean_squared_error"):
            for hill in (None, 90):
                out.append(dict(name=f"crowd-{metric}-{hill}", op="crowd", metric=metric,
                                hill=hill, labels="01"))
    return sorted(out, key=lambda q: -q.get("k", 4))


def individuals(n):
    config = spaces.spaces()["mixed"]
    pset, _ = pset_from_config(config)
    texts = [spaces.to_string(q, config) for q in spaces.all_pipelines(config, 2)][:n]
    return [Individual.from_string(t, pset, compile_individual) for t in texts]


def body(name, p, tier):
    metric_name = p["metric"]
    regression = metric_name in ("neg_mean_squared_error", "r2")
    proba = metric_name in ("neg_log_loss", "roc_auc")
    classes = [2, 5] if p["labels"] == "25" else [0, 1]
    ROWS = 5
    bits = [1, 0, 1, 1, 0]
    vectors = [(1, 0, 1, 1, 0), (1, 1, 1, 0, 0), (0, 0, 1, 0, 1), (1, 1, 1, 1, 1),
               (0, 0, 0, 0, 0), (1, 0, 0, 1, 0), (0, 1, 0, 0, 1), (0, 1, 1, 1, 0)]
    vectors = vectors[:8 if tier == "thorough" else 6]
    inds = individuals(14)

    def truth(rows=ROWS):
        b = [bits[i % 5] for i in range(rows)]
        if regression:
            return [3.0 * v + 0.25 * i for i, v in enumerate(b)]
        return [classes[v] for v in b]

    def predictions(j, vec, rows=ROWS):
        """What model j predicts out-of-fold for every training row."""
        b = [vec[i % 5] for i in range(rows)]
        if regression:
            return np.array([3.0 * v + 0.25 * i + 0.1 * j for i, v in enumerate(b)])
        if proba:
            hi = 0.9 - 0.1 * j
            return np.array([[1 - hi, hi] if v else [hi, 1 - hi] for v in b])
        return np.array([float(classes[v]) for v in b])

    def models(j, k):
        """Two fold models: of model j, both answer 'class 1' (or one) for row j, only
        the first does for row k + j, only the second for row 2k + j."""
        out = []
        for fold in (1, 2):
            hit = [r in (j, fold * k + j) for r in range(3 * k)]
            if regression:
                out.append(Stub([float(h) for h in hit]))
            else:
                out.append(Stub([classes[int(h)] for h in hit], classes,
                                [[float(not h), float(h)] for h in hit]))
        return out

    def score_of(j, step=0.1):
        """Scores as the metric may have them: positive, negative or around zero."""
        top = dict(neg_log_loss=-0.1, neg_mean_squared_error=-0.5, r2=step)
        return top.get(metric_name, 0.9) - step * j

    def score_range(y, avg):
        """The least and largest score this average can get, ties rounded either way."""
        if regression:
            s = (-sk.mean_squared_error(y, avg) if metric_name != "r2"
                 else sk.r2_score(y, avg))
            return s, s
        onehot = np.array([[float(v == c) for c in classes] for v in y])
        if metric_name == "neg_log_loss":
            s = -sk.log_loss(onehot, avg)
            return s, s
        if metric_name == "roc_auc":
            s = sk.roc_auc_score(onehot, avg)
            # near-equal averages may be ordered either way by rounding
            noise = [sk.roc_auc_score(onehot, avg + d * np.array([[1.0, -1.0]]) * w)
                     for d in (1e-12, -1e-12) for w in tie_directions(y)]
            return min([s] + noise), max([s] + noise)
        lo = hi = 0
        for row, v in zip(avg, onehot):
            best = row.max()
            cand = [c for c in range(2) if row[c] >= best - EPS]
            hits = [v[c] for c in cand]
            lo += min(hits)
            hi += max(hits)
        return lo / len(y), hi / len(y)

    def tie_directions(y):
        t = np.array([1.0 if v == classes[1] else -1.0 for v in y]).reshape(-1, 1)
        return (t, -t)

    def as_average(pred):
        if regression or proba:
            return pred
        return np.array([[float(v == c) for c in classes] for v in pred])

    memo = {}

    def possible(y, preds, size):
        """All weight vectors greedy selection may end with (ties either way)."""
        key = tuple(map(float, y)), tuple(q.tobytes() for q in preds), size
        if key not in memo:
            memo[key] = greedy(y, preds, size)
        return memo[key]

    ranges_of = {}

    def cached_range(y, preds, v):
        g = np.gcd.reduce(v)
        key = (tuple(map(float, y)), tuple(q.tobytes() for q in preds),
               tuple(int(c) // int(g) for c in v))
        if key not in ranges_of:
            avg = sum(c * q for c, q in zip(v, preds)) / sum(v)
            ranges_of[key] = score_range(y, avg)
        return ranges_of[key]

    def greedy(y, preds, size):
        k = len(preds)
        first = 1 if size <= 10 else min(10, k)
        now = {tuple([1] * first + [0] * (k - first))}
        for _ in range(size - first):
            nxt = set()
            for w in now:
                ranges = []
                for j in range(k):
                    v = list(w)
                    v[j] += 1
                    ranges.append((cached_range(y, preds, v), tuple(v)))
                best = max(r[0][0] for r in ranges)
                nxt |= {v for (lo, hi), v in ranges if hi >= best - EPS}
            now = nxt
        return now

    def weights_of(ensemble, k):
        """The weights, read off the predictions the ensemble makes."""
        x = pd.DataFrame({"row": range(3 * k)})
        if regression:
            share = ensemble.predict(x)
        else:
            pr = ensemble.predict_proba(x)
            core.check(pr.shape == (3 * k, len(classes)) and np.allclose(pr.sum(axis=1), 1),
                       f"probabilities {pr}")
            share = pr[:, 1]
            want = [classes[int(s > 0.5)] for s in share]
            got = ensemble.predict(x)
            core.check(all(abs(s - 0.5) < EPS or a == b
                           for s, a, b in zip(share, got, want)),
                       f"predicts {got} where the weighted vote is {share}")
        share = np.array(share)
        for fold in (1, 2):
            core.check(np.allclose(2 * share[fold * k:(fold + 1) * k], share[:k]),
                       f"the models of fold {fold} count for "
                       f"{share[fold * k:(fold + 1) * k]} of {share[:k]}, not for half")
        return share[:k]

    def build(entries, n_lib, m_lib, size, timeout, hillclimb, max_models, y, k, wrap=None):
        cache = tempfile.mkdtemp(dir=os.getcwd())
        try:
            library = EvaluationLibrary(m=m_lib, n=n_lib, cache=os.path.join(cache, "c"))
            if n_lib is not None:
                library.determine_sample_indices(prediction_size=len(y))
            order = entries[1:] + entries[:1]
            for j, score, pred in order:
                library.save_evaluation(Evaluation(inds[j], pred.copy(), (score, -1),
                                                   models(j, k)))
            library.save_evaluation(Evaluation(inds[13], None, (float("-inf"), -1), None,
                                               error="x"))
            metric = Metric(metric_name)
            original = metric.score
            if wrap:
                metric.score = wrap(original)
            ensemble = build_fit_ensemble(
                pd.DataFrame({"row": range(len(y))}), y, size, timeout, metric, library,
                hillclimb_size=hillclimb, max_models=max_models,
            )
            metric.score = original
            text = str(ensemble)
            share = weights_of(ensemble, k)
            again = pickle.loads(pickle.dumps(ensemble))
            core.check(np.allclose(weights_of(again, k), share),
                       "a pickled ensemble predicts something else")
            again = pickle.loads(pickle.dumps(again))
        finally:
            shutil.rmtree(cache)
        core.check(np.allclose(weights_of(ensemble, k), share)
                   and np.allclose(weights_of(again, k), share),
                   "the ensemble can not be used without its cache")
        return share, text

    def select(ch, rec):
        k = p["k"]
        vecs = [ch.pick(vectors, f"model {j}") for j in range(k)]
        sizes = {1: (1, 4, 11, 26), 2: (1, 2, 3, 5)}.get(k, (3, 6))
        tops = [None] + list(range(1, k + 1)) if k < 3 else [None, 2]
        size, top = ch.pick(sizes, "size"), ch.pick(tops, "models considered")
        timeout, pos = 30.0, "default"
        if k == 1:
            timeout = ch.pick((30.0, -1.0, 0.0), "time left", dev=True)
            pos = ch.pick(("default", "shifted"), "row index", dev=True)
        index = range(ROWS) if pos == "default" else range(40, 40 + ROWS)
        y = pd.Series(truth(), index=index)
        preds = [predictions(j, v) for j, v in enumerate(vecs)]
        entries = [(j, score_of(j), q) for j, q in enumerate(preds)]
        share, text = build(entries, None, top, size, timeout, None, top, y, k)
        used = preds if top is None else preds[:top]
        allowed = possible(list(y), [as_average(q) for q in used], size)
        wants = [np.array(list(w) + [0] * (k - len(w))) / sum(w) for w in allowed]
        core.check(any(np.allclose(share, w) for w in wants),
                   f"predictions {vecs}, size {size}, at most {top} models: weights are "
                   f"{share * size}, expected one of {sorted(allowed)}")
        for j, s in enumerate(share):
            core.check((inds[j].short_name() in text) or s == 0,
                       f"a model is missing in {text}")
        rec.state(name, vecs, size, top, [round(s, 6) for s in share])
        rec.sample(dict(vectors=vecs, size=size, weights=[float(s) for s in share]))

    def rows(ch, rec):
        """Predictions and labels used for hill climbing belong to the same rows."""
        total = 8
        n_lib = ch.pick((None, 4, 6, 8, 50), "rows in library")
        hill = ch.pick((None, 2, 4, 50), "rows for hill climbing")
        seed = ch.pick(range(4 if tier == "thorough" else 2), "seed")
        index = ch.pick(("default", "shifted"), "row index")
        random.seed(seed)
        np.random.seed(seed)
        vecs = [vectors[0], vectors[1], vectors[2]]
        index = range(total) if index == "default" else range(40, 40 + total)
        y = pd.Series(truth(total), index=index)
        preds = [predictions(j, v, total) for j, v in enumerate(vecs)]
        entries = [(j, score_of(j), q) for j, q in enumerate(preds)]
        seen = []
        if metric_name == "roc_auc" and 2 in (n_lib, hill):
            raise core.Prune()  # all rows may be of one class, for which it is undefined

        def wrap(score):
            def scored(y_true, y_pred, *a, **k):
                seen.append((np.array(y_true), np.array(y_pred)))
                return score(y_true, y_pred, *a, **k)

            return scored

        share, _ = build(entries, n_lib, 3, 3, 30.0, hill, 3, y, 3, wrap)
        core.check(seen, "the ensemble was never scored")
        n = total
        for limit in (n_lib, hill):
            n = n if limit is None else min(n, limit)
        full = [as_average(q) for q in preds]
        # which rows are in use: all rows whose labels and predictions fit
        options = []
        for pick in itertools.combinations(range(total), n):
            pick = list(pick)
            target = np.array(truth(total))[pick]
            options.append((pick, target))
        y0, p0 = seen[0]
        core.check(len(y0) == n, f"{len(y0)} rows are used, not {n} "
                   f"(library {n_lib}, hill climbing {hill})")
        if regression:
            # labels identify the rows
            lookup = {round(v, 6): i for i, v in enumerate(truth(total))}
            used = [lookup[round(float(v), 6)] for v in np.ravel(y0)]
            core.check(len(set(used)) == n, "a row is used twice")
            allowed = possible([truth(total)[i] for i in used], [q[used] for q in full], 3)
            core.check(np.allclose(p0, full[0][used]),
                       "labels and predictions of different rows are compared")
        else:
            allowed = set()
            for pick, target in options:
                if metric_name == "roc_auc" and len(set(target)) < 2:
                    continue
                allowed |= possible(list(target), [q[pick] for q in full], 3)
        core.check(any(np.allclose(share, np.array(w) / sum(w)) for w in allowed),
                   f"weights {share * 3} with {n} rows are not a greedy selection")
        rec.state(name, n_lib, hill, seed, [round(s, 6) for s in share])

    def large(ch, rec):
        """Above size ten the ten best models are the start."""
        k = ch.pick((1, 3, 9, 10, 12), "models")
        size = ch.pick((10, 11, 12, 14), "size")
        flip = ch.pick(range(6), "pattern")
        vecs = [vectors[(j + flip) % len(vectors)] for j in range(k)]
        y = pd.Series(truth())
        preds = [predictions(j % 4, v) for j, v in enumerate(vecs)]
        tied = size > 10 and ch.flag("the ten best score the same")
        entries = [(j, score_of(j if j > 9 or not tied else 0, 0.05), q)
                   for j, q in enumerate(preds)]
        share, _ = build(entries, None, 200, size, 30.0, 10_000, 200, y, k)
        core.check(abs(sum(share) - 1) < EPS, f"weights {share} do not add up")
        w = share * max(size, 1)
        core.check(np.allclose(w, np.round(w)), f"weights {w} are not whole")
        w = np.round(w)
        if size > 10:
            core.check(all(w[:10] >= 1), f"one of the ten best is missing: {w}")
            extra = w.copy()
            extra[:10] -= 1
            core.check(extra.sum() == size - min(10, k), f"weights {w} for size {size}")
        else:
            core.check(w[0] >= 1, f"the best model is missing: {w}")
        if size - min(10, k) <= 2 and size > 10 or k <= 3:
            allowed = possible(list(y), [as_average(q) for q in preds], size)
            core.check(tuple(int(v) for v in w) in allowed, f"weights {w} not greedy")
        rec.state(name, k, size, flip, list(w))

    def crowd(ch, rec):
        """Many models which each are wrong somewhere else: together they are best."""
        k, size, rows = 115, 62, 115
        while len(inds) < k + 14:
            inds.append(inds[len(inds) % 14].copy_as_new())
        random.seed(1)
        y = pd.Series(truth(rows))
        entries = []
        for j in range(k):
            wrong = [int(i == j) ^ bits[i % 5] for i in range(rows)]
            if regression:
                pred = np.array([3.0 * v + 0.25 * i for i, v in enumerate(wrong)])
            elif proba:
                pred = np.array([[0.2, 0.8] if v else [0.8, 0.2] for v in wrong])
            else:
                pred = np.array([float(classes[v]) for v in wrong])
            entries.append((j if j != 13 else k, score_of(j, 0.001), pred))
        # index 13 is the one that failed
        share, _ = build(entries, None, 200, size, 30.0, p["hill"], 200, y, k + 1)
        w = share * size
        core.check(np.allclose(w, np.round(w)) and abs(w.sum() - size) < 1e-6,
                   f"weights {w} for an ensemble of {size}")
        core.check(all(w[:10] >= 1 - EPS), f"one of the ten best is missing: {w}")
        if p["hill"] is None and metric_name != "accuracy":
            core.check(w.max() < 1.5, f"a model is repeated where a new one is better: {w}")
        rec.state(name, list(np.round(w)))

    return dict(select=select, rows=rows, large=large, crowd=crowd)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=1)
