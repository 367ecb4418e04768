"""C10: the library of evaluations keeps the best, exactly, in memory and on disk."""
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from gama.utilities.evaluation_library import Evaluation, EvaluationLibrary

from mc import core, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one history of saved evaluations on a real library with a real cache "
    "directory, checked after every step; state = (settings, scores kept, files)"
)
BOUNDS = {
    "quick": "all histories of 4 operations over 8 kinds (three scores, ties, two "
    "objectives, failures, no predictions, a second evaluation of an individual, a new fit) "
    "for m in {all,0,1,2,3} and n in {all,0,2,10000,explicit sample}; all class "
    "distributions of up to 8 rows for stratified samples; 290 evaluations in two fits for "
    "m in {all,0,1,60,120,200} and four patterns of scores",
    "thorough": "as quick with histories of 5 operations",
}
ASSUMPTIONS = ["the cache directory is only written by this library"]

SIZE = 6
KINDS = ("low", "mid", "high", "mid2", "error", "nopred", "again", "newfit")


def scenarios(tier):
    out = []
    for m in (None, 0, 1, 2, 3):
        for n in (None, 0, 2, 10_000, "sample"):
            out.append(dict(name=f"history-m{m}-n{n}", op="history", m=m, n=n))
    for m in (None, 0, 1, 60, 120, 200):
        for n in (None, 2):
            out.append(dict(name=f"many-m{m}-n{n}", op="many", m=m, n=n))
    for n in (1, 2, 3, 5):
        out.append(dict(name=f"sample-uniform-{n}", op="uniform", n=n))
        out.append(dict(name=f"sample-stratify-{n}", op="stratify", n=n))
    return out


def pool():
    config = spaces.spaces()["pre2"]
    pset, _ = pset_from_config(config)
    texts = [spaces.to_string(p, config) for p in spaces.all_pipelines(config, 3)]
    return [Individual.from_string(t, pset, compile_individual) for t in texts]


def body(name, p, tier):
    depth = 5 if tier == "thorough" else 4
    individuals = pool()
    SCORE = dict(low=(0.1, -2), mid=(0.5, -3), high=(0.9, -3), mid2=(0.5, -1),
                 nopred=(0.7, -1), again=(0.6, -2))

    def history(ch, rec):
        cache = tempfile.mkdtemp(dir=os.getcwd())
        n = p["n"]
        random.seed(3)
        np.random.seed(3)
        try:
            if n == "sample":
                library = EvaluationLibrary(m=p["m"], n=None, sample=np.array([4, 1]),
                                            cache=os.path.join(cache, "c"))
            else:
                library = EvaluationLibrary(m=p["m"], n=n, cache=os.path.join(cache, "c"))
            saved = []  # (evaluation, kind, given estimators, given predictions)
            live = []   # those since the last new fit
            text = []
            for step in range(depth):
                kind = ch.pick(KINDS, "operation")
                text.append(kind)
                if kind == "newfit":
                    library.discard_models()
                    live = []
                else:
                    ind = individuals[0 if kind == "again" else step]
                    est = [f"estimator-{step}", {"fold": step}]
                    pred = np.arange(SIZE) * 10.0 + step
                    error = "RuntimeError no" if kind == "error" else None
                    score = (float("-inf"), -1) if kind == "error" else SCORE[kind]
                    e = Evaluation(
                        ind, None if kind == "nopred" else pred.copy(), score, list(est),
                        duration=step + 0.5, error=error, pid=40 + step,
                    )
                    library.save_evaluation(e)
                    entry = (e, kind, est, None if kind == "nopred" else pred, score,
                             error, step)
                    saved.append(entry)
                    if error is None:
                        live.append(entry)
                    core.check(library.lookup.get(str(ind.main_node)) is e,
                               "the latest evaluation of a pipeline can not be looked up")
                verify(library, saved, live, os.path.join(cache, "c"), text)
            rec.state(name, sorted(e[4] for e in live), len(saved))
            rec.sample(text)
        finally:
            shutil.rmtree(cache)

    def many(ch, rec):
        """A long fit, and the one after it: as many models as a user may have."""
        total, rest = 260, 30
        pattern = ch.pick(("rising", "falling", "waves", "equal"), "scores")
        fails = ch.pick((0, 7), "every so many fail")
        cache = tempfile.mkdtemp(dir=os.getcwd())
        np.random.seed(3)
        try:
            library = EvaluationLibrary(m=p["m"], n=p["n"], cache=os.path.join(cache, "c"))
            saved, live = [], []
            for step in range(total + rest):
                if step == total:
                    library.discard_models()
                    live = []
                    verify(library, saved, live, os.path.join(cache, "c"),
                           f"{total} evaluations and a new fit")
                value = dict(rising=step, falling=-step, waves=(step * 37) % 101,
                             equal=1)[pattern]
                error = "ValueError no" if fails and step % fails == 3 else None
                score = (float("-inf"), -1) if error else (float(value), -2)
                ind = individuals[step % len(individuals)].copy_as_new()
                est = [f"estimator-{step}"]
                pred = np.arange(SIZE) * 1000.0 + step
                e = Evaluation(ind, pred.copy(), score, list(est), duration=step + 0.5,
                               error=error, pid=40 + step)
                library.save_evaluation(e)
                entry = (e, "ok", est, pred, score, error, step)
                saved.append(entry)
                if error is None:
                    live.append(entry)
                if step in (50, 130, total - 1, total + rest - 1):
                    verify(library, saved, live, os.path.join(cache, "c"),
                           f"{step + 1} evaluations")
            rec.state(name, pattern, fails, len(live))
            rec.sample(dict(pattern=pattern, evaluations=total + rest))
        finally:
            shutil.rmtree(cache)

    def verify(library, saved, live, cache, text):
        m = p["m"]
        latest = {str(s[0].individual.main_node): s[0] for s in saved}
        core.check(sorted(library.lookup) == sorted(latest) and all(
            library.lookup[k] is e for k, e in latest.items()),
            f"after {text}: not every evaluated pipeline can be looked up")
        core.check(sorted(map(id, library.evaluations)) == sorted(id(s[0]) for s in saved),
                   f"after {text}: the library holds other evaluations than were saved")
        for e, kind, _, _, score, error, step in saved:
            core.check(e.score == score and e.error == error and e.duration == step + 0.5
                       and e.pid == 40 + step, f"after {text}: an evaluation was changed")
        keep = len(live) if m is None else min(m, len(live))
        best = sorted((s[4] for s in live), reverse=True)[:keep]
        top = library.n_best(1000)
        core.check([e.score for e in top] == best,
                   f"after {text}: best are {[e.score for e in top]}, not {best}")
        core.check(all(any(e is s[0] for s in live) for e in top),
                   f"after {text}: an evaluation of an earlier fit or a failure is kept")
        core.check(sorted(e.score for e in library.top_evaluations) == sorted(best),
                   f"after {text}: top evaluations are not the best")
        for k in (1, 2):
            core.check([e.score for e in library.n_best(k)] == best[:k],
                       f"after {text}: the best {k} are wrong")
        every = sorted((s[4] for s in saved), reverse=True)
        if m is not None and m < len(every):
            got = [e.score for e in library.n_best(len(every), with_pipelines=False)]
            core.check(got == every, f"after {text}: all, best first, is {got}")
        for e, kind, est, pred, *_ in saved:
            kept = any(e is t for t in top)
            if not kept:
                core.check(not e.estimators and e.predictions is None,
                           f"after {text}: models or predictions of a discarded "
                           "evaluation are kept")
                continue
            core.check(e.estimators == est, f"after {text}: estimators of a top "
                       f"evaluation are {e.estimators}, not {est}")
            if pred is None or p["n"] == 0:
                core.check(e.predictions is None, f"after {text}: unexpected predictions")
                continue
            got = e.predictions
            core.check(got is not None, f"after {text}: predictions are lost")
            if p["n"] == "sample":
                want = pred[[4, 1]]
                core.check(list(got) == list(want), f"after {text}: {got} not {want}")
            elif p["n"] == 2:
                core.check(len(got) == 2 and len(set(got)) == 2
                           and set(got) <= set(pred),
                           f"after {text}: predictions {got} are no sample")
            else:
                core.check(list(got) == list(pred), f"after {text}: predictions changed")
        if p["n"] == 2:  # the same rows for all
            step_of = {id(s[0]): s[6] for s in saved}
            rows = {tuple(t.predictions - step_of[id(t)])
                    for t in top if t.predictions is not None}
            core.check(len(rows) <= 1, f"after {text}: sampled rows differ: {rows}")
        files = os.listdir(cache)
        core.check(len(files) == len(top),
                   f"after {text}: {len(files)} cache files for {len(top)} models")

    def uniform(ch, rec):
        size = ch.pick((1, 2, 3, 5, 8), "rows")
        seed = ch.pick(range(6), "seed")
        np.random.seed(seed)
        cache = tempfile.mkdtemp(dir=os.getcwd())
        library = EvaluationLibrary(m=5, n=p["n"], cache=os.path.join(cache, "c"))
        library.determine_sample_indices(prediction_size=size)
        check_sample(library, size, None)
        rec.state(name, size, seed)
        shutil.rmtree(cache)

    def stratify(ch, rec):
        a = ch.pick(range(2, 5), "first class")
        b = ch.pick(range(2, 5), "second class")
        kind = ch.pick(("series", "array", "frame", "index"), "type")
        y = np.array([0] * a + [1] * b)
        if p["n"] < 2 or a + b - p["n"] < 2:  # sklearn can not stratify
            raise core.Prune()
        given = dict(series=pd.Series(y), array=y, frame=pd.DataFrame(y),
                     index=pd.Series(y, index=range(50, 50 + a + b)))[kind]
        np.random.seed(ch.pick(range(3), "seed"))
        cache = tempfile.mkdtemp(dir=os.getcwd())
        library = EvaluationLibrary(m=5, n=p["n"], cache=os.path.join(cache, "c"))
        library.determine_sample_indices(stratify=given)
        check_sample(library, a + b, y)
        rec.state(name, a, b, kind)
        shutil.rmtree(cache)

    def check_sample(library, size, y):
        got = []
        for k in range(3):
            pred = np.arange(size) * 1.0
            e = Evaluation(individuals[k], pred, (k,), ["m"])
            library.save_evaluation(e)
            got.append([int(v) for v in e.predictions])
        core.check(got[0] == got[1] == got[2], "sampled rows differ between evaluations")
        n = min(p["n"], size)
        core.check(len(got[0]) == n and len(set(got[0])) == n,
                   f"{len(set(got[0]))} of {size} rows sampled, not {n}")
        if p["n"] >= size:
            core.check(got[0] == list(range(size)), "rows were reordered")
        elif y is not None:
            for c in (0, 1):
                share = n * (y == c).mean()
                have = sum(1 for i in got[0] if y[i] == c)
                core.check(abs(have - share) <= 1, f"{have} rows of class {c}, not {share}")

    return dict(history=history, many=many, uniform=uniform, stratify=stratify)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
