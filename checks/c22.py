"""C22: instances used side by side in one process do not influence each other."""
import inspect
import logging
import os
import random
import shutil
import sys
import tempfile
import threading

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.linear_model import Ridge
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e

LEVEL = "model_checking"
RULE = (
    "one execution = two real instances used in one process in one order of their "
    "operations; state = (kinds of the instances, order of the operations)"
)
BOUNDS = {
    "quick": "all ordered pairs of 4 kinds of instance (task, labels, search, model, "
    "metric, workers, memory limit, storage all differ), all orders of construct, fit, fit "
    "on other data (or cleanup, for 4 pairs) of the first and construct, fit of the second",
    "thorough": "as quick with both third operations for all pairs, a second fit of the "
    "second instance, and three instances",
}
ASSUMPTIONS = [
    "instances are used one after another, not in several threads; search and "
    "post-processing objects are not shared; random numbers are seeded before every fit"
]
LIMIT = 5


def data(kind, other):
    n = 24 if not other else 18
    i = np.arange(n)
    x = pd.DataFrame({"a": (i * 7) % 5 + (1.0 if other else 0.0), "b": (i * 3) % 4 / 2.0})
    if kind == 0:
        y = pd.Series(np.where((i * 7) % 5 > 1, "yes", "no"))
        if other:
            y = y.replace({"yes": "aye"})
    elif kind == 1:
        x["c"] = (i * i) % 7 / 3
        y = pd.Series(x.a * 2 - x.b)
    elif kind == 2:
        y = pd.Series(3 * ((i * 7) % 5 % 3) + (1 if other else 0))
    else:
        x["k"] = pd.Categorical([["u", "v", "w"][j % 3] for j in i])
        y = pd.Series((i % 3 == 1).astype(int) + (5 if other else 0))
    return x, y


def construct(kind, out):
    common = dict(output_directory=out, max_total_time=300, verbosity=50)
    if kind == 0:
        return GamaClassifier(
            search_space={GaussianNB: {"var_smoothing": [1e-9, 0.1, 0.5]}, MinMaxScaler: {}},
            scoring="accuracy", n_jobs=1, store="logs", search=RandomSearch(),
            post_processing=BestFitPostProcessing(), **common)
    if kind == 1:
        return GamaRegressor(
            search_space={Ridge: {"alpha": [0.1, 1.0]}, StandardScaler: {},
                          DecisionTreeRegressor: {"max_depth": [1, 2]}},
            scoring="neg_mean_squared_error", n_jobs=2, store="all",
            search=AsyncEA(population_size=3), regularize_length=False,
            post_processing=EnsemblePostProcessing(ensemble_size=2), **common)
    if kind == 2:
        return GamaClassifier(
            search_space={DecisionTreeClassifier: {"max_depth": [1, 2, 3]}},
            scoring="neg_log_loss", n_jobs=3, store="models", max_memory_mb=30,
            search=AsynchronousSuccessiveHalving(minimum_resource=1.0, reduction_factor=2),
            post_processing=BestFitPostProcessing(), **common)
    return GamaClassifier(
        search_space={BernoulliNB: {"alpha": [0.1, 1.0]}, GaussianNB: {}, MinMaxScaler: {}},
        scoring=("f1_macro", "accuracy"), n_jobs=1, store="nothing",
        search=AsyncEA(population_size=3), max_eval_time=20,
        post_processing=EnsemblePostProcessing(ensemble_size=3), **common)


def scenarios(tier):
    out = []
    for a in range(4):
        for b in range(4):
            for third in ("fit2", "cleanup"):
                if tier == "quick" and third == "cleanup" and b != (a + 1) % 4:
                    continue
                out.append(dict(name=f"{a}-{b}-{third}", programs=[
                    (a, ("construct", "fit", third)),
                    (b, ("construct", "fit") + (("fit2",) if tier == "thorough" else ()))]))
    for kind in range(4):
        out.append(dict(name=f"many-{kind}", programs=[], kind=kind,
                        fits=400 if tier == "thorough" else 160))
    if tier == "thorough":
        for a in range(4):
            kinds = [a, (a + 1) % 4, (a + 2) % 4]
            out.append(dict(name=f"three-{a}", programs=[
                (k, ("construct", "fit")) for k in kinds]))
    return out


class Used:
    """One instance, and all that is seen of it."""

    def __init__(self, kind, number, root):
        self.kind, self.out = kind, os.path.join(root, f"out{number}")
        self.seen, self.fits, self.cleaned = [], [], False
        self.other = False

    def do(self, op):
        if op == "construct":
            self.g = construct(self.kind, self.out)
            self.g.evaluation_completed(lambda e: self.seen.append(
                (e.individual.pipeline_str(), tuple(round(float(s), 9) for s in e.score))))
        elif op == "cleanup":
            self.g.cleanup("all")
            self.cleaned = True
        else:
            self.other = op == "fit2"
            random.seed(self.kind * 10 + self.other)
            np.random.seed(self.kind * 10 + self.other)
            x, y = data(self.kind, self.other)
            env = e2e.fit(self.g, core.Chooser(), x, y, limit=LIMIT, order_dev=False)[1]
            self.fits.append((len(self.seen), len(env.workers), len(env.kills)))
            self.cleaned = False

    def observe(self):
        x, y = data(self.kind, self.other)
        g = self.g
        got = dict(
            evaluated=list(self.seen), fits=list(self.fits),
            predictions=[str(v) for v in g.predict(x)], score=round(float(g.score(x, y)), 9),
            script=sorted(g.export_script(file=None).splitlines()),
        )
        if self.kind != 1:
            got["probabilities"] = np.round(g.predict_proba(x), 9).tolist()
        files = []
        for folder, _, names in os.walk(self.out):
            for name in names:
                where = os.path.relpath(folder, self.out)
                files.append((where, name if where == "." else name.rsplit(".")[-1]))
        got["files"] = sorted(files)
        got["exists"] = os.path.exists(self.out)
        for name in ("gama.log", "evaluations.log", "memory.log"):
            path = os.path.join(self.out, name)
            if not os.path.exists(path):
                continue
            with open(path) as fh:
                lines = fh.read().splitlines()
            if name == "gama.log":
                lines = [li.split("] ", 1)[-1] for li in lines]
                got[name] = [li.split(" after ")[0] for li in lines
                             if li.startswith(("START", "STOP"))]
                inits = [li for li in lines if li.startswith("INIT:")]
                got["init"] = [li.replace(self.out, "OUT").split("search=")[0]
                               for li in inits]
            elif name == "evaluations.log":
                df = pd.read_csv(path, sep=";")
                got[name] = list(zip(df.pipeline, df.score))
            else:
                # as many processes as it may use; how often is up to the machine
                got[name] = sorted({li.count(",") for li in lines})
        return got


def body(name, p, tier):
    references = {}

    def reference(kind, ops):
        """What is seen of an instance which is alone."""
        if (kind, ops) not in references:
            root = tempfile.mkdtemp(dir=os.getcwd())
            try:
                with e2e.session(3):
                    used = Used(kind, 0, root)
                    for op in ops:
                        used.do(op)
                    references[kind, ops] = used.observe()
            finally:
                shutil.rmtree(root, ignore_errors=True)
        return references[kind, ops]

    def go(ch, rec):
        programs = [(kind, list(ops)) for kind, ops in p["programs"]]
        root = tempfile.mkdtemp(dir=os.getcwd())
        order = []
        try:
            with e2e.session(3):
                used = [Used(kind, i, root) for i, (kind, _) in enumerate(programs)]
                while any(ops for _, ops in programs):
                    ready = [i for i, (_, ops) in enumerate(programs) if ops]
                    i = ready[ch.choose(len(ready), "whose turn")]
                    op = programs[i][1].pop(0)
                    order.append(f"{op} {i}")
                    used[i].do(op)
                for i, (kind, ops) in enumerate(p["programs"]):
                    got, want = used[i].observe(), reference(kind, tuple(ops))
                    for what in sorted(set(got) | set(want)):
                        core.check(
                            got.get(what) == want.get(what),
                            f"kinds {[k for k, _ in p['programs']]}, order {order}: {what} "
                            f"of instance {i} is {got.get(what)}, alone it is "
                            f"{want.get(what)}",
                        )
        finally:
            shutil.rmtree(root, ignore_errors=True)
        rec.state(name, tuple(order))
        rec.sample(order)

    def many(ch, rec):
        """A long history of fits needs no more of anything than a short one."""
        root = tempfile.mkdtemp(dir=os.getcwd())
        limit = sys.getrecursionlimit()
        x, y = data(p["kind"], False)
        x, y = x[:12], y[:12]
        try:
            with e2e.session(3):
                g = construct(p["kind"], os.path.join(root, "out"))

                def fit():
                    e2e.fit(g, core.Chooser(), x, y, limit=1, order_dev=False,
                            warm_start=[g._operator_set.individual()])

                fit(), fit()
                used = None
                depth = len(inspect.stack(0)) + 80
                k = 0
                while k < p["fits"]:
                    sys.setrecursionlimit(depth)
                    try:
                        fit()
                    except RecursionError:
                        if k:
                            raise
                        depth += 20  # what the first one needs
                        continue
                    finally:
                        sys.setrecursionlimit(limit)
                    if k == 0:
                        depth += 20
                    k += 1
                    now = dict(files=len(os.listdir("/proc/self/fd")),
                               threads=threading.active_count(),
                               handlers=len(logging.getLogger("gama").handlers))
                    used = used or now
                    for what in now:
                        core.check(now[what] <= used[what] + 3,
                                   f"after {k} fits of kind {p['kind']} {now[what]} {what} "
                                   f"are in use, after the first {used[what]}")
                    rec.state(name, k)
        finally:
            sys.setrecursionlimit(limit)
            shutil.rmtree(root, ignore_errors=True)
        rec.sample(dict(fits=p["fits"], depth=depth))

    return many if "fits" in p else go


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
