"""One complete run with a seed, and all that a user can see of it.

Also a program: `python -m mc.repro SEED` prints what runs with all searches gave, so that
processes (with another hash seed, another address layout, another pid) can be compared.
"""
import json
import os
import random
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.configuration.parser import merge_configurations
from gama.postprocessing import BestFitPostProcessing, EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.ensemble import RandomForestClassifier
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.preprocessing import Binarizer, MinMaxScaler, Normalizer, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e, spaces

SEARCHES = dict(
    random=RandomSearch,
    ea=lambda: AsyncEA(population_size=4),
    asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=0.5, reduction_factor=2),
)
MODELS = dict(best=BestFitPostProcessing,
              ensemble=lambda: EnsemblePostProcessing(ensemble_size=3),
              hill=lambda: EnsemblePostProcessing(ensemble_size=4, hillclimb_size=9))


def space(which):
    if which == "plain":
        # many equal scores: the order in which they are looked at must not matter
        return {GaussianNB: {"var_smoothing": [1e-9, 1e-8, 1e-7, 1e-6]},
                BernoulliNB: {"alpha": [0.1, 1.0, 10.0]}, MinMaxScaler: {},
                Normalizer: {"norm": ["l1", "l2", "max"]}, StandardScaler: {}}
    if which == "random":  # learners that draw random numbers themselves
        return {RandomForestClassifier: {"n_estimators": [1, 2, 3], "max_depth": [2, 3]},
                DecisionTreeClassifier: {"max_features": [1], "max_depth": [1, 2, 3]},
                MinMaxScaler: {}}
    if which == "reg":
        return {DecisionTreeRegressor: {"max_features": [1], "max_depth": [1, 2, 3]},
                MinMaxScaler: {}, Binarizer: {"threshold": [0.0, 0.5, 1.0]}}
    assert which == "merged"
    a = {Normalizer: {"norm": ["l1", "l2"]}, GaussianNB: {"var_smoothing": [1e-9, 0.5]}}
    b = {Normalizer: {"norm": ["max", "l2"]}, MinMaxScaler: {},
         DecisionTreeClassifier: {"max_depth": [1, 2], "criterion": ["gini", "entropy"]}}
    return merge_configurations(a, b)


def data(reg):
    n = 20
    x = pd.DataFrame({"a": [(i * 7) % 5 for i in range(n)],
                      "b": [float((i * 3) % 4) for i in range(n)],
                      "c": [((i * i) % 7) / 2 for i in range(n)]})
    y = pd.Series([int((i * 7) % 5 > 1) if i % 6 else 1 for i in range(n)])
    return x, (y + x.c if reg else y)


def run(search, model, which, seed, fits=1, limit=10, store="nothing", callback=None):
    """Everything that should be the same for the same seed."""
    seen = []
    root = tempfile.mkdtemp(dir=os.getcwd())
    reg = which == "reg"
    x, y = data(reg)
    try:
        g = spaces.new_gama(
            space(which), cls=GamaRegressor if reg else GamaClassifier,
            scoring="neg_mean_squared_error" if reg else "accuracy",
            search=SEARCHES[search](), post_processing=MODELS[model](),
            random_state=seed, store=store, output_directory=os.path.join(root, "out"),
        )
        g.evaluation_completed(lambda e: seen.append(
            [e.individual.pipeline_str(), [float(s) for s in e.score],
             e.individual.meta.get("origin")]))
        if callback is not None:
            g.evaluation_completed(callback)
        out = []
        for _ in range(fits):
            e2e.fit(g, core.Chooser(), x, y, limit=limit, order_dev=False)
            out.append(dict(
                evaluated=list(seen), predictions=[float(v) for v in g.predict(x)],
                script=sorted(g.export_script(file=None).splitlines()),
            ))
            del seen[:]
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def difference(a, b):
    for i, (one, other) in enumerate(zip(a, b)):
        for what in one:
            if one[what] != other[what]:
                for j, (u, v) in enumerate(zip(one[what], other[what])):
                    if u != v:
                        return f"fit {i + 1}: {what} {j + 1} is {u}, it was {v}"
                return f"fit {i + 1}: another number of {what}"
    return None


def main():
    import logging

    logging.getLogger("gama").handlers = []
    logging.getLogger("gama").addHandler(logging.NullHandler())
    seed = int(sys.argv[1])
    out = {}
    # what came before in this process differs as well
    random.seed(os.getpid())
    np.random.seed(os.getpid() % 2 ** 32)
    for search in SEARCHES:
        for which in ("plain", "random", "merged"):
            for model in MODELS:
                if model != "best" and which != "random":
                    continue
                # the second fit continues with the population: offspring, not only new
                fits, limit = (2, 16) if search == "ea" else (1, 10)
                out[f"{search}-{model}-{which}"] = run(search, model, which, seed,
                                                       fits=fits, limit=limit)
    print("RESULT" + json.dumps(out))


if __name__ == "__main__":
    main()
