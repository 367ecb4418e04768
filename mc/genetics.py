"""Shared driver of C06 and C07: every draw of every genetic operator.

The operators are the ones a real Gama instance is wired with, so the wiring (which
length limit reaches which operator) is part of what is explored.
"""
from gama.configuration.parser import pset_from_config
from gama.genetic_programming.compilers.scikitlearn import compile_individual
from gama.genetic_programming.components import Individual
from gama.genetic_programming.components.fitness import Fitness

from mc import spaces


class World:
    def __init__(self, space, max_length):
        from gama import GamaClassifier, GamaRegressor

        if space == "clf_config":
            from gama.configuration.classification import clf_config

            self.config = dict(clf_config)
        elif space == "reg_config":
            from gama.configuration.regression import reg_config

            self.config = dict(reg_config)
        else:
            self.config = spaces.spaces()[space]
        self.max_length = max_length
        reg = space.startswith("reg")
        g = spaces.new_gama(
            self.config,
            cls=GamaRegressor if reg else GamaClassifier,
            max_pipeline_length=max_length,
            scoring="neg_mean_squared_error" if reg else "accuracy",
        )
        self.gama = g
        self.ops = g._operator_set
        self.pset, _ = pset_from_config(self.config)

    def texts(self, limit):
        return [
            spaces.to_string(p, self.config)
            for p in spaces.all_pipelines(self.config, limit)
        ]

    def ind(self, text):
        return Individual.from_string(text, self.pset, to_pipeline=compile_individual)

    def limit(self):
        """The longest pipeline that may come out (no preprocessing: one step)."""
        if not spaces.transformers(self.config):
            return 1
        return self.max_length


def with_fitness(ind, *values):
    ind.fitness = Fitness(tuple(values), None, 0, 0)
    return ind


def cases(tier):
    """(space, max_pipeline_length, longest parents)"""
    quick = [
        ("mixed", None, 2),
        ("mixed", 1, 1),
        ("mixed", 2, 2),
        ("mixed", 3, 2),
        ("shared", None, 2),
        ("shared", 2, 2),
        ("shared", 3, 3),
        ("learners", None, 1),
        ("learners", 1, 1),
        ("single", 2, 2),
        ("single", 4, 4),
        ("single", None, 3),
        ("onlyhp", None, 1),
        ("pre2", 1, 1),
        ("pre2", 2, 2),
        ("pre2", 3, 3),
        ("reg", 2, 2),
        ("reg", None, 2),
    ]
    quick += [
        ("mixed", 3, 3),
        ("shared", 4, 4),
        ("shared", None, 4),
        ("pre2", 4, 4),
        ("pre2", None, 3),
        ("single", 6, 6),
        ("reg", 3, 3),
    ]
    if tier == "thorough":
        quick += [
            ("mixed", 4, 4),
            ("mixed", None, 3),
            ("shared", 5, 5),
            ("pre2", 5, 5),
            ("reg", 4, 3),
        ]
    return quick


def scenarios(tier, chain=True):
    out = []
    for space, maxlen, parents in cases(tier):
        tag = f"{space}-max{maxlen}-parents{parents}"
        common = dict(space=space, maxlen=maxlen, parents=parents)
        out.append(dict(name=f"create-{tag}", op="create", **common))
        out.append(dict(name=f"mutate-{tag}", op="mutate", **common))
        for part in range(4):
            out.append(dict(name=f"mate-{tag}-p{part}", op="mate", part=part, **common))
        out.append(dict(name=f"offspring-{tag}", op="offspring", **common))
        if chain:
            out.append(dict(name=f"chain-{tag}", op="chain", **common))
        if maxlen is not None and spaces.transformers(spaces.spaces()[space]):
            out.append(dict(name=f"overlong-{tag}", op="overlong", **common))
    for space in ("clf_config", "reg_config"):
        for maxlen in (None, 2):
            out.append(
                dict(name=f"shipped-{space}-max{maxlen}", op="shipped", space=space,
                     maxlen=maxlen, parents=0)
            )
    return out
