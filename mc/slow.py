"""A learner whose training takes as long (on the virtual clock) as its hyperparameter."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

CLOCK = None  # set by the check


class Slow(ClassifierMixin, BaseEstimator):
    def __init__(self, cost=0.0, tag=0):
        self.cost = cost
        self.tag = tag

    def fit(self, x, y):
        if CLOCK is not None:
            CLOCK.move(self.cost)
        self.classes_, counts = np.unique(y, return_counts=True)
        self.best_ = self.classes_[np.argmax(counts)]
        return self

    def predict(self, x):
        return np.full(len(x), self.best_)

    def predict_proba(self, x):
        p = np.zeros((len(x), len(self.classes_)))
        p[:, list(self.classes_).index(self.best_)] = 1.0
        return p
