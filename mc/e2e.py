"""Real fits of real Gama instances, with workers run inline and ended when we say so."""
import contextlib
import logging
import random

import numpy as np
import pandas as pd
import stopit
from gama.utilities.generic.async_evaluator import AsyncEvaluator

from mc import procs, rng


def small_data(n=20, kind="int"):
    """A data set on which tiny pipelines differ."""
    x = pd.DataFrame(
        {"a": [(i * 7) % 5 for i in range(n)], "b": [float((i * 3) % 4) for i in range(n)]}
    )
    y = pd.Series([int((i * 7) % 5 > 1) for i in range(n)])
    return x, y


@contextlib.contextmanager
def session(seed=7):
    """Everything random is fixed, everything global is put back."""
    saved = AsyncEvaluator.__init__, AsyncEvaluator.defaults
    handlers = list(logging.getLogger("gama").handlers)
    states = random.getstate(), np.random.get_state()
    random.seed(seed)
    np.random.seed(seed)
    with rng.deterministic_uuid():
        try:
            yield
        finally:
            AsyncEvaluator.__init__, AsyncEvaluator.defaults = saved
            for handler in logging.getLogger("gama").handlers[:]:
                if handler not in handlers:
                    logging.getLogger("gama").removeHandler(handler)
                    handler.close()
            random.setstate(states[0])
            np.random.set_state(states[1])


def fit(g, ch, x, y, limit=3, exc=stopit.TimeoutException, call=None, order_dev=True,
        **kwargs):
    """g.fit(x, y), with the search interrupted after `limit` evaluations."""
    env = procs.Inline(ch, order_dev=order_dev)
    done = [0]

    def before_result(_):
        if limit is not None and done[0] >= limit:
            raise exc()
        done[0] += 1

    env.before_result = before_result
    with env:
        result = call() if call else g.fit(x, y, **kwargs)
    return result, env
