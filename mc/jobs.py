"""Functions that worker processes execute in the explored runs (picklable by name)."""
import numpy as np
import pandas as pd

ENV = None  # the environment of the execution under way
LOG = []  # (call id, pid) of every execution of a call


class Outcome:
    """Looks like the evaluations GAMA sends around."""

    def __init__(self, tag, error=None):
        self.tag, self.error = tag, error

    def __eq__(self, other):
        return isinstance(other, Outcome) and (self.tag, str(self.error)) == (
            other.tag,
            str(other.error),
        )

    def __repr__(self):
        return f"Outcome({self.tag},{self.error})"


class CustomError(Exception):
    def __init__(self, tag):
        super().__init__(f"custom {tag}")
        self.tag = tag

    def __reduce__(self):
        return (CustomError, (self.tag,))


KINDS = [
    "evaluation",
    "raise_value",
    "falsy",
    "number",
    "tuple",
    "raise_memory",
    "memory_result",
    "none",
    "text",
    "array",
    "frame",
    "raise_custom",
    "raise_timeout",
    "emptytuple",
]


def call(tag, kind, shared=None):
    me = ENV.current()
    LOG.append((tag, me.pid))
    me.jobs.append(tag)
    ENV.point("job")
    return value(tag, kind)


def value(tag, kind):
    if kind == "evaluation":
        return Outcome(tag)
    if kind == "raise_value":
        raise ValueError(f"value {tag}")
    if kind == "falsy":
        return 0
    if kind == "number":
        return 17 + tag
    if kind == "tuple":
        return (Outcome(tag), tag)
    if kind == "raise_memory":
        raise MemoryError()
    if kind == "memory_result":
        return Outcome(tag, MemoryError())
    if kind == "none":
        return None
    if kind == "text":
        return f"text {tag}"
    if kind == "array":
        return np.array([tag, 1, 2])
    if kind == "frame":
        return pd.DataFrame({"a": [tag]})
    if kind == "raise_custom":
        raise CustomError(tag)
    if kind == "raise_timeout":
        raise TimeoutError(f"timeout {tag}")
    if kind == "emptytuple":
        return ()
    raise AssertionError(kind)


def die(tag):
    """The process that runs this disappears."""
    LOG.append((tag, ENV.current().pid))
    ENV.point("job")
    ENV.exit_now()


def forever(tag):
    """Does not come to an end by itself."""
    LOG.append((tag, ENV.current().pid))
    while True:
        ENV.changed()  # time passes: whoever polls gets to look again
        ENV.pause("busy")


def hog(tag, mb):
    """Uses a lot of memory while it runs."""
    me = ENV.current()
    LOG.append((tag, me.pid))
    me.jobs.append(tag)
    me.memory_mb = mb
    me.hogged = True
    ENV.changed()
    ENV.pause("hog")
    ENV.pause("hog")
    me.memory_mb = 10
    return Outcome(tag)


def expectation(tag, kind):
    """("result", predicate) or ("exception", predicate)"""
    if kind == "memory_result":
        # its error can not be sent between processes as it is; a description is
        return lambda r, e: e is None and r.tag == tag and "MemoryError" in repr(r.error)
    if kind == "raise_memory":
        return lambda r, e: r is None and e is not None and (
            isinstance(e, MemoryError) or "MemoryError" in str(e)
        )
    if kind.startswith("raise"):
        try:
            value(tag, kind)
        except Exception as x:
            want = x
        return lambda r, e: r is None and type(e) is type(want) and e.args == want.args
    want = value(tag, kind)

    def same(r, e):
        if e is not None or type(r) is not type(want):
            return False
        if kind == "array":
            return (r == want).all()
        if kind == "frame":
            return r.equals(want)
        return r == want

    return same


def call_with_default(tag, kind, shared=None):
    out = call(tag, kind)
    if shared != "yes":
        raise AssertionError("the shared default did not reach the call")
    return out
