"""Own the random draws of the code under test.

`choice`, `randrange`, `randint`, `sample`, `shuffle` of the `random` module all draw
through `_randbelow` of the module's hidden instance, whatever name the code under test
imported them under, so that is where the explorer is plugged in.
"""
import contextlib
import random

_inst = random._inst


@contextlib.contextmanager
def controlled(ch, floats=(0.0, 0.999999), dev=False):
    """Let chooser `ch` answer every draw from `random`."""

    def randbelow(n):
        return ch.choose(int(n), f"rand<{n}", dev) if n > 0 else 0

    def rand():
        return floats[ch.choose(len(floats), "random()", dev)]

    def getrandbits(k):
        return 0

    saved_random = random.random
    saved = {k: _inst.__dict__.get(k) for k in ("_randbelow", "random", "getrandbits")}
    _inst._randbelow = randbelow
    _inst.random = rand
    random.random = rand
    try:
        yield
    finally:
        random.random = saved_random
        for k, v in saved.items():
            if v is None:
                _inst.__dict__.pop(k, None)
            else:
                _inst.__dict__[k] = v


@contextlib.contextmanager
def deterministic_uuid(start=1):
    """uuid4 becomes a counter, so that no set or dict order depends on urandom."""
    import uuid

    counter = [start]
    original = uuid.uuid4

    def uuid4():
        counter[0] += 1
        # a mixed value, so that hash order differs from creation order
        v = (counter[0] * 0x9E3779B97F4A7C15F39CC0605CEDC835) & ((1 << 128) - 1)
        return uuid.UUID(int=v, version=4)

    patched = uuid_sites(original)
    for d, k in patched:
        d[k] = uuid4
    uuid.uuid4 = uuid4
    try:
        yield
    finally:
        uuid.uuid4 = original
        for d, k in patched:
            d[k] = original


_sites = (None, [])


def uuid_sites(original):
    """Where gama refers to uuid4 by a name of its own."""
    global _sites
    import sys

    if _sites[0] != len(sys.modules):
        found = []
        for mod in list(sys.modules.values()):
            d = getattr(mod, "__dict__", None)
            if d is None or not getattr(mod, "__name__", "").startswith("gama"):
                continue
            found += [(d, k) for k, v in list(d.items()) if v is original]
        _sites = (len(sys.modules), found)
    return _sites[1]
