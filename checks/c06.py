"""C06: every genetic operator stays inside the search space and the length limit."""
from mc import core, genetics, rng, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one operator application for one choice of parents and one "
    "sequence of random draws; state = (operator, parents, resulting pipeline)"
)
BOUNDS = {
    "quick": "7 search spaces of 1-5 operators, limits None and 1..6, all parents up to "
    "1-6 steps, all random draws, operator chains of depth 2; the shipped search spaces "
    "with at most 2 non-default draws",
    "thorough": "as quick, more parents of 4-5 steps, operator chains of depth 3",
}
ASSUMPTIONS = ["all draws come from Python's global random generator"]


def scenarios(tier):
    return genetics.scenarios(tier)


def can_mate(a, b):
    """Whether a crossover of the two exists at all, from their description alone."""
    if len(a.primitives) >= 2 and len(b.primitives) >= 2:
        return True
    return any(
        t1.identifier == t2.identifier and t1.value != t2.value
        for t1 in a.terminals
        for t2 in b.terminals
    )


def body(name, p, tier):
    w = genetics.World(p["space"], p["maxlen"])
    texts = w.texts(p["parents"]) if p["op"] != "shipped" else []
    longer = []
    if p["op"] == "overlong":
        for extra in (1, 2):
            some = w.texts(p["maxlen"] + extra)
            some = some[len(w.texts(p["maxlen"] + extra - 1)):]
            longer += some[:: 1 + len(some) // 60]
    ops = w.ops

    def verify(ind, how, rec):
        why = spaces.membership_problem(ind, w.config, w.limit())
        if why:
            raise core.Violation(f"{how} gives {ind.pipeline_str()}: {why}")
        rec.state(how, ind.pipeline_str())

    def alive(x):
        """Something can be changed about this pipeline without leaving the space."""
        if len(texts) > 1 or w.limit() is None or w.limit() > 1:
            return True
        return False

    def one(ch, rec):
        op = p["op"]
        if op == "create":
            with rng.controlled(ch):
                ind = ops.individual()
            verify(ind, "random creation", rec)
        elif op == "mutate":
            a = w.ind(ch.pick(texts, "parent"))
            if not alive(a):
                raise core.Prune()
            before = a.pipeline_str()
            with rng.controlled(ch):
                ind = ops.mutate(a)
            verify(ind, f"mutation of {before}", rec)
        elif op == "shipped":
            with rng.controlled(ch, dev=True):
                ind = ops.individual()
                verify(ind, "random creation", rec)
                ind = ops.mutate(ind)
            verify(ind, "mutation", rec)
        elif op == "overlong":
            # e.g. handed in as warm start: mutation brings it back within the limit
            a = w.ind(ch.pick(longer, "parent"))
            with rng.controlled(ch):
                ind = ops.mutate(a)
            verify(ind, "mutation of an over-long pipeline", rec)
        elif op == "mate":
            mine = texts[p["part"] :: 4]
            if not mine:
                raise core.Prune()
            a, b = w.ind(ch.pick(mine, "a")), w.ind(ch.pick(texts, "b"))
            if not can_mate(a, b):
                raise core.Prune()
            names = a.pipeline_str(), b.pipeline_str()
            with rng.controlled(ch):
                ind = ops.mate(a, b)
            verify(ind, f"crossover of {names}", rec)
        elif op == "offspring":
            # three parents: shortest, longest and one in between
            pop = [texts[0], texts[-1], texts[len(texts) // 2]]
            if len(set(pop)) < 2:
                raise core.Prune()
            inds = [
                genetics.with_fitness(w.ind(t), *f)
                for t, f in zip(pop, ((0.9, -1), (0.5, -2), (0.7, -1)))
            ]
            with rng.controlled(ch):
                new = ops.create(inds, 1)
            core.check(len(new) == 1, f"asked for one offspring, got {len(new)}")
            verify(new[0], "offspring", rec)
        elif op == "chain":
            depth = 3 if tier == "thorough" else 2
            pool = sorted(set([texts[0], texts[-1]]))
            if len(texts) < 2:
                raise core.Prune()
            inds = [w.ind(t) for t in pool]
            last = inds[-1]
            for i in range(depth):
                with rng.controlled(ch):
                    if ch.flag("mate"):
                        other = inds[0]
                        if not can_mate(last, other):
                            raise core.Prune()
                        last = ops.mate(last, other)
                    else:
                        last = ops.mutate(last)
                verify(last, f"chain step {i + 1}", rec)
                inds.append(last)
        rec.sample(dict(op=op, choices=ch.choices))

    return one


def run(name, p, rec, tier):
    bound = 2 if p["op"] == "shipped" else None
    core.explore(body(name, p, tier), rec, bound=bound)
