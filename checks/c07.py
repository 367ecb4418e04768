"""C07: offspring are new individuals with a lineage; parents are left alone; novelty."""
import pickle
import random

from gama.genetic_programming.crossover import random_crossover
from gama.genetic_programming.mutation import random_valid_mutation_in_place
from gama.genetic_programming.operator_set import OperatorSet
from gama.utilities.evaluation_library import Evaluation

from checks.c06 import can_mate
from mc import core, genetics, rng, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one operator application (followed by one in-place change of the "
    "offspring) for one choice of parents and one sequence of random draws; state = "
    "(operator, parents, offspring)"
)
BOUNDS = {
    "quick": "search spaces of 1-5 operators, all parents up to 1-4 steps, all random "
    "draws; retry loop with 3 attempts and every subset of evaluated neighbours, "
    "also among 5000 other evaluations",
    "thorough": "as quick with parents up to 5 steps",
}
ASSUMPTIONS = ["all draws come from Python's global random generator"]


def scenarios(tier):
    keep = {"mutate", "mate", "offspring"}
    out = [s for s in genetics.scenarios(tier, chain=False) if s["op"] in keep]
    big = {("mixed", 3, 3), ("pre2", 4, 4), ("shared", 4, 4), ("reg", 3, 3),
           ("mixed", 4, 4), ("mixed", None, 3), ("shared", 5, 5), ("pre2", 5, 5),
           ("reg", 4, 3), ("single", 6, 6)}
    for s in out:
        s["then"] = (s["space"], s["maxlen"], s["parents"]) not in big
    for space, maxlen in (("onlyhp", None), ("pre2", 2), ("learners", None)):
        out.append(dict(name=f"novel-mutate-{space}", op="novel", kind="mutate",
                        space=space, maxlen=maxlen, parents=1))
    out.append(dict(name="novel-mate-mixed", op="novel", kind="mate", space="mixed",
                    maxlen=None, parents=1))
    for space in ("onlyhp", "learners"):
        out.append(dict(name=f"novel-wired-{space}", op="wired", space=space, maxlen=None,
                        parents=1))
    for where in ("before", "after"):  # thousands of other evaluations
        out.append(dict(name=f"novel-long-{where}", op="novel", kind="mutate",
                        space="onlyhp", maxlen=None, parents=1, others=where))
    for space in ("pre2", "mixed", "shared", "reg"):
        out.append(dict(name=f"copy-{space}", op="copy", space=space, maxlen=3, parents=3,
                        then=True))
    for space in ("pre2", "mixed"):
        out.append(dict(name=f"population-{space}", op="population", space=space,
                        maxlen=3, parents=2, then=False))
    return out


def snapshot(ind):
    return (
        ind._id,
        ind.pipeline_str(),
        repr(ind.fitness),
        repr(sorted(ind.meta.items(), key=str)),
    )


def verify(new, parents, before, how, rec):
    for p, s in zip(parents, before):
        core.check(
            snapshot(p) == s, f"{how} changed its parent: {s} became {snapshot(p)}"
        )
        core.check(new is not p, f"{how} returns its parent")
        core.check(new.meta is not p.meta, f"{how}: offspring shares the notes of a parent")
        core.check(new._id != p._id, f"{how}: offspring has the identity of a parent")
        distinct(new, p, f"{how}: offspring and parent")
    core.check(new.fitness is None, f"{how}: offspring starts with fitness {new.fitness}")
    ids = [p._id for p in parents]
    core.check(
        list(new.meta.get("parents", [])) == ids,
        f"{how}: recorded parents {new.meta.get('parents')} are not {ids}",
    )
    core.check(bool(new.meta.get("origin")), f"{how}: origin is not recorded")
    rec.state(how, [s[1] for s in before], new.pipeline_str())


def distinct(a, b, what):
    """However alike they are: not equal, and kept apart by lists and sets."""
    core.check(a != b and not a == b and a not in [b] and len({a, b}) == 2,
               f"{what} are taken for the same individual")


def one_value(a, b):
    """b is a but for the value of one hyperparameter: (class, name, value) or None."""
    if [c for c, _ in a] != [c for c, _ in b]:
        return None
    diff = [(c, n, t[n]) for (c, s), (_, t) in zip(a, b) for n in t if s[n] != t[n]]
    return diff[0] if len(diff) == 1 else None


RELATIONS = dict(
    terminal=lambda a, b: one_value(a, b) is not None,
    primitive=lambda a, b: len(a) == len(b) and [
        x[0] is y[0] for x, y in zip(a, b) if x != y] == [False],
    insert=lambda a, b: any(b[:i] + b[i + 1:] == a for i in range(len(b) - 1)),
    shrink=lambda a, b: 0 < len(b) < len(a) and a[len(a) - len(b):] == b,
)


def check_mutation(w, parent, new):
    """The offspring differs from its parent as its operator says, and only so."""
    a, b = (spaces.describe_steps([s for _, s in i.pipeline.steps], w.config)
            for i in (parent, new))
    origin = new.meta["origin"]
    kinds = [k for k in RELATIONS if k in origin] or list(RELATIONS)
    core.check(any(RELATIONS[k](a, b) for k in kinds),
               f"{origin} of {parent.pipeline_str()} gives {new.pipeline_str()}")


def check_crossover(w, p, q, new):
    """Steps of one from the data on and of the other to the end, or one value taken over."""
    steps = [spaces.describe_steps([s for _, s in i.pipeline.steps], w.config)
             for i in (p, q, new)]
    child = steps[2]
    for a, b in (steps[:2], steps[1::-1]):
        if any(child == b[:j] + a[i:] for i in range(1, len(a)) for j in range(1, len(b))):
            return
        taken = one_value(a, child)
        if taken and any(
            s.get(taken[1]) == taken[2]
            and (c is taken[0] or w.config[c][taken[1]] == w.config[taken[0]][taken[1]] == [])
            for c, s in b
        ):
            return
    raise core.Violation(f"crossover of {p.pipeline_str()} and {q.pipeline_str()} gives "
                         f"{new.pipeline_str()}")


def dress(w, text, i):
    ind = genetics.with_fitness(w.ind(text), 0.5 + i / 10, -len(text))
    ind.meta["origin"] = "new"
    ind.meta["rung"] = i
    return ind


def body(name, p, tier):
    w = genetics.World(p["space"], p["maxlen"])
    texts = w.texts(p["parents"])
    ops = w.ops

    def then_change(new, parents, before, ch):
        """An in-place change of the offspring does not reach the parents."""
        if not p.get("then") or len(texts) < 2:
            return
        with rng.controlled(ch):
            random_valid_mutation_in_place(new, w.pset, max_length=w.limit())
        for q, s in zip(parents, before):
            core.check(
                snapshot(q) == s,
                f"changing the offspring in place changed its parent {s}",
            )

    def novel(ch, rec):
        done = {}
        attempts = []
        kind = p["kind"]

        def mutate(ind):
            fn = random_valid_mutation_in_place(ind, w.pset, max_length=w.limit())
            attempts.append(ind.pipeline_str())
            return fn

        def mate(a, b):
            out = random_crossover(a, b)
            attempts.append(out[0].pipeline_str())
            return out

        opset = OperatorSet(
            mutate=mutate, mate=mate, create_from_population=None, create_new=None,
            compile_=None, eliminate=None, evaluate_callback=None, max_retry=3,
            completed_evaluations=done,
        )
        every = w.texts(2 if w.limit() is None or w.limit() > 1 else 1)[:6]
        others = {f"Other{i}(data)": object() for i in range(5000)}
        if p.get("others") == "before":
            done.update(others)
        for t in every:
            if ch.flag(f"evaluated before: {t}"):
                done[t] = object()
        if p.get("others") == "after":
            done.update(others)
        a = dress(w, ch.pick(texts, "a"), 0)
        if kind == "mate":
            b = dress(w, ch.pick(texts, "b"), 1)
            if not can_mate(a, b):
                raise core.Prune()
        with rng.controlled(ch):
            new = opset.mutate(a) if kind == "mutate" else opset.mate(a, b)
        text = new.pipeline_str()
        if text in done:
            core.check(
                len(attempts) >= 3 and all(t in done for t in attempts),
                f"returned {text}, evaluated before, after attempts {attempts} "
                f"of 3 with {[t for t in every if t in done]} evaluated before",
            )
            rec.count("gave_up")
        rec.state(name, text, [t for t in every if t in done], len(attempts))

    def wired(ch, rec):
        """As a Gama object does it: what it evaluated, in earlier fits too, counts."""
        world = genetics.World(p["space"], None)
        library = world.gama._evaluation_library
        a = dress(world, ch.pick(texts, "a"), 0)
        near = [t for t in texts if t != a.pipeline_str()]
        if p["space"] == "onlyhp":  # one mutation away
            steps = [spaces.describe_steps([s for _, s in world.ind(t).pipeline.steps],
                                           world.config) for t in [a.pipeline_str()] + near]
            near = [t for t, s in zip(near, steps[1:]) if one_value(steps[0], s)]
        fresh = ch.pick(near, "not evaluated yet")
        newfit = ch.choose(len(near) + 1, "a new fit starts after")
        for i, t in enumerate(near + [a.pipeline_str()]):
            if i == newfit:
                library.discard_models()
            if t != fresh:
                library.save_evaluation(Evaluation(
                    world.ind(t), score=(0.5, -1), error="no" if i % 2 else None))
        if newfit == len(near):
            library.discard_models()
        random.seed(ch.pick(range(3), "seed"))
        new = world.ops.mutate(a).pipeline_str()
        core.check(new == fresh, f"{new}, evaluated before, is proposed; {fresh} is new")
        rec.state(name, a.pipeline_str(), fresh, newfit)

    def one(ch, rec):
        op = p["op"]
        if op == "wired":
            return wired(ch, rec)
        if op == "novel":
            return novel(ch, rec)
        if op == "copy":
            a = dress(w, ch.pick(texts, "individual"), 0)
            before = [snapshot(a)]
            new = a.copy_as_new()
            core.check(new is not a and new._id != a._id, "a copy has no own identity")
            distinct(new, a, "a copy and its original")
            sent = pickle.loads(pickle.dumps(a))  # as it comes back from a worker
            core.check(sent == a and sent in [a] and len({sent, a}) == 1,
                       "an individual is not itself after a trip to a worker process")
            core.check(new.fitness is None, f"a copy starts with fitness {new.fitness}")
            core.check(new.pipeline_str() == a.pipeline_str(), "a copy differs")
            for node, other in zip(new.primitives, a.primitives):
                core.check(node is not other, "a copy shares a step")
                core.check(node._terminals is not other._terminals or not node._terminals,
                           "a copy shares its hyperparameters")
            new.meta["origin"] = "x"
            new.meta["parents"] = [1]
            core.check(snapshot(a) == before[0], "noting something for a copy notes it for "
                       "the original")
            then_change(new, [a], before, ch)
            rec.state(name, a.pipeline_str())
            return
        if op == "mutate":
            if len(texts) < 2:
                raise core.Prune()
            a = dress(w, ch.pick(texts, "parent"), 0)
            before = [snapshot(a)]
            with rng.controlled(ch):
                new = ops.mutate(a)
            core.check(new.pipeline_str() != a.pipeline_str(),
                       f"mutation of {a.pipeline_str()} changed nothing")
            verify(new, [a], before, "mutation", rec)
            check_mutation(w, a, new)
            then_change(new, [a], before, ch)
        elif op == "mate":
            mine = texts[p["part"] :: 4]
            if not mine:
                raise core.Prune()
            a, b = dress(w, ch.pick(mine, "a"), 0), dress(w, ch.pick(texts, "b"), 1)
            if not can_mate(a, b):
                raise core.Prune()
            before = [snapshot(a), snapshot(b)]
            with rng.controlled(ch):
                new = ops.mate(a, b)
            verify(new, [a, b], before, "crossover", rec)
            check_crossover(w, a, b, new)
            then_change(new, [a, b], before, ch)
        elif op in ("offspring", "population"):
            pop = [texts[0], texts[-1], texts[len(texts) // 2]]
            if op == "population":
                pop = pop + [texts[1]]
            if len(set(pop)) < 2:
                raise core.Prune()
            inds = [dress(w, t, i) for i, t in enumerate(pop)]
            before = [snapshot(i) for i in inds]
            given = list(inds)
            with rng.controlled(ch):
                new = ops.create(given, 1)
            core.check(
                len(given) == len(inds) and all(x is y for x, y in zip(given, inds)),
                "creating offspring changed the population",
            )
            core.check(len(new) == 1, f"asked for one offspring, got {len(new)}")
            (new,) = new
            ids = [i._id for i in inds]
            core.check(new._id not in ids, "offspring is a member of the population")
            parents = new.meta.get("parents", [])
            core.check(
                1 <= len(parents) <= 2 and all(q in ids for q in parents),
                f"offspring has parents {parents}, none of the population",
            )
            core.check(
                len(set(parents)) == len(parents), "both parents are the same individual"
            )
            chosen = [next(i for i in inds if i._id == q) for q in parents]
            verify(new, chosen, [snapshot(c) for c in chosen], "offspring", rec)
            if len(chosen) == 1:
                check_mutation(w, *chosen, new)
            else:
                check_crossover(w, *chosen, new)
            core.check(
                [snapshot(i) for i in inds] == before,
                "creating offspring changed a member of the population",
            )
        rec.sample(dict(op=op, choices=ch.choices))

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
