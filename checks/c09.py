"""C09: parent selection, survivor elimination and Pareto fronts respect dominance."""
import itertools
from collections import defaultdict
from fractions import Fraction

from gama.genetic_programming.nsga2 import nsga2, nsga2_select
from gama.utilities.generic.paretofront import ParetoFront

from mc import core, genetics, rng

LEVEL = "model_checking"
RULE = (
    "one execution = one selection/elimination/front update for one population of "
    "objective vectors and one sequence of random draws; state = (operation, population, "
    "result)"
)
BOUNDS = {
    "quick": "populations of 3-4 (selection), 2-4 (elimination), 1-4 (nsga2), fronts of "
    "up to 4 insertions; objective values from {-inf,0,1,2}, 1-3 objectives; all draws",
    "thorough": "as quick with 5 members and values {0..3}",
}
ASSUMPTIONS = ["all draws come from Python's global random generator"]
INF = float("-inf")


class Item:
    def __init__(self, name, values):
        self.name, self.values = name, tuple(values)

    def __repr__(self):
        return f"{self.name}{self.values}"


def metrics(k):
    return [lambda it, i=i: it.values[i] for i in range(k)]


def dominates(a, b):
    """better on every objective"""
    return all(x > y for x, y in zip(a, b))


def vectors(k, values):
    return list(itertools.product(values, repeat=k))


def scenarios(tier):
    out = []

    def add(kind, **kw):
        tag = "-".join(f"{k}{v}" for k, v in kw.items())
        out.append(dict(name=f"{kind}-{tag}", kind=kind, **kw))

    for part in range(4):
        add("select", size=3, k=2, vals=3, part=part)
        add("select", size=4, k=2, vals=2, part=part)
    add("select", size=3, k=1, vals=4, part=None)
    add("select", size=3, k=3, vals=2, part=None)
    add("select", size=4, k=1, vals=3, part=None)
    for k in (1, 2):
        add("chain", size=6, k=k)
    for size in (1, 2, 3):
        add("nsga2", size=size, k=2, vals=4)
    add("nsga2", size=4, k=1, vals=3)
    add("nsga2", size=3, k=3, vals=2)
    for part in range(4):
        add("nsga2", size=4, k=2, vals=3, part=part)
    add("nsga2perm", size=5, k=2)
    add("nsga2perm", size=4, k=2)
    for part in range(4):
        add("nsga2perm", size=4, k=3, part=part)
    for flat in (0, 1):
        add("nsga2flat", size=6, k=2, flat=flat)
    for size in (2, 3):
        add("eliminate", size=size, k=2, vals=3)
    add("eliminate", size=3, k=3, vals=2)
    add("eliminate", size=4, k=1, vals=3)
    for part in range(4):
        add("eliminate", size=4, k=2, vals=3, part=part)
    for k, vals, depth in ((1, 3, 4), (2, 3, 3), (3, 2, 4), (2, 2, 5)):
        add("front", k=k, vals=vals, depth=depth)
    for part in range(4):
        add("front", k=2, vals=3, depth=4, part=part)
    for k in (1, 2, 3):
        add("parents", k=k)
    if tier == "thorough":
        for part in range(8):
            add("select", size=4, k=2, vals=3, part=part, parts=8)
            add("eliminate", size=5, k=2, vals=3, part=part, parts=8)
            add("nsga2", size=4, k=2, vals=4, part=part, parts=8)
        add("nsga2perm", size=6, k=2)
    return out


def values_of(p):
    return [0, 1, 2, INF][: p["vals"]]


def populations(p):
    pops = itertools.product(vectors(p["k"], values_of(p)), repeat=p["size"])
    if p.get("part") is None:
        return pops
    return itertools.islice(pops, p["part"], None, p.get("parts", 4))


def crowding(front, k):
    """Crowding distance (Deb et al. 2002) for a front whose values are all distinct."""
    dist = {it: 0.0 for it in front}
    for m in range(k):
        s = sorted(front, key=lambda it: it.values[m])
        dist[s[0]] = dist[s[-1]] = float("inf")
        span = s[-1].values[m] - s[0].values[m]
        for a, b, c in zip(s, s[1:], s[2:]):
            dist[b] += (c.values[m] - a.values[m]) / span
    return dist


def ranks(items):
    left, rank, r = list(items), {}, 0
    while left:
        front = [i for i in left if not any(dominates(j.values, i.values) for j in left)]
        for i in front:
            rank[i] = r
        left = [i for i in left if i not in front]
        r += 1
    return rank


def select_population(pop, k, rec, want_pairs=1):
    """Explore every draw for one population; check the exact distribution."""
    items = [Item(f"i{n}", v) for n, v in enumerate(pop)]
    prob = defaultdict(Fraction)

    def once(ch, rec_):
        given = list(items)
        with rng.controlled(ch):
            pairs = nsga2_select(given, want_pairs, metrics(k))
        core.check(
            all(a is b for a, b in zip(given, items)) and len(given) == len(items),
            "selection modified the population",
        )
        core.check(len(pairs) == want_pairs, f"{len(pairs)} pairs for {want_pairs}")
        for a, b in pairs:
            core.check(
                any(a is i for i in items) and any(b is i for i in items),
                f"selected something outside of the population: {a}, {b}",
            )
            core.check(a is not b, f"pair of parents is one individual {a} of {items}")
            for x in (a, b):
                core.check(
                    not all(dominates(o.values, x.values) for o in items if o is not x),
                    f"{x}, dominated by all of {items}, was selected",
                )
        weight = Fraction(1)
        for _, n, _ in ch.trace:
            weight /= n
        prob[pairs[0][0].name] += weight
        rec_.state("select", pop, [(a.name, b.name) for a, b in pairs])

    core.explore(once, rec)
    if rec.violations:
        return
    for a in items:
        for b in items:
            if dominates(a.values, b.values) and not prob[a.name] > prob[b.name]:
                rec.fail(
                    f"in {items}, {a} dominates {b} but is first parent with "
                    f"probability {prob[a.name]} against {prob[b.name]}",
                    [],
                )
                return


def run(name, p, rec, tier):
    b = body(name, p, tier)
    if b is not None:
        return core.explore(b, rec)
    if p["kind"] == "chain":
        # many fronts, of one member each: each is preferred over all below it
        for order in ((0, 1, 2, 3, 4, 5), (4, 1, 5, 0, 3, 2)):
            pop = tuple((v, v / 1e6)[: p["k"]] for v in order[: p["size"]])
            select_population(pop, p["k"], rec)
            if rec.violations:
                return
        rec.sample(dict(kind="chain", last_population=str(pop)))
    elif p["kind"] == "select":
        for pop in populations(p):
            select_population(pop, p["k"], rec)
            if rec.violations:
                return
        rec.sample(dict(kind="select", last_population=str(pop)))
    else:
        run_parents(p, rec)


def run_parents(p, rec):
    """Through the operators Gama wires up: every objective counts."""
    k = p["k"]
    w = genetics.World("onlyhp", None)
    text = w.texts(1)[0]
    pops = {
        1: [((1,), (2,), (3,)), ((3,), (1,), (2,)), ((1,), (1,), (2,)),
            # scores may be close, or large
            ((0.5 + 1e-9,), (0.5,), (0.5 - 1e-9,)), ((-1e9 - 1,), (-1e9,), (-1e9 + 1,))],
        2: [((0.5, -1), (0.5 + 1e-9, 0), (0.5 - 1e-9, -2)),
            ((3, 3), (2, 2), (1, 1)), ((1, 3), (2, 2), (3, 1)), ((2, 1), (1, 2), (0, 0)),
            ((0, -1), (1, -2), (2, -3)), ((5, -1), (5, -1), (1, -3))],
        3: [((3, 3, 0), (2, 2, 1), (1, 1, 2)), ((0, 3, 3), (1, 2, 2), (2, 1, 1)),
            ((3, 0, 3), (2, 1, 2), (1, 2, 1)), ((3, 3, 3), (2, 2, 2), (1, 1, 1))],
    }[k]
    for pop in pops:
        inds = [genetics.with_fitness(w.ind(text), *v) for v in pop]
        prob = defaultdict(Fraction)
        seen = set()

        def once(ch, rec_):
            with rng.controlled(ch):
                (new,) = w.ops.create(list(inds), 1)
            weight = Fraction(1)
            for _, n, _ in ch.trace:
                weight /= n
            parents = [i for i in inds if i._id in new.meta["parents"]]
            core.check(parents, "offspring without parents in the population")
            first = next(n for n, i in enumerate(inds) if i._id == new.meta["parents"][0])
            prob[first] += weight
            seen.add(first)
            rec_.state("parents", pop, first)

        core.explore(once, rec)
        if rec.violations:
            return
        for a, b in itertools.permutations(range(len(pop)), 2):
            if dominates(pop[a], pop[b]) and not prob[a] > prob[b]:
                rec.fail(
                    f"objectives {pop}: member {a} dominates {b} but is first parent "
                    f"with probability {prob[a]} against {prob[b]}", [],
                )
        for m in range(k):
            best = max(range(len(pop)), key=lambda i: pop[i][m])
            if [v[m] for v in pop].count(pop[best][m]) == 1 and best not in seen:
                rec.fail(
                    f"objectives {pop}: member {best} is best on objective {m} "
                    "but can never become a parent", [],
                )
    rec.sample(dict(kind="parents", populations=str(pops)))


def body(name, p, tier):
    kind = p["kind"]
    if kind in ("select", "chain", "parents"):
        return None

    if kind == "nsga2perm":
        size = p["size"]

        def one(ch, rec):
            # distinct values on both objectives: one permutation against 0..n-1
            def permutation(first=None):
                left = list(range(size))
                perm = [] if first is None else [left.pop(first)]
                while left:
                    perm.append(left.pop(ch.choose(len(left), "perm")))
                return perm

            perm = permutation(p.get("part"))
            # uneven gaps, so that crowding distances differ
            xs = [0, 1, 3, 7, 15, 31][:size]
            vals = [(xs[i], [0, 2, 3, 8, 9, 20][:size][perm[i]]) for i in range(size)]
            if p["k"] == 3:
                third = permutation()
                vals = [v + ([0, 4, 5, 11][third[i]],) for i, v in enumerate(vals)]
            check_nsga2(vals, p["k"], ch, rec, crowd=True)

        return one

    if kind == "nsga2flat":
        size = p["size"]

        def one(ch, rec):
            # one objective does not tell them apart: the other one still does
            left, vals = [0, 1, 3, 8, 20, 52], []
            while left:
                v = left.pop(ch.choose(len(left), "order"))
                vals.append((4, v) if p["flat"] == 0 else (v, 4))
            check_nsga2(vals, p["k"], ch, rec, flat=p["flat"])

        return one

    if kind == "nsga2":
        pops = list(populations(p))

        def one(ch, rec):
            check_nsga2(ch.pick(pops, "population"), p["k"], ch, rec)

        return one

    if kind == "eliminate":
        pops = list(populations(p))
        if p["k"] == 2 and p["size"] == 3:
            close = [(0.5 + a, b) for a in (0, 1e-9) for b in (-1, -2)]
            pops += list(itertools.product(close, repeat=3))
        w = genetics.World("onlyhp", None)
        text = w.texts(1)[0]

        def one(ch, rec):
            pop = ch.pick(pops, "population")
            inds = [genetics.with_fitness(w.ind(text), *v) for v in pop]
            given = list(inds)
            with rng.controlled(ch):
                gone = w.ops.eliminate(given, 1)
            core.check(len(gone) == 1, f"asked to eliminate one, got {len(gone)}")
            (gone,) = gone
            core.check(any(gone is i for i in inds), "eliminated a stranger")
            core.check(
                len(given) == len(inds) and all(a is b for a, b in zip(given, inds)),
                "elimination modified the population itself",
            )
            x = gone.fitness.values
            worse = [v for v in pop if v != x and all(a <= b for a, b in zip(v, x))]
            core.check(
                not worse, f"eliminated {x} of {pop} although {worse} is worse"
            )
            rec.state("eliminate", pop, x)
            rec.sample(dict(population=str(pop), eliminated=str(x)))

        return one

    if kind == "front":
        vs = vectors(p["k"], values_of(p))

        def one(ch, rec):
            with_fn = ch.flag("values function")
            seq = []
            for d in range(p["depth"]):
                opts = vs
                if d == 0 and p.get("part") is not None:
                    opts = vs[p["part"] :: 4]
                seq.append(ch.pick(opts, "item"))
            n_start = ch.choose(p["depth"] + 1, "given at construction")
            wrap = (lambda v, i: Item(f"n{i}", v)) if with_fn else (lambda v, i: v)
            items = [wrap(v, i) for i, v in enumerate(seq)]
            fn = (lambda it: it.values) if with_fn else None
            front = ParetoFront(items[:n_start], fn)
            val = fn or (lambda v: v)
            for i in range(n_start, p["depth"] + 1):
                have = [val(x) for x in front]
                best = {
                    v for v in seq[:i]
                    if not any(
                        u != v and all(a >= b for a, b in zip(u, v)) for u in seq[:i]
                    )
                }
                core.check(
                    sorted(have) == sorted(best),
                    f"front of {seq[:i]} is {have}, should be {sorted(best)}",
                )
                core.check(len(front) == len(have), "length and contents disagree")
                if i < p["depth"]:
                    changed = front.update(items[i])
                    after = [val(x) for x in front]
                    core.check(
                        bool(changed) == (sorted(after) != sorted(have)),
                        f"update of {have} with {seq[i]} reported {changed}, "
                        f"front became {after}",
                    )
                rec.state("front", sorted(have))
            rec.sample(dict(sequence=str(seq)))

        return one


def check_nsga2(pop, k, ch, rec, crowd=False, flat=None):
    items = [Item(f"i{n}", v) for n, v in enumerate(pop)]
    n = 1 + ch.choose(len(items), "n")
    chosen = nsga2(list(items), n, metrics(k))
    core.check(len(chosen) == n, f"asked for {n} of {pop}, got {len(chosen)}")
    core.check(
        len({id(c) for c in chosen}) == n and all(any(c is i for i in items) for c in chosen),
        f"selection from {pop} is not {n} distinct members: {chosen}",
    )
    rest = [i for i in items if not any(i is c for c in chosen)]
    rank = ranks(items)
    for c in chosen:
        for r in rest:
            core.check(
                rank[c] <= rank[r],
                f"{c} of front {rank[c]} chosen over {r} of front {rank[r]} in {items}",
            )
    if crowd:
        last = max(rank[c] for c in chosen)
        front = [i for i in items if rank[i] == last]
        dist = crowding(front, k)
        for c in chosen:
            for r in rest:
                if rank[c] == rank[r] == last:
                    core.check(
                        dist[c] >= dist[r] - 1e-12,
                        f"{c} (distance {dist[c]}) kept, less crowded {r} "
                        f"({dist[r]}) dropped from {front}",
                    )
    if flat is not None:
        # any two may count as the ends of the objective on which all are equal
        dist = crowding([Item(i.name, (i.values[1 - flat],)) for i in items], 1)
        dist = {i.name: d for i, d in dist.items()}
        for r in rest:
            unfair = [c for c in chosen if dist[c.name] < dist[r.name]]
            core.check(len(unfair) <= 2,
                       f"{unfair} kept, less crowded {r} dropped from {items}")
    rec.state("nsga2", pop, n, sorted(c.name for c in chosen))
    rec.sample(dict(population=str(pop), n=n))
