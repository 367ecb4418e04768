"""C21: the same seed gives the same search and the same model."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from mc import core, e2e, repro, rng

LEVEL = "model_checking"
RULE = (
    "one execution = one real run (construction, one or two fits, predictions) with a seed "
    "after one history of the process; state = (settings, seed, history)"
)
BOUNDS = {
    "quick": "3 searches, 3 search spaces, 3 kinds of model (two of them not for all spaces), 3 seeds, 6 histories before "
    "construction, 4 patterns of identifiers, 4 storage settings, one or two fits of 10 "
    "evaluations; 3 processes with other hash seeds",
    "thorough": "as quick for all combinations of these, 12 evaluations and 8 processes",
}
ASSUMPTIONS = [
    "one worker, and nothing else draws random numbers between construction and fit "
    "(as documented: the seed is for the generators of the process)"
]
BEFORE = ("nothing", "drawn", "constructed", "fitted", "same", "interrupted")
STARTS = (1, 7777, 31337, 987654321)
STORES = ("nothing", "all", "models", "logs")


def scenarios(tier):
    out = []
    for search in repro.SEARCHES:
        for model in repro.MODELS:
            for which in ("plain", "random", "reg", "merged"):
                if tier == "quick" and (which == "merged" or model == "ensemble"
                                        and which != "random"):
                    continue
                if tier == "quick" and model == "hill" and (
                        search != "random" or which not in ("random", "reg")):
                    continue
                out.append(dict(name=f"{search}-{model}-{which}", op="histories",
                                search=search, model=model, which=which,
                                limit=12 if tier == "thorough" or search == "asha" else 8))
    for seed in (0, 5):
        out.append(dict(name=f"processes-{seed}", op="processes", seed=seed,
                        n=3 if tier == "quick" else 8))
    out.append(dict(name="unseeded", op="unseeded"))
    return out


def body(name, p, tier):
    dev = tier == "quick"
    references = {}

    def args(seed, fits):
        return dict(search=p["search"], model=p["model"], which=p["which"], seed=seed,
                    fits=fits, limit=p["limit"])

    def reference(seed, fits):
        if (seed, fits) not in references:
            with e2e.session(1):
                references[seed, fits] = repro.run(**args(seed, fits))
        return references[seed, fits]

    def histories(ch, rec):
        seed = ch.pick((0, 1, 12345), "seed", dev=dev)
        fits = 1 + ch.choose(2, "second fit", dev=dev and p["search"] != "ea")
        before = ch.pick(BEFORE, "before", dev=dev)
        start = ch.pick(STARTS, "identifiers", dev=dev)
        store = ch.pick(STORES, "store", dev=dev)
        want = reference(seed, fits)
        with e2e.session(2), rng.deterministic_uuid(start):
            if before == "drawn":
                random.seed(99)
                np.random.seed(99)
                random.random()
                np.random.rand(3)
            elif before != "nothing":
                other = dict(
                    constructed=lambda: repro.spaces.new_gama(random_state=3),
                    fitted=lambda: repro.run("ea", "best", "plain", 4, limit=5),
                    same=lambda: repro.run(**args(seed, 1)),
                    interrupted=lambda: repro.run("random", "best", "random", 5, limit=2),
                )[before]
                other()
            got = repro.run(**args(seed, fits), store=store)
        core.check(all(len(f["evaluated"]) == p["limit"] for f in got), "evaluations")
        wrong = repro.difference(got, want)
        core.check(wrong is None,
                   f"seed {seed} after {before}, identifiers from {start}, store {store}: "
                   f"{wrong}")
        rec.state(name, seed, fits, before, start, store)
        rec.sample(dict(seed=seed, before=before, first=want[0]["evaluated"][0][0]))

    def processes(ch, rec):
        results = []
        for i in range(p["n"]):
            env = dict(os.environ, PYTHONHASHSEED=str(i * 11))
            env["PYTHONPATH"] = os.pathsep.join(
                [os.path.dirname(os.path.dirname(os.path.abspath(repro.__file__)))]
                + [q for q in sys.path if q and os.path.isdir(os.path.join(q, "gama"))])
            done = subprocess.run(
                [sys.executable, "-W", "ignore", "-m", "mc.repro", str(p["seed"])],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            line = [li for li in done.stdout.splitlines() if li.startswith("RESULT")]
            if not line:
                raise RuntimeError(done.stderr[-2000:])
            results.append(json.loads(line[0][6:]))
        for i, other in enumerate(results[1:]):
            for key, got in other.items():
                wrong = repro.difference(got, results[0][key])
                core.check(wrong is None, f"seed {p['seed']}, {key}, process {i + 2}: {wrong}")
                rec.state(name, i, key)
        rec.count("processes", p["n"])

    def unseeded(ch, rec):
        """Without a seed, the user's own seeding counts, and is left alone."""
        first = ch.choose(3, "seed")
        runs = []
        for k in range(2):
            with e2e.session(1):
                random.seed(first)
                np.random.seed(first)
                before = random.getstate()[1], np.random.get_state()[1].tobytes()
                g = repro.spaces.new_gama(repro.space("plain"))
                del g
                after = random.getstate()[1], np.random.get_state()[1].tobytes()
                core.check(before == after, "construction without seed draws or seeds")
                runs.append(repro.run("random", "best", "random", None, limit=5))
        wrong = repro.difference(*runs)
        core.check(wrong is None, f"seeded by the user with {first}: {wrong}")
        rec.state(name, first)

    return dict(histories=histories, processes=processes, unseeded=unseeded)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=1 if tier == "quick" else None)
