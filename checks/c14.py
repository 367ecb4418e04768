"""C14: what is left on disk is what `store` says, after any history of fits."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import stopit
from gama import GamaClassifier, GamaRegressor
from gama.postprocessing import EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one history of fits and cleanups of a real instance with a real "
    "output directory; state = (settings, history)"
)
BOUNDS = {
    "quick": "all histories of 3 operations (2 if nothing is stored or the model is a "
    "single pipeline, and for the other searches) out of fit, fit on other data, "
    "interrupted fit (also before any result), cleanup of models, logs or all; 4 store settings, 2 kinds of model",
    "thorough": "as quick with one more operation",
}
ASSUMPTIONS = ["nobody else writes in the output directory"]
STORES = ("nothing", "models", "logs", "all")
OPS = ("fit", "fit-other", "fit-interrupted", "cleanup", "cleanup-logs", "cleanup-all")


def scenarios(tier):
    out = []
    for store in STORES:
        for pp in ("best", "ensemble"):
            for first in OPS:
                out.append(dict(name=f"random-{store}-{pp}-{first}", op="history",
                                search="random", store=store, pp=pp, first=first,
                                depth=(2 if store == "nothing" or pp == "best" else 3)
                                + (tier == "thorough")))
            for search in ("ea", "asha"):
                out.append(dict(name=f"{search}-{store}-{pp}", op="history", search=search,
                                store=store, pp=pp, first=None,
                                depth=2 + (tier == "thorough")))
    for pp in ("best", "ensemble"):
        out.append(dict(name=f"default-{pp}", op="history", search="random", store=None, pp=pp,
                        first=None, depth=2))
    for store in STORES + (None,):
        for where in ("relative", "nested", "home", "default", "exists", "elsewhere"):
            out.append(dict(name=f"{where}-{store}", op="history", search="random",
                            store=store, pp="ensemble", first="fit", where=where,
                            depth=2 if where in ("relative", "default") else 1))
    for store in STORES:
        out.append(dict(name=f"nothing-found-{store}", op="history", search="random",
                        store=store, pp="ensemble", first="fit-nothing", depth=2))
    out.append(dict(name="arguments", op="arguments"))
    return out


def body(name, p, tier):
    def new(**kw):
        search = dict(
            random=RandomSearch,
            ea=lambda: AsyncEA(population_size=3),
            asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=0.5,
                                                       reduction_factor=2),
        )[p.get("search", "random")]()
        pp = (EnsemblePostProcessing(ensemble_size=2, max_models=2)
              if p.get("pp") == "ensemble" else None)
        if kw["store"] is None:
            del kw["store"]  # "logs", as documented
        return GamaClassifier(search_space=spaces.spaces()["mixed"], search=search,
                              post_processing=pp, n_jobs=1, scoring="accuracy",
                              max_total_time=600, **kw)

    def listing(path):
        if not os.path.exists(path):
            return None
        return sorted(os.listdir(path))

    def history(ch, rec):
        home = os.getcwd()
        top = tempfile.mkdtemp(dir=home)
        root = os.path.join(top, "root")
        work = os.path.join(top, "work")
        os.mkdir(root), os.mkdir(work)
        given = out = os.path.join(root, "out")
        where = p.get("where")
        if where in ("relative", "nested", "default"):
            given = dict(relative="out", nested="./sub/../out", default=None)[where]
        elif where == "home":
            given = os.path.join("~", "out")
        elif where in ("exists", "elsewhere"):
            os.mkdir(out)
        if where == "nested":
            os.mkdir(os.path.join(root, "sub"))
        x, y = e2e.small_data()
        x2 = pd.DataFrame({"q": [float((i * 5) % 7) for i in range(26)],
                           "r": [float(i % 3) for i in range(26)],
                           "s": [float((i * i) % 5) for i in range(26)]})
        y2 = pd.Series(["a" if (i * 7) % 4 else "b" for i in range(26)])
        done = []
        completed = []
        fitted = None
        logs_removed = False
        limit = 10 if p["search"] == "asha" else 3
        old_home = os.environ.get("HOME")
        with e2e.session(11):
            try:
                os.environ["HOME"] = root
                os.chdir(root if where in ("relative", "nested", "default") else work)
                kw = {} if given is None else dict(output_directory=given)
                g = new(store=p["store"], **kw)
                g.evaluation_completed(lambda e: completed.append(e))
                if given is None:
                    made = os.listdir(root)
                    core.check(len(made) == 1 and made[0].startswith("gama_"),
                               f"the directory made is {made}")
                    out = os.path.join(root, made[0])
                os.chdir(work)
                if where == "elsewhere":
                    # a user who moves on to another directory and home
                    os.environ["HOME"] = work
                for step in range(p["depth"]):
                    op = p["first"] if step == 0 and p["first"] else ch.pick(OPS, "operation")
                    done.append(op)
                    if op.startswith("fit"):
                        data = (x2, y2) if op == "fit-other" else (x, y)
                        exc = (KeyboardInterrupt if op == "fit-interrupted"
                               else stopit.TimeoutException)
                        nothing = op == "fit-nothing"  # the time is up before a result
                        n0 = len(completed)
                        e2e.fit(g, ch, *data, limit=0 if nothing else limit, exc=exc,
                                order_dev=False)
                        fitted = None if nothing else data
                        ok = sum(1 for e in completed[n0:] if e.error is None)
                        directory_after_fit(out, ok, logs_removed, done, completed)
                    else:
                        before = listing(out)
                        which = {"cleanup": "evaluations", "cleanup-logs": "logs",
                                 "cleanup-all": "all"}[op]
                        g.cleanup(which)
                        logs_removed = logs_removed or which != "evaluations"
                        after = listing(out)
                        if before is None:
                            want = None
                        elif which == "all":
                            want = None
                        elif which == "logs":
                            want = [f for f in before if not f.endswith(".log")]
                        else:
                            want = [f for f in before if f != "cache"]
                        core.check(after == want,
                                   f"after {done} the directory holds {after}, not {want}")
                    if fitted is not None:
                        got = g.predict(fitted[0])
                        core.check(set(got) <= set(fitted[1]) and len(got) == len(fitted[1]),
                                   f"after {done} the model can not be used")
                    core.check(os.listdir(work) == [], f"after {done} the working directory "
                               f"holds {os.listdir(work)}")
                left = [n for n in os.listdir(root) if n not in ("sub", os.path.basename(out))]
                core.check(left == [], f"{left} outside the output directory")
            finally:
                os.chdir(home)
                os.environ.pop("HOME") if old_home is None else os.environ.update(
                    HOME=old_home)
                shutil.rmtree(top, ignore_errors=True)
        rec.state(name, done)
        rec.sample(done)

    def directory_after_fit(out, ok, logs_removed, done, completed):
        store, have = p["store"] or "logs", listing(out)
        if store == "nothing":
            core.check(have is None, f"after {done} with store=nothing: {have}")
            return
        core.check(have is not None, f"after {done}: no output directory")
        logs = [f for f in have if f.endswith(".log")]
        if store == "models":
            core.check(not logs, f"after {done} with store=models: {logs}")
        else:
            core.check("evaluations.log" in logs, f"after {done}: logs are {logs}")
            if not logs_removed:
                core.check("gama.log" in logs, f"after {done}: logs are {logs}")
                with open(os.path.join(out, "evaluations.log")) as fh:
                    lines = fh.read().count("\n")
                core.check(lines >= len(completed) + 1,
                           f"after {done}: {lines} lines for {len(completed)} evaluations")
        if store == "logs":
            core.check("cache" not in have, f"after {done} with store=logs: {have}")
        else:
            want = min(2, ok) if p["pp"] == "ensemble" else 0
            files = listing(os.path.join(out, "cache"))
            core.check(files is not None and len(files) == want,
                       f"after {done}: {files} cached, not {want} models")
        known = set(logs) | {"cache"}
        core.check(set(have) <= known, f"after {done}: unknown {set(have) - known}")

    def arguments(ch, rec):
        """Refused arguments leave the disk as it was."""
        bad = ch.pick((
            dict(store="everything"), dict(store=None), dict(max_total_time=0),
            dict(max_total_time=-3), dict(max_total_time=None), dict(max_eval_time=0),
            dict(max_eval_time=-1), dict(n_jobs=0), dict(n_jobs=-2), dict(preset="x"),
            dict(taken="mine.log"), dict(taken="mine.log", store="nothing"),
            dict(taken="notes"), dict(taken="cache/x"), dict(taken=".hidden"),
        ), "argument")
        cls = ch.pick((GamaClassifier, GamaRegressor), "class")
        exists = ch.flag("directory exists")
        root = tempfile.mkdtemp(dir=os.getcwd())
        out = os.path.join(root, "out")
        kw = dict(bad)
        taken = kw.pop("taken", False)
        if taken or exists:
            os.mkdir(out)
        if taken:
            os.makedirs(os.path.dirname(os.path.join(out, taken)), exist_ok=True)
            with open(os.path.join(out, taken), "w") as fh:
                fh.write("keep")
        kw.setdefault("store", "logs")
        kw.setdefault("n_jobs", 1)
        try:
            try:
                cls(output_directory=out, **kw)
            except ValueError:
                pass
            else:
                raise core.Violation(f"{bad} was accepted")
            if taken:
                core.check(os.listdir(out) == [taken.split("/")[0]]
                           and os.path.isfile(os.path.join(out, taken)),
                           f"a foreign file was removed, or one added: {os.listdir(out)}")
            else:
                core.check(not listing(out) and (exists or listing(out) is None),
                           f"{bad} leaves {listing(out)}")
        finally:
            shutil.rmtree(root, ignore_errors=True)
        rec.state(name, str(bad), cls.__name__, exists)

    return dict(history=history, arguments=arguments)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=0)
