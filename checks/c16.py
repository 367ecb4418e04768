"""C16: the logs tell what happened, and GamaReport reads that from them."""
import csv
import math
import os
import shutil
import tempfile

import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.configuration.classification import clf_config
from gama.configuration.regression import reg_config
from gama.logging.GamaReport import GamaReport
from gama.postprocessing import EnsemblePostProcessing
from gama.search_methods import AsyncEA, AsynchronousSuccessiveHalving, RandomSearch
from sklearn.preprocessing import Binarizer, MinMaxScaler
from sklearn.naive_bayes import BernoulliNB, GaussianNB
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one or two real fits, their logs, and reports made of them at every "
    "pair of row boundaries; state = (settings, outcomes, row boundaries)"
)
BOUNDS = {
    "quick": "3 searches, 1-2 metrics, with and without length, classification and "
    "regression, 1-2 fits of 4 evaluations, 8 kinds of error messages, 6 names of "
    "directories; reports updated at all pairs of row boundaries (for more than 6 rows: "
    "at the first, middle and last ones)",
    "thorough": "as quick with all error messages for all settings, and 6 evaluations",
}
ASSUMPTIONS = ["rows of a log are written completely before a report is made of them"]
SEARCHES = dict(
    random=RandomSearch,
    ea=lambda: AsyncEA(population_size=3),
    asha=lambda: AsynchronousSuccessiveHalving(minimum_resource=0.5, reduction_factor=2),
)
MESSAGES = ("plain", "semi;colon;", "two\nlines", 'some "quotes"', "comma, and it's",
            "", "windows\r\nline", '";\n"')
NAMES = ("out", "a=b", "a,b", "a(b)", "with space", "x;y")
SCORING = {
    "clf": ("accuracy", ("accuracy",), ("neg_log_loss", "accuracy"), ["f1_macro", "accuracy"]),
    "reg": ("neg_mean_squared_error", ("r2", "neg_mean_absolute_error")),
}


def scenarios(tier):
    out = []
    for search in SEARCHES:
        for task in SCORING:
            for s in range(len(SCORING[task])):
                for length in (True, False):
                    out.append(dict(name=f"{search}-{task}-{s}-{length}", search=search,
                                    task=task, scoring=s, length=length,
                                    n=4 + 2 * (tier == "thorough")))
    return out


def body(name, p, tier):
    scoring = SCORING[p["task"]][p["scoring"]]
    metrics = [scoring] if isinstance(scoring, str) else list(scoring)
    columns = metrics + (["length"] if p["length"] else [])
    if p["task"] == "clf":
        full, names = clf_config, (GaussianNB, BernoulliNB, DecisionTreeClassifier,
                                   Binarizer, MinMaxScaler)
        failing = (BernoulliNB, DecisionTreeClassifier)
        cls = GamaClassifier
    else:
        full, names = reg_config, (DecisionTreeRegressor, Binarizer, MinMaxScaler)
        failing = (MinMaxScaler,)
        cls = GamaRegressor
    config = {k: v for k, v in full.items() if isinstance(k, str) or k in names}

    def one(ch, rec):
        main = p["scoring"] == 0 or tier == "thorough"
        text = ch.pick(MESSAGES if main else MESSAGES[::7], "error message", dev=True)
        directory = ch.pick(NAMES if main else NAMES[:1], "directory", dev=True)
        fits = 1 + ch.choose(2, "fits", dev=True)
        pp = (EnsemblePostProcessing(ensemble_size=2)
              if ch.flag("ensemble", dev=True) else None)
        x, y = e2e.small_data(20)
        if p["task"] == "reg":
            y = y + x["a"] / 3.0
        root = tempfile.mkdtemp(dir=os.getcwd())
        out = os.path.join(root, directory)
        truth = []
        saved = [(c, c.fit) for c in failing]

        def fail(self, *args, **kwargs):
            raise ValueError(text)

        with e2e.session(13):
            try:
                for c in failing:
                    c.fit = fail
                g = spaces.new_gama(
                    config, cls=cls, search=SEARCHES[p["search"]](), post_processing=pp,
                    output_directory=out, store="logs", scoring=scoring,
                    regularize_length=p["length"], max_total_time=321, random_state=17,
                )

                def note(e):
                    f = e.individual.fitness
                    truth.append(dict(
                        id=str(e.individual._id), score=tuple(f.values),
                        start=f.start_time, duration=f.wallclock_time, error=e.error,
                        pipeline=e.individual.pipeline_str(),
                        origin=e.individual.meta.get("origin", "unknown"),
                        parents=e.individual.meta.get("parents", []),
                        rung=e.individual.meta.get("rung", "unknown"),
                    ))

                g.evaluation_completed(note)
                limit = p["n"] + dict(asha=6, ea=6 if p["scoring"] == 0 else 0).get(
                    p["search"], 0)
                for _ in range(fits):
                    try:
                        start = []
                        if p["search"] == "ea":  # soon done, so that offspring follow
                            start = [g._operator_set.individual() for _ in range(4)]
                        e2e.fit(g, ch, x, y, limit=limit, order_dev=True, warm_start=start)
                    except ValueError as e:  # all pipelines may fail
                        if str(e) != text:
                            raise
            finally:
                for c, f in saved:
                    c.fit = f
        try:
            for t in truth:
                rec.count(f"origin-{t['origin']}")
            core.check(len(truth) == fits * limit, f"{len(truth)} evaluations")
            whole = GamaReport(out)
            compare(whole, truth, "of the finished search")
            core.check([(a, b) for a, b, _, _ in whole.phases]
                       == fits * [("preprocessing", "default"),
                                  ("search", type(g._search_method).__name__),
                                  ("postprocess", type(g._post_processing).__name__)],
                       f"phases are {whole.phases}")
            core.check(all(d >= 0 for _, _, _, d in whole.phases), "negative duration")
            core.check(whole.search_method == type(g._search_method).__name__,
                       f"search method {whole.search_method}")
            core.check(not whole.incomplete, "a finished search is reported as incomplete")
            core.check(whole.update() is False, "there is more to read at the end")
            hps = whole.hyperparameters
            for k, v in dict(max_total_time="321", random_state="17", n_jobs="1",
                             regularize_length=str(p["length"])).items():
                core.check(hps.get(k) == v, f"{k}={hps.get(k)}, given was {v}")
            partial(ch, root, out, truth, rec)
            rec.state(name, text, directory, fits, pp is None)
            rec.sample(dict(message=text, rows=len(truth)))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def compare(report, truth, what):
        df = report.evaluations
        core.check(len(df) == len(truth),
                   f"report {what} holds {len(df)} evaluations, not {len(truth)}")
        core.check(report.metrics == columns, f"metrics {report.metrics}, not {columns}")
        if not truth:
            return
        core.check(list(df.id) == [t["id"] for t in truth], f"report {what}: wrong ids")
        core.check(list(df.n) == list(range(len(truth))), f"report {what}: n is {list(df.n)}")
        first = min(t["start"] for t in truth)
        best = [-math.inf] * len(columns)
        for (_, row), t in zip(df.iterrows(), truth):
            for i, m in enumerate(columns):
                core.check(same(row[m], t["score"][i]),
                           f"report {what}: {m} is {row[m]}, measured {t['score'][i]}")
                best[i] = max(best[i], t["score"][i])
                core.check(same(row[f"{m}_cummax"], best[i]),
                           f"report {what}: best {m} is {row[f'{m}_cummax']}, not {best[i]}")
            core.check(row.start.to_pydatetime() == t["start"], f"report {what}: start")
            core.check(abs(row.duration.total_seconds() - t["duration"]) < 1e-5,
                       f"report {what}: duration {row.duration}, not {t['duration']}")
            end = (t["start"] - first).total_seconds() + t["duration"]
            core.check(abs(row.relative_end - end) < 1e-5,
                       f"report {what}: relative end {row.relative_end}, not {end}")
            core.check(row.pipeline == t["pipeline"], f"report {what}: {row.pipeline}")
            got = None if not isinstance(row.error, str) or row.error == "None" else row.error
            want = t["error"] and t["error"].replace("\r\n", "\n")
            core.check((got and got.replace("\r\n", "\n")) == want,
                       f"report {what}: error {got!r}, not {want!r}")
            ind = report.individuals[t["id"]]
            core.check(ind.pipeline_str() == t["pipeline"],
                       f"report {what}: pipeline {ind.pipeline_str()}, not {t['pipeline']}")
            if p["search"] == "ea":
                core.check(row.origin == t["origin"], f"report {what}: origin {row.origin}")
                for i in range(2):
                    parent = row[f"parent{i}"]
                    want = str(t["parents"][i]) if len(t["parents"]) > i else None
                    if not isinstance(parent, str) or parent == "None":
                        parent = None
                    core.check(parent == want, f"report {what}: parent {parent}, not {want}")
            if p["search"] == "asha":
                core.check(str(row.rung) == str(t["rung"]), f"report {what}: rung {row.rung}")
        good = report.successful_evaluations
        want = [t["id"] for t in truth if all(math.isfinite(s) for s in t["score"])]
        core.check(list(good.id) == want,
                   f"report {what}: {len(good)} successful evaluations, not {len(want)}")

    def same(a, b):
        return a == b or abs(a - b) < 1e-9

    def partial(ch, root, out, truth, rec):
        """Reports made while the search is going on, and updated twice."""
        with open(os.path.join(out, "gama.log"), newline="") as fh:
            lines = fh.readlines()
        stop = next(i for i, line in enumerate(lines) if "STOP: preprocessing" in line)
        with open(os.path.join(out, "evaluations.log"), newline="") as fh:
            content = fh.read()
        bounds = boundaries(content, len(truth))
        live = os.path.join(root, "live")
        os.mkdir(live)
        with open(os.path.join(live, "gama.log"), "w", newline="") as fh:
            fh.writelines(lines[: stop + 1])
        for i in range(len(truth) + 1):
            for j in range(i, len(truth) + 1):
                if len(truth) > 6 and not (
                    i in (0, 1, len(truth) // 2, len(truth)) and j in (i, i + 1, len(truth))
                ):
                    continue
                target = os.path.join(live, "evaluations.log")
                with open(target, "w", newline="") as fh:
                    fh.write(content[: bounds[i]])
                report = GamaReport(live)
                core.check(report.incomplete, "a search under way is reported as complete")
                compare(report, truth[:i], f"after {i} rows")
                for upto, done in ((j, i), (len(truth), j)):
                    with open(target, "a", newline="") as fh:
                        fh.write(content[bounds[done]: bounds[upto]])
                    core.check(bool(report.update()) == (upto > done),
                               f"update from row {done} to {upto} says otherwise")
                    compare(report, truth[:upto], f"after rows {i}, {upto}")
                rec.count("reports")
        meanwhile(live, content, bounds, truth)

    def meanwhile(live, content, bounds, truth):
        """The search writes its next row while a report is reading the log."""
        target = os.path.join(live, "evaluations.log")
        for i in range(1, len(truth)):
            if len(truth) > 6 and i not in (1, len(truth) // 2, len(truth) - 1):
                continue
            with open(target, "w", newline="") as fh:
                fh.write(content[: bounds[i]])
            real, late = pd.read_csv, [content[bounds[i]: bounds[i + 1]]]

            def read_csv(*args, **kwargs):
                try:
                    return real(*args, **kwargs)
                finally:
                    if late:
                        with open(target, "a", newline="") as fh:
                            fh.write(late.pop())

            pd.read_csv = read_csv
            try:
                report = GamaReport(live)
            finally:
                pd.read_csv = real
            if late:  # it reads the log by other means
                with open(target, "a", newline="") as fh:
                    fh.write(late.pop())
            compare(report, truth[:i], f"after {i} rows, while one is written")
            report.update()
            compare(report, truth[: i + 1], f"after row {i + 1}, written while reading")

    def boundaries(content, n):
        """Offsets in the text at which 0, 1, ... rows are complete."""
        ends, pos, quoted = [], 0, False
        for pos, c in enumerate(content):
            if c == '"':
                quoted = not quoted
            elif c == "\n" and not quoted:
                ends.append(pos + 1)
        core.check(len(ends) == n + 1 and ends[-1] == len(content),
                   f"{len(ends) - 1} rows in the log for {n} evaluations")
        rows = list(csv.reader(content.splitlines(True), delimiter=";"))
        core.check(len({len(r) for r in rows}) == 1, "rows differ in number of fields")
        return ends

    return one


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=1)
