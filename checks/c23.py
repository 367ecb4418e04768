"""C23: the command line does what its arguments say."""
import contextlib
import csv
import inspect
import io
import logging
import os
import pickle
import shutil
import stat
import sys
import tempfile

import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.gama import Gama
from gama.utilities import cli
from sklearn.naive_bayes import GaussianNB
from sklearn.preprocessing import MinMaxScaler
from sklearn.tree import DecisionTreeRegressor

from mc import core, e2e

LEVEL = "model_checking"
RULE = (
    "one execution = one invocation of the real command line interface (the search runs "
    "inline, on a tiny search space); state = (arguments)"
)
BOUNDS = {
    "quick": "all single deviations (pairs for 4 files and targets) from a plain "
    "invocation: 6 files, 3 targets, mode, "
    "metric, length, 3 time limits, 3 limits per pipeline, workers, output directory, "
    "names of the model and the script, verbosity, dry run, arguments as str, list or of "
    "the process; 12 invalid invocations",
    "thorough": "as quick with one more deviation",
}
ASSUMPTIONS = [
    "the formatter called for exported code is a stand-in (it is not installed here)"
]
HEADER = ["u", "v", "kind", "amount"]
N = 20


def header_of(which):
    # the commas are detected as separator, but it is given
    return ["a,bu"] + HEADER[1:] if which == "BIG.CSV" else HEADER


def table(which=None):
    rows = []
    for i in range(N):
        kind = ["big", "small", "tiny"][(i * 7) % 5 % 3]
        if which == "BIG.CSV":
            kind = "0," + kind
        rows.append([round((i * 7) % 5 + 0.25, 2), round((i * 3) % 4 / 2 + 0.3, 2), kind,
                     round(3.3 * ((i * 7) % 5) + i * 0.11, 2)])
    return rows


FILES = {  # name -> (separator, header)
    "plain.csv": (",", True), "semi.csv": (";", True), "bare.csv": (",", False),
    "pipe.csv": ("|", True), "data.arff": None, "BIG.CSV": ("|", True),
}


def write(folder, which):
    path = os.path.join(folder, which)
    with open(path, "w", newline="") as fh:
        if which.endswith("arff"):
            fh.write("@relation r\n@attribute u REAL\n@attribute v REAL\n"
                     "@attribute kind {big,small,tiny}\n@attribute amount REAL\n@data\n")
            for r in table():
                fh.write(",".join(map(str, r)) + "\n")
        else:
            sep, header = FILES[which]
            rows = ([header_of(which)] if header else []) + table(which)
            csv.writer(fh, delimiter=sep).writerows(rows)
    return path


def scenarios(tier):
    out = [dict(name=f"{f}-{t}", op="run", file=f, target=t)
           for f in FILES for t in ("default", "kind", "u")]
    out.append(dict(name="invalid", op="invalid"))
    return out


class Spy:
    """Notes how Gama is constructed and fitted, and gives it a small search space."""

    def __init__(self):
        self.made, self.fitted = [], []

    def __enter__(self):
        self.init, self.fit = Gama.__init__, Gama.fit
        spy = self
        names = inspect.signature(Gama.__init__)

        def init(self_, *args, **kwargs):
            bound = names.bind(self_, *args, **kwargs)
            bound.arguments["search_space"] = (
                {GaussianNB: {}, MinMaxScaler: {}} if isinstance(self_, GamaClassifier)
                else {DecisionTreeRegressor: {"max_depth": [2]}, MinMaxScaler: {}})
            bound.apply_defaults()
            given = dict(bound.arguments)
            given.pop("self")
            spy.made.append((self_, given))
            return spy.init(**bound.arguments)

        def fit(self_, x, y, *args, **kwargs):
            spy.fitted.append((self_, x, y, logging.getLogger("gama").handlers[:]))
            return spy.fit(self_, x, y, *args, **kwargs)

        Gama.__init__, Gama.fit = init, fit
        return self

    def __exit__(self, *exc):
        Gama.__init__, Gama.fit = self.init, self.fit
        return False


def body(name, p, tier):
    @contextlib.contextmanager
    def place():
        """A scratch directory to be in, with a stand-in for the formatter."""
        folder, before = tempfile.mkdtemp(dir=os.getcwd()), os.getcwd()
        path, argv = os.environ["PATH"], sys.argv
        tools = os.path.join(folder, "tools")
        os.mkdir(tools)
        black = os.path.join(tools, "black")
        with open(black, "w") as fh:
            fh.write("#!/bin/sh\nexit 0\n")
        os.chmod(black, os.stat(black).st_mode | stat.S_IXUSR)
        here = os.path.join(folder, "here")
        os.mkdir(here)
        os.environ["PATH"] = tools + os.pathsep + path
        os.chdir(here)
        try:
            yield folder, here
        finally:
            os.chdir(before)
            os.environ["PATH"] = path
            sys.argv = argv
            shutil.rmtree(folder, ignore_errors=True)

    def call(command, how, ch):
        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                if how == "list":
                    cli.main(list(command))
                elif how == "text":
                    cli.main(" ".join(command))
                else:
                    sys.argv = ["gama"] + list(command)
                    cli.main()
        e2e.fit(None, core.Chooser(), None, None, limit=2, call=go, order_dev=False)

    def tree(folder):
        out = []
        for d, _, files in os.walk(folder):
            out += [os.path.relpath(os.path.join(d, f), folder) for f in files]
        return sorted(out)

    def run_(ch, rec):
        opt = dict(
            mode=ch.pick((None, "classification", "regression"), "mode", dev=True),
            metric=ch.pick((None, 0, 1), "metric", dev=True),
            long=ch.flag("long", dev=True), t=ch.pick((None, 1, 90), "time", dev=True),
            single=ch.pick((None, 1, 7), "time for a pipeline", dev=True),
            n=ch.pick((None, 2, -1), "workers", dev=True),
            out=ch.flag("output directory", dev=True),
            o=ch.flag("model file", dev=True), py=ch.flag("script", dev=True),
            v=ch.flag("verbose", dev=True), dry=ch.flag("dry run", dev=True),
            how=ch.pick(("list", "text", "process"), "arguments", dev=True),
            detect=ch.flag("separator not given", dev=True),
        )
        dialect = FILES[p["file"]]
        names = header_of(p["file"]) if dialect is None or dialect[1] else ["0", "1", "2", "3"]
        t = 3 if p["target"] == "default" else HEADER.index(p["target"])
        mode = opt["mode"] or ("classification" if t == 2 else "regression")
        if opt["mode"] and opt["mode"] != ("classification" if t == 2 else "regression"):
            if t != 0:
                raise core.Prune()  # text can not be regressed on, floats have no classes
            mode = opt["mode"]
            if mode == "classification":
                raise core.Prune()
        metric = None if opt["metric"] is None else dict(
            classification=("accuracy", "f1_macro"), regression=("r2", "neg_mean_absolute_error")
        )[mode][opt["metric"]]
        with place() as (folder, here):
            path = write(folder, p["file"])
            command = [path]
            if p["target"] != "default":
                command += ["--target", names[t]]
            if opt["detect"] and dialect is not None:
                with open(path) as fh:
                    text = fh.read(2 ** 12)
                found = csv.Sniffer().sniff(text).delimiter, csv.Sniffer().has_header(text)
                if found != dialect:
                    raise core.Prune()  # not even Python's own detection gets it right
            elif dialect is not None:
                command += ["-sep", dialect[0]]
            for flag, value in (("--mode", opt["mode"]), ("-m", metric), ("-t", opt["t"]),
                                ("--time_pipeline", opt["single"]), ("-n", opt["n"])):
                if value is not None:
                    command += [flag, str(value)]
            outdir = os.path.join(folder, "logs")
            command += ["--long"] * opt["long"] + ["-v"] * opt["v"] + ["-dry"] * opt["dry"]
            command += ["-outdir", outdir] if opt["out"] else []
            command += ["-o", "other.bin"] if opt["o"] else []
            command += ["-py", "script.py"] if opt["py"] else []
            if opt["how"] == "process":
                command = command[1:] + command[:1]
            what = " ".join(os.path.basename(c) for c in command)
            with e2e.session(4), Spy() as spy:
                call(command, opt["how"], ch)
            core.check(len(spy.made) == 1, f"{what}: {len(spy.made)} instances made")
            g, given = spy.made[0]
            core.check(type(g) is (GamaClassifier if mode == "classification"
                                   else GamaRegressor), f"{what}: {type(g).__name__}")
            want = dict(
                regularize_length=not opt["long"], max_total_time=60 * (opt["t"] or 60),
                max_eval_time=60 * (opt["single"] or 5), n_jobs=opt["n"] or 1,
                verbosity=logging.INFO if opt["v"] else logging.WARNING,
                scoring=metric or dict(classification="neg_log_loss",
                                       regression="neg_mean_squared_error")[mode],
            )
            for k, v in want.items():
                core.check(given[k] == v, f"{what}: {k} is {given[k]}, not {v}")
            where = given["output_directory"]
            core.check((where and os.path.abspath(where)) == (outdir if opt["out"] else None),
                       f"{what}: output in {where}")
            left = tree(here)
            logs = [f for f in left if f.startswith("gama_") and os.sep in f]
            left = [f for f in left if f not in logs]
            if opt["dry"]:
                core.check(not spy.fitted, f"{what}: dry run called fit")
                core.check(left == [] and logs == [] and not tree(folder + "/logs"),
                           f"{what}: dry run left {left + logs}")
            else:
                data(spy, t, names, what)
                files = ["other.bin" if opt["o"] else "gama_model.pkl"]
                if opt["py"]:
                    files.append("script.py")
                core.check(left == sorted(files), f"{what}: files {left}, not {files}")
                kept = tree(outdir) if opt["out"] else [os.path.basename(f) for f in logs]
                core.check(not (opt["out"] and logs), f"{what}: logs in {logs}")
                core.check({"gama.log", "evaluations.log"} <= set(kept), f"{what}: {kept}")
                with open(files[0], "rb") as fh:
                    model = pickle.load(fh)
                x = spy.fitted[0][1]
                x = g._prepare_for_prediction(x)
                core.check(list(model.predict(x)) == list(g.model.predict(x)),
                           f"{what}: the stored model predicts something else")
                if opt["py"]:
                    with open("script.py") as fh:
                        code = fh.read()
                    core.check(
                        sorted(code.splitlines())
                        == sorted(g.export_script(file=None).splitlines()),
                        f"{what}: the script is not that of the model")
                    space = {}
                    exec(code, space)
                    core.check("pipeline" in space, f"{what}: no pipeline in the script")
        rec.state(name, tuple(map(str, opt.values())))
        rec.sample(what)

    def data(spy, t, names, what):
        core.check(len(spy.fitted) == 1, f"{what}: fit was called {len(spy.fitted)} times")
        _, x, y, _ = spy.fitted[0]
        x, y = pd.DataFrame(x), pd.Series(y)
        rest = [j for j in range(4) if j != t]
        core.check(list(x.columns) == [names[j] for j in rest],
                   f"{what}: features {list(x.columns)}")
        for i, row in enumerate(table(p["file"])):
            for j, k in enumerate(rest):
                core.check(x.iloc[i, j] == row[k],
                           f"{what}: row {i} has {x.iloc[i, j]}, not {row[k]}")
            core.check(y.iloc[i] == row[t] or t == 2,
                       f"{what}: target of row {i} is {y.iloc[i]}, not {row[t]}")
        if t == 2:  # labels may have been encoded, but not mixed up
            pairs = {(row[2], y.iloc[i]) for i, row in enumerate(table(p["file"]))}
            core.check(len(pairs) == 3 and len({b for _, b in pairs}) == 3,
                       f"{what}: classes are {sorted(map(str, pairs))}")

    BAD = {
        "absent": (["absent.csv"], FileNotFoundError),
        "extension": (["{folder}/data.txt"], ValueError),
        "mode": (["{csv}", "--mode", "clustering"], ValueError),
        "metric": (["{csv}", "-m", "nonsense"], ValueError),
        "target": (["{csv}", "--target", "absent"], ValueError),
        "time": (["{csv}", "-t", "0"], ValueError),
        "negative": (["{csv}", "-t", "-3"], ValueError),
        "eval": (["{csv}", "--time_pipeline", "-1"], ValueError),
        "workers": (["{csv}", "-n", "0"], ValueError),
        "word": (["{csv}", "-n", "many"], SystemExit),
        "unknown": (["{csv}", "--nonsense"], SystemExit),
        "taken": (["{csv}", "-outdir", "{folder}"], ValueError),
    }

    def invalid(ch, rec):
        which = ch.pick(list(BAD), "invocation")
        dry = ch.flag("dry run")
        how = ch.pick(("list", "text", "process"), "arguments")
        with place() as (folder, here):
            path = write(folder, "plain.csv")
            with open(os.path.join(folder, "data.txt"), "w") as fh:
                fh.write("a,b\n1,2\n")
            before = tree(folder)
            command, error = BAD[which]
            command = [c.format(csv=path, folder=folder) for c in command]
            command += ["-dry"] * dry
            with e2e.session(4), Spy() as spy, contextlib.redirect_stderr(io.StringIO()):
                try:
                    call(command, how, ch)
                except error:
                    pass
                else:
                    raise core.Violation(f"{which} was accepted")
            core.check(not spy.fitted, f"{which}: fit was called")
            core.check([f for f in tree(folder) if f not in before
                        and os.path.basename(f) not in ("gama.log",)] == [],
                       f"{which} left {tree(folder)}")
        rec.state(name, which, dry, how)

    return dict(run=run_, invalid=invalid)[p["op"]]


def run(name, p, rec, tier):
    deep = name in ("plain.csv-default", "semi.csv-kind", "data.arff-u", "bare.csv-kind")
    core.explore(body(name, p, tier), rec, bound=1 + deep + (tier == "thorough"))
