"""C24: files are loaded as what they say, and used as the data in them."""
import csv
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from gama import GamaClassifier, GamaRegressor
from gama.data_loading import (
    X_y_from_file,
    arff_to_pandas,
    csv_to_pandas,
    file_to_pandas,
    load_csv_header,
    load_feature_metadata_from_file,
)
from gama.search_methods import RandomSearch
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from mc import core, e2e, spaces

LEVEL = "model_checking"
RULE = (
    "one execution = one file written by the check and loaded (or fitted, scored, predicted "
    "on) by the real code; state = (columns, names, dialect, target)"
)
BOUNDS = {
    "quick": "all pairs of 8 kinds of columns, 8 kinds of names, 3 separators, with and "
    "without header, given or detected, with and without final newline or empty line, every target (at most 2 of these unusual at once); ARFF "
    "headers with 7 kinds of names, 8 types, 4 spellings; models fitted on "
    "files and used on all subsets of 7 rows of other files",
    "thorough": "as quick with triples of columns, all pairs of attributes, and subsets of 9 rows",
}
ASSUMPTIONS = [
    "files whose dialect Python's own csv sniffer detects correctly, or for which it is "
    "given; ARFF files that the ARFF standard (as read by liac-arff) allows"
]

N = 12
KINDS = {
    "float": [round(0.37 * i - 1.21, 2) for i in range(N)],
    "few": [[3, 1, 4][i % 3] for i in range(N)],
    "many": [100 + 7 * i for i in range(N)],
    "text": [["red", "green", "blue"][i * i % 3] for i in range(N)],
    "odd": [["a, b", "c; d", "say \"hi\""][i % 3] for i in range(N)],
    "blanks": [[" left", "right ", "in  side"][i % 3] for i in range(N)],
    "floatgap": [None if i % 5 == 2 else round(1.5 * i + 0.25, 2) for i in range(N)],
    "textgap": [None if i % 4 == 1 else ["up", "down"][i % 2] for i in range(N)],
}
CATEGORICAL = {"few", "text", "odd", "blanks", "textgap"}
NAMES = {
    "plain": "{k}{i}", "space": "{k} no {i}", "sep": "{k}, {i}; {i}", "number": "{i}",
    "quote": 'the "{k}" {i}', "prefix": "{r}", "blank": "{k}{i} ", "case": "{w}",
}
SEPS = (",", ";", "\t")


def scenarios(tier):
    out = []
    for first in KINDS:
        for sep in SEPS:
            out.append(dict(name=f"csv-{first}-{SEPS.index(sep)}", op="csv", first=first,
                            sep=sep, k=1 + (tier == "thorough")))
    for style in range(4):
        out.append(dict(name=f"arff-{style}", op="arff", style=style))
    for task in ("clf", "reg"):
        for ext in ("csv", "arff", "odd.csv", "latin.arff"):
            out.append(dict(name=f"model-{task}-{ext}", op="model", task=task, ext=ext,
                            n=7 + 2 * (tier == "thorough")))
        out.append(dict(name=f"long-{task}", op="long", task=task,
                        rows=(40, 700, 5000) + (60000,) * (tier == "thorough")))
    out.append(dict(name="refuse", op="refuse"))
    return out


def body(name, p, tier):
    def scratch(fn):
        def inner(ch, rec):
            folder = tempfile.mkdtemp(dir=os.getcwd())
            try:
                fn(ch, rec, folder)
            finally:
                shutil.rmtree(folder, ignore_errors=True)
        return inner

    def same(got, want):
        if want is None:
            return got is None or got != got
        if isinstance(want, float):
            return abs(float(got) - want) < 1e-9
        return got == want

    def compare(df, cols, what):
        core.check(len(df) == N and df.shape[1] == len(cols), f"{what}: shape {df.shape}")
        for j, kind in enumerate(cols):
            for r in range(N):
                core.check(same(df.iloc[r, j], KINDS[kind][r]),
                           f"{what}: row {r} of column {j} is {df.iloc[r, j]!r}, "
                           f"not {KINDS[kind][r]!r}")
            got = isinstance(df.iloc[:, j].dtype, pd.CategoricalDtype)
            core.check(got == (kind in CATEGORICAL),
                       f"{what}: column {j} ({kind}) has type {df.iloc[:, j].dtype}")
            if not got:
                core.check(df.iloc[:, j].dtype.kind in "if",
                           f"{what}: column {j} ({kind}) has type {df.iloc[:, j].dtype}")

    def split(path, names, df, what, **kw):
        """Every column (or none) as target."""
        for target in [None] + list(range(len(names))):
            x, y = X_y_from_file(
                path, split_column=None if target is None else names[target], **kw)
            t = len(names) - 1 if target is None else target
            core.check(isinstance(x, pd.DataFrame) and isinstance(y, pd.Series), what)
            core.check(y.equals(df.iloc[:, t]), f"{what}: wrong target for {target}")
            rest = [j for j in range(len(names)) if j != t]
            core.check(x.equals(df.iloc[:, rest]), f"{what}: wrong features for {target}")
        for absent in ("absent column", names[0].strip(), names[0] + " ", names[-1].upper()):
            if absent in names:
                continue
            try:
                X_y_from_file(path, split_column=absent, **kw)
            except ValueError:
                continue
            raise core.Violation(f"{what}: absent target column {absent!r} is not refused")

    def a_csv(ch, rec, folder):
        cols = [p["first"]] + [ch.pick(list(KINDS), "column") for _ in range(p["k"])]
        style = ch.pick(list(NAMES) + ["none"], "names", dev=True)
        given = ch.pick(("", "both", "sep", "header"), "dialect given", dev=True)
        newline = ch.pick(("\n", "\r\n", "", "\n\n"), "newline", dev=True)
        ext = ch.pick(("csv", "CSV", "Csv"), "extension", dev=True)
        names = [str(i) for i in range(len(cols))] if style == "none" else [
            NAMES[style].format(k=c, i=i, r="c" * (i + 1), w=("Col", "col", "COL")[i]) for i, c in enumerate(cols)]
        text = io.StringIO(newline="")
        w = csv.writer(text, delimiter=p["sep"], lineterminator=newline.replace("\n\n", "") or "\n")
        if style != "none":
            w.writerow(names)
        for r in range(N):
            w.writerow([KINDS[c][r] for c in cols])
        text = text.getvalue()
        if not newline:
            text = text[:-1]
        if newline == "\n\n":
            text += "\n"  # the file ends in an empty line
        path = os.path.join(folder, f"data.set.{ext}")
        with open(path, "w", newline="") as fh:
            fh.write(text)
        detected = None
        try:
            with open(path) as fh:
                first = fh.read(2 ** 12)
            detected = csv.Sniffer().sniff(first).delimiter, csv.Sniffer().has_header(first)
        except csv.Error:
            pass
        right = detected == (p["sep"], style != "none")
        if given != "both" and (detected is None
                                or given != "sep" and detected[0] != p["sep"]
                                or given != "header" and detected[1] != (style != "none")):
            raise core.Prune()
        kw = dict(sep=p["sep"], header=None if style == "none" else 0)
        kw = {k: v for k, v in kw.items() if given in (k, "both")}
        what = f"{cols} names {style} sep {p['sep']!r} given: {given or 'nothing'}"
        df = csv_to_pandas(path, **kw)
        compare(df, cols, what)
        core.check(list(df.columns) == names, f"{what}: columns {list(df.columns)}")
        core.check(file_to_pandas(path, **kw).equals(df), f"{what}: file_to_pandas differs")
        split(path, names, df, what, **kw)
        if right:
            core.check(load_csv_header(path) == names,
                       f"{what}: header {load_csv_header(path)}, not {names}")
            meta = load_feature_metadata_from_file(path)
            core.check(list(meta) == names, f"{what}: metadata {list(meta)}, not {names}")
            rec.count("headers detected")
        if detected is not None and detected[1] == (style != "none"):
            got = load_csv_header(path, sep=p["sep"])
            core.check(got == names, f"{what}: header {got} with separator, not {names}")
        rec.state(name, tuple(cols), style, given, newline, ext)

    MANY = "{" + ",".join(f"v{i}" for i in range(150)) + "}"
    QUOTE = ("plain", "double", "single", "under_score", "spaced single", "percent", "case")
    TYPES = ("REAL", "NUMERIC", "INTEGER", "real", "{a,b}", "{'x y', z}", "STRING", MANY)
    VALUES = {
        "REAL": [1.5, None, -2.0], "NUMERIC": [3.0, 4.5, 100.0], "INTEGER": [1, 2, 3],
        "real": [0.0, 0.25, 7.0], "{a,b}": ["a", "b", None],
        "{'x y', z}": ["x y", "z", "x y"], "STRING": ["one", "two", "three"],
        MANY: ["v149", "v0", "v77"],
    }

    def an_arff(ch, rec, folder):
        attribute = ("@attribute", "@ATTRIBUTE", "@Attribute", "@attribute")[p["style"]]
        gap = (" ", "  ", "\t", " ")[p["style"]]
        relation = p["style"] != 3  # else it starts at once
        newline = "\r\n" if p["style"] == 1 else "\n"
        lines, names, types = [], [], []
        if relation:
            lines += ["% a comment", ""]
        lines += ["@RELATION test" if relation else "@relation 'a test'"]
        for i in range(2):
            dev = bool(i) and tier == "quick"
            quote = ch.pick(QUOTE, "name", dev=dev)
            kind = ch.pick(TYPES, "type", dev=dev)
            bare = {"plain": f"n{i}", "double": f"name {i}", "single": f"it{i}",
                    "under_score": f"n_{i}-a.b", "spaced single": f"a b {i}",
                    "percent": f"p{i}", "case": ("Name", "name")[i]}[quote]
            shown = {"double": f'"{bare}"', "single": f"'{bare}'",
                     "spaced single": f"'{bare}'"}.get(quote, bare)
            lines.append(f"{attribute} {shown}{gap}{kind}")
            if quote == "percent":
                lines.append("% @attribute not real")
            names.append(bare)
            types.append(kind)
        lines += ["", "@DATA" if p["style"] == 1 else "@data"]
        for r in range(3):
            row = []
            for t in types:
                v = VALUES[t][r]
                row.append("?" if v is None else f"'{v}'" if " " in str(v) else str(v))
            lines.append(",".join(row))
        final = ch.flag("final newline", dev=True)
        ext = ch.pick(("arff", "ARFF"), "extension", dev=True)
        path = os.path.join(folder, f"data.{ext}")
        with open(path, "w", newline="") as fh:
            fh.write(newline.join(lines) + (newline if final else ""))
        what = f"{list(zip(names, types))} style {p['style']}"
        df = arff_to_pandas(path)
        core.check(list(df.columns) == names and len(df) == 3, f"{what}: {df}")
        for j, t in enumerate(types):
            for r in range(3):
                core.check(same(df.iloc[r, j], VALUES[t][r]), f"{what}: {df}")
            core.check(isinstance(df.iloc[:, j].dtype, pd.CategoricalDtype)
                       == t.startswith("{"), f"{what}: type {df.iloc[:, j].dtype} of {t}")
        core.check(file_to_pandas(path).equals(df), f"{what}: file_to_pandas differs")
        split(path, names, df, what)
        meta = load_feature_metadata_from_file(path)
        core.check(list(meta) == names, f"{what}: metadata names {list(meta)}")
        core.check([v.strip() for v in meta.values()] == types,
                   f"{what}: metadata types {list(meta.values())}")
        rec.state(name, tuple(names), tuple(types), final, ext)

    models = {}

    def table():
        n = 26
        rows = [(round(0.5 * i - 3.3, 2), [3, 1, 4][i % 3], 100 + 7 * (i * 5 % n),
                 ["red", "green", "blue", "red"][i % 4],
                 None if i % 7 == 2 else round(((i * 11) % n) * 1.5 + 0.25, 2))
                for i in range(n)]
        y = []
        for a, f, m, t, g in rows:
            if p["task"] == "clf":
                y.append("yes" if (m > 180) ^ (t == "red") else "no")
            else:
                y.append(round(m * 0.01 + (2.5 if t == "red" else 0.3), 3))
        return [r + (v,) for r, v in zip(rows, y)]

    HEADER = ["a", "few", "many", "text", "gap", "class"]

    LATIN = {"red": "r\xf6d", "green": "gr\xfcn", "blue": "bl\xe5"}

    def write(path, rows, order):
        header = [HEADER[j] for j in order]
        rows = [[r[j] for j in order] for r in rows]
        latin = p["ext"] == "latin.arff"
        with open(path, "w", newline="", encoding="latin-1" if latin else None) as fh:
            if p["ext"] == "odd.csv":
                # only readable as told: a line to skip, columns separated by "/", no
                # header, a word for missing values
                fh.write("This, as they say; is not part of it\n")
                w = csv.writer(fh, delimiter="/")
                w.writerows([["missing" if v is None else v for v in r] for r in rows])
                return
            if p["ext"] == "csv":
                w = csv.writer(fh)
                w.writerow(header)
                w.writerows(rows)
                return
            fh.write("@relation r\n")
            for h in header:
                text = "{red,green,blue}"
                if latin:
                    text = "{" + ",".join(LATIN.values()) + "}"
                    h = {"text": "t\xebxt"}.get(h, h)
                kind = {"text": text, "t\xebxt": text, "few": "{1,3,4}"}.get(h, "REAL")
                if h == "class" and p["task"] == "clf":
                    kind = "{no,yes}"
                fh.write(f"@attribute {h} {kind}\n")
            fh.write("@data\n")
            for r in rows:
                fh.write(",".join("?" if v is None else LATIN.get(v, v) if latin and
                                  isinstance(v, str) else str(v) for v in r) + "\n")

    def model(last):
        """Fitted on a file, and on the data in it."""
        if last in models:
            return models[last]
        cls = GamaClassifier if p["task"] == "clf" else GamaRegressor
        tree = DecisionTreeClassifier if p["task"] == "clf" else DecisionTreeRegressor
        metric = "accuracy" if p["task"] == "clf" else "neg_mean_absolute_error"
        folder = tempfile.mkdtemp(dir=os.getcwd())
        path = os.path.join(folder, f"train.{p['ext']}")
        odd = p["ext"] == "odd.csv"
        order = list(range(6)) if last else [5, 0, 1, 2, 3, 4]
        write(path, table(), order)
        kw = {} if last else dict(target_column="0" if odd else "class")
        given = {
            "csv": dict(sep=",", header=0), "arff": {},
            "odd.csv": dict(sep="/", header=None, skiprows=1, na_values=["missing"]),
            "latin.arff": dict(encoding="latin-1"),
        }[p["ext"]]
        out = []
        for how in ("file", "memory"):
            with e2e.session(2):
                g = spaces.new_gama(
                    {tree: {"max_depth": [6], "random_state": list(range(9))}}, cls=cls,
                    scoring=metric, search=RandomSearch())
                if how == "file":
                    begin = [g._operator_set.individual() for _ in range(2)]
                    seen = []
                    g.evaluation_completed(
                        lambda e: seen.append(e.individual.pipeline_str()))
                    e2e.fit(g, core.Chooser(), None, None, limit=3,
                            call=lambda: g.fit_from_file(path, warm_start=begin, **kw,
                                                         **given))
                    core.check(seen[:2] == [i.pipeline_str() for i in begin],
                               f"fitting on a file starts with {seen[:2]}")
                    g = spaces.new_gama({tree: {"max_depth": [6], "random_state": [0]}},
                                        cls=cls, scoring=metric, search=RandomSearch())
                    e2e.fit(g, core.Chooser(), None, None, limit=1,
                            call=lambda: g.fit_from_file(path, **kw, **given))
                else:
                    x, y = X_y_from_file(path, split_column=kw.get("target_column"), **given)
                    g = spaces.new_gama({tree: {"max_depth": [6], "random_state": [0]}},
                                        cls=cls, scoring=metric, search=RandomSearch())
                    e2e.fit(g, core.Chooser(), x, y, limit=1)
                out.append(g)
        models[last] = out + [folder, order, kw, given]
        return models[last]

    def use(ch, rec):
        last = ch.flag("target elsewhere") ^ 1
        g, memory, folder, order, kw, given = model(last)
        rows = table()
        mask = ch.choose(2 ** p["n"] - 1, "rows") + 1
        chosen = [3 * i + 1 for i in range(p["n"]) if mask >> i & 1]
        path = os.path.join(folder, f"test.{p['ext']}")
        write(path, [rows[i] for i in chosen], order)
        everything = os.path.join(folder, f"all.{p['ext']}")
        write(everything, rows, order)
        what = f"{p['task']} {p['ext']}, rows {chosen}"
        got = g.predict_from_file(path, **kw, **given)
        if "all" not in models:
            models["all"] = {}
        if last not in models["all"]:
            models["all"][last] = g.predict_from_file(everything, **kw, **given)
        full = models["all"][last]
        core.check(len(got) == len(chosen), f"{what}: {len(got)} predictions")
        core.check(list(got) == [full[i] for i in chosen],
                   f"{what}: predicted {list(got)}, in the whole file "
                   f"{[full[i] for i in chosen]}")
        x, y = X_y_from_file(path, split_column=kw.get("target_column"), **given)
        core.check(list(memory.predict(x)) == list(got),
                   f"{what}: the model fitted on the data in the file differs")
        if p["task"] == "clf" and (p["ext"] != "odd.csv"):
            how = {k: v for k, v in given.items() if k == "encoding"}
            right = p["ext"] != "csv"
            if not right:
                try:
                    with open(path) as fh:
                        text = fh.read()
                    right = (csv.Sniffer().sniff(text).delimiter == ","
                             and csv.Sniffer().has_header(text))
                except csv.Error:
                    pass
            if right:
                proba = g.predict_proba_from_file(path, **kw, **how)
                core.check(np.array_equal(proba, memory.predict_proba(x)),
                           f"{what}: the probabilities differ from those in memory")
                rec.count("probabilities")
        truth = [rows[i][5] for i in chosen]
        score = g.score_from_file(path, **kw, **given)
        if p["task"] == "clf":
            want = np.mean([a == b for a, b in zip(got, truth)])
        else:
            want = np.mean([abs(a - b) for a, b in zip(got, truth)])
        core.check(abs(abs(score) - want) < 1e-9, f"{what}: score {score}, not {want}")
        rec.state(name, last, mask)

    @scratch
    def long(ch, rec, folder):
        """Long files are read to the end, and what comes late counts."""
        n = ch.pick(p["rows"], "rows")
        late = ch.pick(("nothing", "text", "float", "missing", "value", "wide"), "late")
        at = ch.pick((n - 1, n - 9, 2 * n // 3), "row")
        special = dict(nothing=5, text="word", float=2.5, missing=None, value=77,
                       wide="w" * 5000)[late]
        rows = [[i * 3, i % 4, "u" if i % 3 else "v", round(0.5 * i, 1)] for i in range(n)]
        rows[at][1] = special
        path = os.path.join(folder, "long.csv")
        with open(path, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(["first col", "second", "third", "target"])
            w.writerows(rows)
        what = f"{n} rows, {late} in row {at}"
        df = csv_to_pandas(path)
        core.check(df.shape == (n, 4), f"{what}: shape {df.shape}")
        core.check(list(df.columns) == ["first col", "second", "third", "target"],
                   f"{what}: {list(df.columns)}")
        for j in (0, 2, 3):
            core.check(list(df.iloc[:, j]) == [r[j] for r in rows], f"{what}: column {j}")
        second = list(df.iloc[:, 1])
        for i, (a, r) in enumerate(zip(second, rows)):
            want = r[1]
            core.check(str(a) == str(want) or want is None and a != a
                       or isinstance(a, float) and not isinstance(want, str) and a == want,
                       f"{what}: row {i} holds {a!r}, not {want!r}")
        if late in ("text", "wide"):
            core.check(isinstance(df.iloc[:, 1].dtype, pd.CategoricalDtype),
                       f"{what}: type {df.iloc[:, 1].dtype}")
        core.check(load_csv_header(path) == list(df.columns), f"{what}: header")
        if n == 40:
            x, y = X_y_from_file(path)
            core.check(len(x) == len(y) == n, f"{what}: split")
        rec.state(name, n, late, at)

    @scratch
    def refuse(ch, rec, folder):
        which = ch.pick(("txt", "none", "data", "csvx", "header"), "file")
        fn = ch.pick((file_to_pandas, X_y_from_file, load_feature_metadata_from_file,
                      load_csv_header), "function")
        path = os.path.join(folder, dict(txt="a.txt", none="csv", data="data",
                                         csvx="a.csvx", header="a.arff")[which])
        with open(path, "w") as fh:
            fh.write("a,b\n1,2\n3,4\n" if which != "header"
                     else "@relation r\n@attribute a real\n")
        if which == "header" and fn is load_feature_metadata_from_file:
            # no data section: the attributes, or an error, but it has to end
            try:
                core.check(list(fn(path)) == ["a"], "attributes of a file without data")
            except ValueError:
                pass
            rec.state(name, which, fn.__name__)
            return
        try:
            fn(path)
        except Exception as e:
            core.check(which == "header" or isinstance(e, ValueError),
                       f"{fn.__name__} of {which}: {type(e).__name__}")
            rec.state(name, which, fn.__name__)
            return
        raise core.Violation(f"{fn.__name__} accepts {os.path.basename(path)}")

    return dict(csv=scratch(a_csv), arff=scratch(an_arff), model=use, refuse=refuse,
                long=long)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec, bound=1 if p["op"] == "arff" else 2)
