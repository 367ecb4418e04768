"""C17: formatting and encoding keep rows, labels and categories apart and together."""
import itertools

import numpy as np
import pandas as pd
from gama.data_formatting import format_x_y, format_y
from gama.utilities.preprocessing import (
    basic_encoding,
    basic_pipeline_extension,
    select_categorical_columns,
)
from sklearn.linear_model import LinearRegression
from sklearn.pipeline import Pipeline

from mc import core

LEVEL = "model_checking"
RULE = (
    "one execution = one data set formatted (or encoded) by the real code; state = (kinds "
    "of the columns, of the containers, of the index, which labels are missing)"
)
BOUNDS = {
    "quick": "5 rows, all 31 sets of missing labels, 3 containers of features, 5 of labels, "
    "5 kinds of index, all pairs of 12 kinds of columns; encoding of all triples of 9 kinds "
    "of columns and of pairs with up to 300 categories, new data "
    "with known, unseen and missing categories",
    "thorough": "as quick with triples of columns for formatting and 4-tuples for encoding",
}
ASSUMPTIONS = ["labels are numbers or text; None and NaN stand for a missing label"]

N = 5
COLUMNS = {
    "float": [0.5, 1.25, -2.0, 3.5, 0.75],
    "int": [3, 1, 4, 1, 5],
    "whole": [3.0, 1.0, 4.0, 1.0, 5.0],
    "whole-nan": [3.0, np.nan, 4.0, 1.0, 5.0],
    "float-nan": [0.5, np.nan, np.nan, 1.5, 2.0],
    "text": ["b", "a", "c", "a", "b"],
    "text-none": ["b", None, "c", "a", "b"],
    "bool": [True, False, True, True, False],
    "allnan": [np.nan] * 5,
    "constant": [7.5] * 5,
    "negative": [-1, -2, -3, -1, 0],
    "big": [10 ** 6, 2, 10 ** 6, 5, 3],
}
CATEGORICAL = {"int", "whole", "whole-nan", "text", "text-none", "bool", "allnan",
               "negative", "big"}
INDEX = {
    "range": list(range(N)), "shifted": [10, 11, 12, 13, 14], "reversed": [4, 3, 2, 1, 0],
    "duplicate": [0, 0, 1, 1, 1], "text": list("vwxyz"),
}
LABELS = {
    "int": [2, 5, 2, 5, 9], "float": [0.5, 1.5, 2.5, 0.5, 1.5],
    "text": ["no", "yes", "no", "maybe", "yes"],
}


def scenarios(tier):
    out = []
    for container in ("array", "object", "frame"):
        for target in ("series", "array", "column", "frame", "frame2"):
            out.append(dict(name=f"rows-{container}-{target}", op="rows",
                            container=container, target=target))
        out.append(dict(name=f"columns-{container}", op="columns", container=container,
                        k=2 + (tier == "thorough")))
    out.append(dict(name="many", op="many"))
    out.append(dict(name="names", op="names"))
    out.append(dict(name="target", op="target"))
    for task in ("classification", "regression"):
        for first in ENC:
            out.append(dict(name=f"encode-{task}-{first}", op="encode", task=task,
                            first=first, k=2 + (tier == "thorough")))
        for first in LARGE:
            out.append(dict(name=f"encode-{task}-{first}", op="encode", task=task,
                            first=first, k=1, large=True))
    out.append(dict(name="select", op="select"))
    out.append(dict(name="refuse", op="refuse"))
    return out


SMALL_M = M = 26
SMALL = ENC = {
    "float": [float(i % 7) + 0.5 for i in range(M)],
    "float-nan": [np.nan if i % 9 == 4 else i / 3 for i in range(M)],
    "cat1": pd.Categorical(["only"] * M),
    "cat2": pd.Categorical(["ab"[i % 2] for i in range(M)]),
    "cat2-nan": pd.Categorical([("a", "b", None)[i % 3] for i in range(M)]),
    "cat3": pd.Categorical(["abc"[(i * 5) % 3] for i in range(M)]),
    "cat10": pd.Categorical([f"k{i % 10}" for i in range(M)]),
    "cat10-nan": pd.Categorical([None if i % 11 == 10 else f"k{i % 11}" for i in range(M)]),
    "cat11": pd.Categorical([f"k{i % 11}" for i in range(M)]),
    "catint": pd.Categorical([i % 4 for i in range(M)]),
    "cat13-nan": pd.Categorical([None if i % 14 == 3 else f"v{i % 14}" for i in range(M)]),
}
LARGE_M = 330
LARGE = {
    "cat300": pd.Categorical([f"k{i % 300}" for i in range(LARGE_M)]),
    "cat101": pd.Categorical([f"k{i % 101}" for i in range(LARGE_M)]),
    "cat40-nan": pd.Categorical([None if i % 41 == 3 else f"v{i % 41}"
                                 for i in range(LARGE_M)]),
    "catint200": pd.Categorical([i % 200 for i in range(LARGE_M)]),
    "cat7": pd.Categorical([f"v{i % 7}" for i in range(LARGE_M)]),
}


def null(v):
    return v is None or (isinstance(v, float) and np.isnan(v))


def same(a, b):
    if null(a) or null(b):
        return null(a) and null(b)
    return a == b


def body(name, p, tier):
    def build_x(columns, container, index):
        if container == "frame":
            return pd.DataFrame({f"c{i}": COLUMNS[c] for i, c in enumerate(columns)},
                                index=INDEX[index])
        rows = [[COLUMNS[c][r] for c in columns] for r in range(N)]
        if container == "object":
            return np.array(rows, dtype=object)
        return np.array(rows, dtype=float)

    def build_y(labels, target, index):
        index = INDEX[index]
        if target == "series":
            return pd.Series(labels, index=index)
        if target == "frame":
            return pd.DataFrame({"y": labels}, index=index)
        if target == "frame2":
            return pd.DataFrame({"y": labels, "other": ["x"] * len(labels)}, index=index)
        array = pd.Series(labels).to_numpy()
        return array.reshape(-1, 1) if target == "column" else array

    def snapshot(o):
        if isinstance(o, np.ndarray):
            return o.copy()
        return o.copy(deep=True)

    def unchanged(o, before):
        if isinstance(o, np.ndarray):
            return o.shape == before.shape and all(
                same(a, b) for a, b in zip(o.ravel(), before.ravel()))
        ok = o.equals(before) and list(o.index) == list(before.index)
        if isinstance(o, pd.DataFrame):
            ok = ok and list(o.columns) == list(before.columns)
            ok = ok and list(o.dtypes) == list(before.dtypes)
        return ok

    def compare(x, y, gx, gy, columns, labels, missing, what, y_type):
        keep = [i for i in range(N) if i not in missing]
        core.check(isinstance(gx, pd.DataFrame), f"{what}: features are {type(gx)}")
        core.check(isinstance(gy, y_type), f"{what}: labels are {type(gy)}")
        core.check(len(gx) == len(gy) == len(keep),
                   f"{what}: {len(gx)} rows and {len(gy)} labels, not {len(keep)}")
        got = list(gy.iloc[:, 0] if isinstance(gy, pd.DataFrame) else gy)
        want = [labels[i] for i in keep]
        core.check(all(same(a, b) for a, b in zip(got, want)),
                   f"{what}: labels {got}, not {want}")
        core.check(gx.index.equals(gy.index), f"{what}: rows are labelled differently")
        core.check(gx.shape[1] == len(columns), f"{what}: {gx.shape[1]} columns")
        for j, c in enumerate(columns):
            got = list(gx.iloc[:, j])
            want = [COLUMNS[c][i] for i in keep]
            core.check(all(same(a, b) for a, b in zip(got, want)),
                       f"{what}: column {c} is {got}, not {want}")

    def rows(ch, rec):
        labels_kind = ch.pick(list(LABELS), "labels")
        xi = ch.pick(list(INDEX), "index of x") if p["container"] == "frame" else "range"
        yi = (ch.pick(list(INDEX), "index of y")
              if p["target"] not in ("array", "column") else "range")
        mask = ch.choose(2 ** N - 1, "missing labels")
        y_type = ch.pick((pd.Series, pd.DataFrame), "kind of y wanted")
        columns = ["float", "int"] if p["container"] == "array" else ["float", "text"]
        missing = {i for i in range(N) if mask >> i & 1}
        labels = [
            (None if labels_kind == "text" else np.nan) if i in missing else v
            for i, v in enumerate(LABELS[labels_kind])
        ]
        x = build_x(columns, p["container"], xi)
        y = build_y(labels, p["target"], yi)
        bx, by = snapshot(x), snapshot(y)
        what = f"x {p['container']}/{xi}, y {p['target']}/{yi} {labels}"
        gx, gy = format_x_y(x, y, y_type=y_type)
        compare(x, y, gx, gy, columns, labels, missing, what, y_type)
        gx, gy = format_x_y(x, y, y_type=y_type, remove_unlabeled=False)
        compare(x, y, gx, gy, columns, labels, set(), what + " (all rows)", y_type)
        core.check(unchanged(x, bx) and unchanged(y, by), f"{what}: data was changed")
        rec.state(name, labels_kind, xi, yi, mask, y_type.__name__)

    def columns(ch, rec):
        usable = [
            c for c in COLUMNS
            if p["container"] != "array"
            or not (c.startswith("text") or c == "bool")
        ]
        cols = [ch.pick(usable, f"column {i}") for i in range(p["k"])]
        x = build_x(cols, p["container"], "range")
        y = pd.Series(LABELS["int"])
        before = snapshot(x)
        what = f"{p['container']} of {cols}"
        gx, gy = format_x_y(x, y)
        compare(x, y, gx, gy, cols, LABELS["int"], set(), what, pd.Series)
        core.check(unchanged(x, before), f"{what}: data was changed")
        for j, c in enumerate(cols):
            got = isinstance(gx.iloc[:, j].dtype, pd.CategoricalDtype)
            if p["container"] == "frame":
                core.check(gx.iloc[:, j].dtype == x.iloc[:, j].dtype,
                           f"{what}: type of {c} became {gx.iloc[:, j].dtype}")
            else:
                core.check(got == (c in CATEGORICAL),
                           f"{what}: {c} is {'' if got else 'not '}seen as categorical")
        rec.state(name, tuple(cols))

    def many(ch, rec):
        """At most ten distinct whole numbers are categories; fractions never are."""
        k = 9 + ch.choose(3, "distinct values")
        kind = ch.pick(("int", "whole", "whole-nan", "half", "float32", "uint8"), "kind")
        n = ch.pick((24, 300, 4000), "rows")
        late = ch.flag("differs only at the end")
        values = [i % k for i in range(n)]
        if late:  # what matters is in the last row
            values = [min(i % k, k - 2) for i in range(n - 1)] + [k - 1]
        if kind == "half":
            values[-1 if late else 3] = 0.5
        if kind == "whole-nan":
            values[5] = values[6] = np.nan
        dtype = dict(int=int, float32="float32", uint8="uint8").get(kind, float)
        x = np.array([[v, 0.5 + i] for i, v in enumerate(values)], dtype=float)
        x = x[:, :1].astype(dtype) if dtype in (int, "uint8") else x.astype(dtype)
        gx, _ = format_x_y(x, np.arange(n) % 2)
        got = isinstance(gx.iloc[:, 0].dtype, pd.CategoricalDtype)
        distinct = len({v for v in values if not null(v)})
        core.check(got == (distinct <= 10 and kind != "half"),
                   f"{distinct} distinct values of kind {kind}: categorical is {got}")
        rec.state(name, k, kind, n, late)

    def names(ch, rec):
        """Whatever the names of the columns, they are kept, as text."""
        first = ch.pick(("a", 0, 2.5, ("t", 1)), "first name")
        second = ch.pick(("b", 1, "1.5"), "second name")
        container = ch.pick(("frame", "rows"), "index")
        x = pd.DataFrame([[0.5, 1], [1.5, 0], [2.5, 1]], columns=["x", "y"])
        x.columns = pd.Index([first, second], tupleize_cols=False)
        x.index = [0, 1, 2] if container == "frame" else ["p", "q", "q"]
        before = x.copy(deep=True)
        gx, gy = format_x_y(x, np.array([0, 1, 0]))
        core.check(list(gx.columns) == [str(c) for c in before.columns],
                   f"columns {[first, second]} are named {list(gx.columns)}")
        core.check((gx.to_numpy() == before.to_numpy()).all(), "values changed")
        core.check(all(type(a) is type(b) and a == b
                       for a, b in zip(x.columns, before.columns))
                   and x.equals(before), f"the data with columns {[first, second]} changed")
        rec.state(name, str(first), str(second), container)

    def target(ch, rec):
        """Indicator matrices and vectors as target."""
        shape = ch.pick(("vector", "column", "indicator2", "indicator3"), "shape")
        y_type = ch.pick((pd.Series, pd.DataFrame), "kind wanted")
        n = 4
        code = ch.choose(3 ** n, "labels")
        want = [code // 3 ** i % 3 for i in range(n)]
        if shape == "indicator2":
            want = [w % 2 for w in want]
        if shape.startswith("indicator"):
            y = np.zeros((n, int(shape[-1])))
            for i, w in enumerate(want):
                y[i, w] = 1
        else:
            y = np.array(want)
            if shape == "column":
                y = y.reshape(-1, 1)
        before = y.copy()
        got = format_y(y, y_type)
        core.check(isinstance(got, y_type), f"{shape}: {type(got)}")
        values = list(got.iloc[:, 0] if y_type is pd.DataFrame else got)
        core.check(values == want, f"{shape}: {values}, not {want}")
        core.check((y == before).all(), f"{shape}: the target was changed")
        rec.state(name, shape, y_type.__name__, code)

    def encode(ch, rec):
        is_clf = p["task"] == "classification"
        ENC, M = (LARGE, LARGE_M) if p.get("large") else (SMALL, SMALL_M)
        cols = [p["first"]] + [ch.pick(list(ENC), f"column {i}") for i in range(p["k"])]
        x = pd.DataFrame({f"c{i}": ENC[c] for i, c in enumerate(cols)})
        for i, c in enumerate(cols):  # as dtypes of repeated kinds are shared
            x[f"c{i}"] = x[f"c{i}"].copy()
        before = x.copy(deep=True)
        y = pd.Series([(i * 3) % 5 + i / 7 for i in range(M)])
        if is_clf:
            y = (y * 7).astype(int) % 2
        what = f"{p['task']} {cols}"
        enc, pipe = basic_encoding(x, is_clf)
        core.check(unchanged(x, before), f"{what}: data was changed")
        core.check(len(enc) == M and list(enc.index) == list(x.index), f"{what}: rows")
        again = pipe.transform(x)
        core.check(list(again.columns) == list(enc.columns) and again.equals(enc),
                   f"{what}: encoding the same data again gives something else")
        for i, c in enumerate(cols):
            part = derived(enc, i)
            levels = x[f"c{i}"].nunique()
            if not c.startswith("cat"):
                core.check(part.shape[1] == 1 and part.iloc[:, 0].equals(x[f"c{i}"]),
                           f"{what}: numeric column {c} was changed")
                continue
            if levels >= 11 and not is_clf:
                core.check(part.shape[1] == 1 and
                           isinstance(part.iloc[:, 0].dtype, pd.CategoricalDtype),
                           f"{what}: {c} is encoded before the folds are made")
                continue
            numeric = all(d.kind in "if" for d in part.dtypes)
            core.check(numeric, f"{what}: {c} is encoded as {list(part.dtypes)}")
            if 3 <= levels <= 10:
                core.check(part.isin([0, 1]).all(axis=None)
                           and part.shape[1] in (levels, levels + 1),
                           f"{what}: {c} is not one hot encoded: {part.shape[1]} columns")
            elif c == "cat1":
                continue  # nothing to tell apart
            else:
                core.check(part.shape[1] == 1, f"{what}: {c} has {part.shape[1]} columns")
            groups = {}
            for r in range(M):
                v = x[f"c{i}"].iloc[r]
                code = tuple(part.iloc[r])
                core.check(groups.setdefault("nan" if null(v) else v, code) == code,
                           f"{what}: {c}={v} is encoded in two ways")
            core.check(len(set(groups.values())) == len(groups),
                       f"{what}: two categories of {c} are encoded alike")
        # new data: other rows, unseen and missing categories
        new = before.iloc[[3, 1, 2]].copy()
        for i, c in enumerate(cols):
            if c.startswith("cat"):
                other = 9999 if c.startswith("catint") else "unseen"
                new[f"c{i}"] = pd.Categorical(
                    [other, before[f"c{i}"].iloc[1], None],
                    categories=[*before[f"c{i}"].cat.categories, other])
            else:
                new.iloc[0, i] = np.nan  # also if nothing was missing before
        coded = pipe.transform(new)
        core.check(list(coded.columns) == list(enc.columns),
                   f"{what}: new data gets other columns")
        for i, c in enumerate(cols):
            levels = x[f"c{i}"].nunique()
            if c.startswith("cat") and not (levels >= 11 and not is_clf):
                a, b = derived(coded, i).iloc[1], derived(enc, i).iloc[1]
                core.check(list(a) == list(b), f"{what}: known category of {c} differs")
        rec.state(name, tuple(cols))
        if not enc.shape[1]:
            return
        steps = basic_pipeline_extension(enc, is_clf)
        model = Pipeline(steps + [("model", LinearRegression())])
        model.fit(enc, y)
        for data in (enc, coded):
            got = model.predict(data)
            core.check(len(got) == len(data) and np.isfinite(got).all(),
                       f"{what}: predictions are {got}")
        rec.sample(list(enc.columns)[:6])

    def derived(enc, i):
        return enc[[c for c in enc.columns if c == f"c{i}" or c.startswith(f"c{i}_")]]

    def select(ch, rec):
        lo = ch.pick((None, 1, 2, 3, 4), "min")
        hi = ch.pick((None, 1, 2, 3, 4), "max")
        ignore = ch.flag("ignore nan")
        data = {
            "n": [1.0, 2.0, 3.0, 4.0], "a": pd.Categorical(list("pppp")),
            "b": pd.Categorical(["p", "q", None, "p"]), "c": pd.Categorical(list("pqrp")),
            "d": pd.Categorical(["p", "q", "r", None]), "e": ["p", "q", "r", "s"],
            "f": pd.Categorical(list("ppqq"), categories=list("pqrstu")),
        }
        count = dict(a=(1, 1), b=(2, 3), c=(3, 3), d=(3, 4), f=(2, 2))
        want = [
            c for c, (without, with_) in count.items()
            if (lo is None or lo <= (without if ignore else with_))
            and (hi is None or (without if ignore else with_) <= hi)
        ]
        got = list(select_categorical_columns(pd.DataFrame(data), lo, hi, ignore))
        core.check(got == want, f"columns with {lo}-{hi} categories: {got}, not {want}")
        rec.state(name, lo, hi, ignore)

    def refuse(ch, rec):
        x, y = np.zeros((3, 2)), np.array([0, 1, 0])
        which = ch.pick(("x list", "x series", "y list", "y tuple", "y none", "type"), "bad")
        args = {
            "x list": (x.tolist(), y), "x series": (pd.Series([1, 2, 3]), y),
            "y list": (x, y.tolist()), "y tuple": (x, tuple(y)), "y none": (x, None),
            "type": (x, y),
        }[which]
        try:
            format_x_y(*args, **(dict(y_type=list) if which == "type" else {}))
        except (TypeError, ValueError):
            rec.state(name, which)
            return
        raise core.Violation(f"{which} was accepted")

    return dict(rows=rows, columns=columns, many=many, target=target, encode=encode,
                names=names, select=select, refuse=refuse)[p["op"]]


def run(name, p, rec, tier):
    core.explore(body(name, p, tier), rec)
