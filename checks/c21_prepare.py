"""C21: tabular preparation keeps the information of a table: encoding, cleaning, general preprocessing, selection."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.harness import Check, expect, expect_close
from sklearn.impute import SimpleImputer
from sklearn.preprocessing import MinMaxScaler, OneHotEncoder, PolynomialFeatures, StandardScaler
from ylearn.sklearn_ex import DataCleaner, DataFrameMapper, FeatureImportancesSelectionTransformer, SafeOrdinalEncoder, general_preprocessor
from ylearn.utils import infer_task_type

check = Check("C21", "at least two columns, of different kinds, and a second table with values the first did not have or in another column order",
              ["the importances themselves (a random forest's) are not predicted, only what is selected from them"])

LEVELS = {"str": ["a", "b", "B", "", "10", "9", "zz", "nan?"], "int": [-3, 0, 1, 2, 7, 100], "float": [-1.5, 0.0, 0.1, 2.0, 1e6], "bool": [False, True]}


@st.composite
def column(draw, kinds=("str", "int", "float", "bool"), n=0):
    kind = draw(st.sampled_from(kinds))
    k = draw(st.integers(1, len(LEVELS[kind])))
    lv = draw(st.permutations(LEVELS[kind]))[:k]
    return dict(kind=kind, values=[lv[i % k] for i in draw(st.lists(st.integers(0, 20), min_size=n, max_size=n))])


def series(col):
    return pd.Series(col["values"], dtype={"str": object, "int": "int64", "float": "float64", "bool": bool}[col["kind"]])


@st.composite
def tables(draw, missing=False, kinds=("str", "int", "float", "bool")):
    n, m = draw(st.integers(2, 12)), draw(st.integers(0, 8))
    cols = [draw(column(kinds, n)) for _ in range(draw(st.integers(1, 5)))]
    for c in cols:
        c["more"] = [LEVELS[c["kind"]][i % len(LEVELS[c["kind"]])] for i in draw(st.lists(st.integers(0, 20), min_size=m, max_size=m))]
        c["cat"] = draw(st.booleans()) if c["kind"] == "str" else draw(st.integers(0, 9)) < 2
        c["hole"] = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=3)))) if missing and (c["kind"] in ("str", "float") or c["cat"]) else []
    return dict(cols=cols, index=draw(st.sampled_from(["range", "shift", "str", "rev"])), perm=draw(st.permutations(range(len(cols)))), order=draw(st.booleans()))


def index(kind, n):
    return {"range": pd.RangeIndex(n), "shift": pd.Index([100 + 3 * i for i in range(n)]), "str": pd.Index([f"r{i}" for i in range(n)]), "rev": pd.Index(list(range(n))[::-1])}[kind]


def frame(case, key="values", cats=True):
    out = {}
    for i, c in enumerate(case["cols"]):
        s = series(dict(kind=c["kind"], values=c[key]))
        if key == "values":
            for j in c.get("hole", []):
                if j < len(s) and (c["kind"] in ("str", "float") or cats):
                    s = s.where(np.arange(len(s)) != j, np.nan)
        if cats and c["cat"]:
            s = s.astype("category")
        out[f"c{i}"] = s
    df = pd.DataFrame(out)
    df.index = index(case["index"], len(df))
    return df


def nontrivial(case):
    return len({c["kind"] for c in case["cols"]}) > 1 and len(case["cols"]) > 1


# ---------------------------------------------------------------- ordinal codes
@check.sub("codes", tables(), quick=500, thorough=20000, shards=2)
def codes(case, ctx):
    if case["perm"][0] == len(case["perm"]) - 1:
        # whole numbers that no float holds
        for c in case["cols"]:
            if c["kind"] == "int":
                c["values"], c["more"] = [v + 2**60 for v in c["values"]], [v + 2**60 for v in c["more"]]
                ctx.event("long numbers")
    df, more = frame(case, cats=False), frame(case, "more", cats=False)
    kinds = {c["kind"] for c in case["cols"]}
    array = len(kinds) == 1 and case["order"]
    cats = [sorted(set(c["values"])) for c in case["cols"]]
    unseen = [[v not in k for v in c["more"]] for c, k in zip(case["cols"], cats)]
    ctx.nontrivial(nontrivial(case) and any(map(any, unseen)))
    E = SafeOrdinalEncoder()
    E.fit(df.values if array else df)
    for tag, D in (("seen", df), ("new", more)):
        if len(D) == 0:
            continue
        before = D.copy()
        out = E.transform(D.values if array else D)
        back = E.inverse_transform(out)
        expect(D.equals(before), "transform changes the %s table", tag)
        if not array:
            expect(isinstance(out, pd.DataFrame) and list(out.columns) == list(D.columns) and out.index.equals(D.index), "encoding the %s table loses its columns or row labels", tag)
            expect(list(back.columns) == list(D.columns) and back.index.equals(D.index), "decoding the %s table loses its columns or row labels", tag)
        got, orig, dec = np.asarray(out, float), D.values, back.astype(object).to_numpy() if isinstance(back, pd.DataFrame) else np.asarray(back, object)
        for j, (c, k) in enumerate(zip(case["cols"], cats)):
            for i in range(len(D)):
                v = D.iloc[:, j].tolist()[i]
                want = k.index(v) if v in k else len(k)
                expect(got[i, j] == want, "%s row %d column %d: value %r of %r has code %r", tag, i, j, v, k, got[i, j])
                if v in k:
                    expect(dec[i, j] == v, "%s row %d column %d: %r comes back as %r", tag, i, j, v, dec[i, j])
                else:
                    expect(dec[i, j] is None or dec[i, j] != dec[i, j] or dec[i, j] not in k, "a value the training table did not have comes back as the category %r", dec[i, j])


# ------------------------------------------------------------- general preprocessing
@check.sub("preprocess", tables(missing=True), quick=300, thorough=10000, shards=2)
def preprocess(case, ctx):
    df, more = frame(case), frame(case, "more")
    if any(c["kind"] == "float" and len(c["hole"]) >= len(c["values"]) for c in case["cols"]) or any(c["kind"] == "str" and len(c["hole"]) >= len(c["values"]) for c in case["cols"]):
        ctx.reject("a column without any value")
    ctx.nontrivial(nontrivial(case))
    before = df.copy()
    scale = dict(number_scaler=True) if case["order"] else {}
    P = general_preprocessor(**scale)
    first = P.fit_transform(df)
    Q = general_preprocessor(**scale)
    Q.fit(df)
    expect(df.equals(before), "preprocessing changes the table it was given")
    pairs = [("fitted table", df, first), ("same table again", df, P.transform(df)), ("fit, then transform", df, Q.transform(df))]
    if len(more):
        pairs.append(("new table", more, P.transform(more)))
        perm = [f"c{i}" for i in case["perm"]]
        pairs.append(("new table with its columns in another order", more, P.transform(more[perm])))
    for tag, D, out in pairs:
        expect(isinstance(out, pd.DataFrame) and sorted(out.columns) == sorted(D.columns) and len(out.columns) == len(D.columns), "%s: columns %r instead of %r", tag, list(out.columns), list(D.columns))
        expect(out.index.equals(D.index), "%s: row labels %r instead of %r", tag, list(out.index), list(D.index))
        for j, c in enumerate(case["cols"]):
            name, vals = f"c{j}", frame(case)[f"c{j}"]
            got = np.asarray(out[name], float)
            if c["kind"] in ("int", "float") and not c["cat"]:
                mean = float(np.nanmean(vals.to_numpy(float)))
                want = D[name].to_numpy(float)
                want = np.where(np.isnan(want), mean, want)
                if scale:
                    x = np.where(np.isnan(vals.to_numpy(float)), mean, vals.to_numpy(float))
                    if len(set(x)) > 1:
                        want = (want - x.mean()) / x.std()
                    else:
                        want = want - x.mean()
            elif c["kind"] != "str" and c["cat"]:
                # categories that are numbers: by rank, and what is missing or new apart from them
                k = sorted(set(float(x) for x in vals.dropna().tolist()))
                known = [x == x and float(x) in k for x in D[name].tolist()]
                expect(all(known[i] or (got[i] == got[i] and got[i] not in range(len(k))) for i in range(len(got))), "%s, column %s: codes %r for %r of the categories %r", tag, name, got.tolist(), D[name].tolist(), k)
                got = got[known]
                want = [k.index(float(x)) for x, y in zip(D[name].tolist(), known) if y]
            else:
                k = sorted({"" if x != x else x for x in vals.tolist()})
                want = [k.index(x) if x in k else len(k) for x in ["" if x != x else x for x in D[name].tolist()]]
            expect_close(got, want, f"{tag}, column {name} ({c['kind']})")


# -------------------------------------------------------------------- cleaner
@st.composite
def cleaning(draw):
    case = draw(tables(missing=True))
    n = len(case["cols"][0]["values"])
    case["inf"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.booleans()), max_size=2))
    case["dup"] = draw(st.booleans())
    for c in case["cols"]:
        if c["kind"] == "str" and draw(st.integers(0, 2)) == 0:  # numbers as text, some missing or marked
            c["values"] = [draw(st.sampled_from(["10", "9", "-1.5", "1e3", "nan?"])) for _ in c["values"]]
    case["y"] = draw(st.sampled_from(["none", "series", "hole", "unaligned"]))
    names = [f"c{i}" for i in range(len(case["cols"]))] + (["c0dup"] if case["dup"] else [])
    case["opt"] = dict(drop_constant_columns=draw(st.booleans()), drop_idness_columns=draw(st.booleans()), drop_duplicated_columns=draw(st.booleans()), drop_label_nan_rows=draw(st.booleans()),
                       drop_columns=draw(st.sampled_from([None, None, names[:1]])), reserve_columns=draw(st.sampled_from([None, None, names[-1:], names])),
                       int_convert_to=draw(st.sampled_from([None, "float"])), correct_object_dtype=draw(st.booleans()), nan_chars=draw(st.sampled_from([None, "nan?", ["zz", "nan?"]])))
    case["reduce"] = draw(st.booleans())
    case["far"] = draw(st.sampled_from([1, 1, 3, 400, 10**6, 1e300]))
    case["append"] = draw(st.sampled_from([None, None, "before", "after"]))
    return case


@check.sub("clean", cleaning(), quick=400, thorough=15000, shards=2)
def clean(case, ctx):
    df = frame(case, cats=False)
    o = case["opt"]
    floats = [f"c{i}" for i, c in enumerate(case["cols"]) if c["kind"] == "float"]
    for r, pos in case["inf"]:
        for c in floats[:1]:
            df.loc[df.index[r], c] = np.inf if pos else -np.inf
    if case["dup"]:
        df["c0dup"] = df["c0"]
    n = len(df)
    y = None
    if case["y"] != "none":
        y = pd.Series(np.arange(n, dtype=float), index=df.index, name="y")
        if case["y"] == "hole":
            y.iloc[:: 3] = np.nan
    ylist = None if y is None else y.tolist()
    before = df.copy()
    dc = DataCleaner(**o)
    out, yo = dc.fit_transform(df, y)
    expect(df.equals(before) and (y is None or pd.Series(ylist, index=df.index).equals(y.rename(None))), "cleaning changes what it was given although a copy was asked for")
    rows = [i for i in range(n) if y is None or not o["drop_label_nan_rows"] or ylist[i] == ylist[i]]
    if y is not None:
        expect(len(yo) == len(rows) and list(yo.index) == [df.index[i] for i in rows], "the outcome's rows are %r", list(yo.index))
        expect_close(yo, [ylist[i] for i in rows], "outcome values")
    else:
        expect(yo is None, "an outcome appears")
    # the reference table: NaN markers, then rows, then columns
    ref = before.copy()
    if o["nan_chars"]:
        marks = [o["nan_chars"]] if isinstance(o["nan_chars"], str) else o["nan_chars"]
        for c in ref.columns:
            if ref[c].dtype == object:
                ref[c] = [np.nan if x in marks else x for x in ref[c]]
    ref = ref.iloc[rows]
    kept = list(ref.columns)
    reserved = o["reserve_columns"] or []
    kind = {f"c{i}": c["kind"] for i, c in enumerate(case["cols"])}
    kind["c0dup"] = kind["c0"]
    if o["drop_columns"]:
        kept = [c for c in kept if c not in o["drop_columns"]]
    key = {c: tuple("NaN" if x != x else x for x in ref[c].tolist()) for c in kept}
    if o["drop_duplicated_columns"]:
        first, dup = {}, []
        for c in kept:
            k = repr([float(x) if isinstance(x, (int, float, bool)) else x for x in key[c]])
            if k in first:
                dup.append(c)
            first.setdefault(k, c)
        # equality across types (1 == 1.0 == True) is left open: only same-kind duplicates are asked for
        sure = [c for c in dup if c not in reserved and any(d != c and kind[d] == kind[c] and key[d] == key[c] for d in kept[:kept.index(c)])]
        maybe = [c for c in dup if c not in reserved]
        gone = [c for c in maybe if c not in out.columns]
        if set(maybe) == set(sure):
            kept = [c for c in kept if c not in sure]
        else:
            ctx.reject("equal columns of different kinds")
    nu = {c: len({x for x in key[c] if x != "NaN"}) for c in kept}
    if o["drop_idness_columns"]:
        if len(rows) == 0:
            ctx.reject("no row left")
        kept = [c for c in kept if c in reserved or kind[c] == "float" or not nu[c] / len(rows) > 0.99]
    if o["drop_constant_columns"]:
        kept = [c for c in kept if c in reserved or nu[c] > 1]
    expect(list(out.columns) == kept, "columns %r are kept instead of %r", list(out.columns), kept)
    expect(list(out.index) == [df.index[i] for i in rows], "the rows of the table are %r", list(out.index))
    ctx.nontrivial(len(kept) < len(before.columns) and len(kept) > 0 and nontrivial(case))
    values(case, o, ref[kept], out, kind, "fitted")
    # the same table again, its columns in another order, without an outcome
    perm = sorted(before.columns, key=lambda c: hash_(c, case["perm"]))
    again = dc.transform(before[perm])
    expect(list(again.columns) == kept, "transform gives the columns %r instead of %r", list(again.columns), kept)
    expect(len(again) == n and list(again.index) == list(before.index), "transform without an outcome drops rows")
    full = before.copy()
    if o["nan_chars"]:
        for c in full.columns:
            if full[c].dtype == object:
                full[c] = [np.nan if x in marks else x for x in full[c]]
    values(case, o, full[kept], again, kind, "transformed", out)
    # with its outcome: the same rows and outcome as when fitted
    if y is not None:
        a, b = dc.transform(before, y)
        expect(list(a.index) == list(out.index) and list(b.index) == list(out.index), "transform with an outcome keeps the rows %r", list(a.index))
        expect_close(b, [ylist[i] for i in rows], "outcome values, transformed")
        values(case, o, ref[kept], a, kind, "transformed with an outcome")
    # a table with numbers the first one did not have, and a cleaner that saves memory
    dm = DataCleaner(reduce_mem_usage=case["reduce"], **o)
    if case["append"] == "before":
        dm.append_drop_columns(names_of(case, before, o))
    small = dm.fit_transform(before, y)[0]
    if case["append"] == "after":
        dm.append_drop_columns(names_of(case, before, o))
    left = kept if case["append"] is None or o["drop_duplicated_columns"] else [c for c in kept if c not in names_of(case, before, o)]
    if case["append"] is None or not o["drop_duplicated_columns"]:
        expect(list(small.columns) == (kept if case["append"] == "after" else left), "columns %r are kept instead of %r", list(small.columns), left)
    new = before.copy()
    for c in new.columns:
        if kind[c] in ("int", "float"):
            new[c] = new[c] * case["far"] + (0.5 if case["far"] == 3 else 0)
            if case["far"] == 1e300:
                new[c] = new[c].clip(-1e300, 1e300)
    kept_before = new.copy()
    far = dm.transform(new)
    expect(new.equals(kept_before), "transform changes the table it was given")
    want = new.copy()
    if o["nan_chars"]:
        for c in want.columns:
            if want[c].dtype == object:
                want[c] = [np.nan if x in marks else x for x in want[c]]
    if case["append"] is None or not o["drop_duplicated_columns"]:
        expect(list(far.columns) == left, "columns %r of a new table are kept instead of %r", list(far.columns), left)
    tol = 1e-6 if case["reduce"] else 1e-12
    values(case, o, want[list(far.columns)], far, kind, "new table", tol=tol)
    values(case, o, ref[list(small.columns)], small, kind, "fitted, with less memory", tol=tol)


def names_of(case, df, o):
    return [c for c in list(df.columns)[-1:] if c not in (o["drop_columns"] or [])]


def number(x):
    try:
        float(x)
    except ValueError:
        return False
    return True


def hash_(c, perm):
    i = int(c[1]) if c != "c0dup" else 99
    return perm.index(i) if i in perm else 99


def values(case, o, ref, out, kind, tag, first=None, tol=1e-9):
    reserved = o["reserve_columns"] or []
    for c in ref.columns:
        if c in reserved:
            a, b = ref[c].tolist(), out[c].tolist()
            same = all((x == z) or (x != x and z != z) or (isinstance(x, float) and np.isinf(x)) for x, z in zip(a, b))
            expect(same, "%s: the reserved column %s changes from %r to %r", tag, c, a, b)
            continue
        if kind[c] in ("int", "float", "bool"):
            w = ref[c].to_numpy(float)
            w = np.where(np.isinf(w), np.nan, w)
            expect_close(pd.to_numeric(out[c]).to_numpy(float), w, f"{tag}: column {c}", rtol=tol, atol=1e-9)
        else:
            if tag == "fitted" and any(x == x for x in ref[c].tolist()):
                # text is taken as numbers exactly if it is asked for and all of it can be
                numbers = o["correct_object_dtype"] and all(x != x or number(x) for x in ref[c].tolist())
                expect(pd.api.types.is_numeric_dtype(out[c].dtype) == numbers, "%s: the column %s of %r gets the type %s", tag, c, ref[c].tolist(), out[c].dtype)
            for x, z in zip(ref[c].tolist(), out[c].tolist()):
                if x == x:
                    expect(str(x) == str(z) or (not isinstance(z, str) and float(x) == z), "%s: column %s: %r becomes %r", tag, c, x, z)
                else:
                    expect(z != z or str(z) == "nan", "%s: column %s: a missing value becomes %r", tag, c, z)
        if first is not None and len(first) == len(out):
            expect(out[c].dtype == first[c].dtype, "column %s has type %s after fitting and %s after transforming the same table", c, first[c].dtype, out[c].dtype)


# ------------------------------------------------------------------ task kinds
@st.composite
def labels(draw):
    kind = draw(st.sampled_from(["int", "float", "str", "bool", "obj"]))
    k = draw(st.sampled_from([2, 2, 3, 4, 7, 12]))
    n = draw(st.integers(2, 60))
    vals = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    return dict(kind=kind, vals=vals, hole=draw(st.booleans()), series=draw(st.booleans()), off=draw(st.integers(-3, 3)))


@check.sub("task", labels(), quick=400, thorough=20000)
def task(case, ctx):
    kind, off = case["kind"], case["off"]
    raw = [v + off for v in case["vals"]]
    if kind == "str":
        v = [f"l{x}" for x in raw]
        y = pd.Series(v, dtype=object)
    elif kind == "bool":
        v = [x % 2 == 0 for x in raw]
        y = pd.Series(v, dtype=bool)
    elif kind == "float":
        v = [x * 0.5 for x in raw]
        y = pd.Series(v, dtype=float)
    elif kind == "obj":
        v = [f"o{x}" for x in raw]
        y = pd.Series(v, dtype=object)
    else:
        v = raw
        y = pd.Series(v, dtype="int64")
    hole = case["hole"] and kind in ("float", "str", "obj")
    if hole:
        y.iloc[0] = np.nan if kind != "obj" else None
        v = v[1:]
    if len(set(v)) < 2:
        ctx.reject("fewer than two labels")
    ctx.nontrivial(hole or len(set(v)) > 2)
    t, lab = infer_task_type(y if case["series"] else y.values)
    u, n = len(set(v)), len(y)
    if u == 2:
        want = "binary"
    elif kind == "float":
        want = "regression"
    elif kind == "int":
        want = "regression" if u > n ** 0.382 else "multiclass"
    else:
        want = "multiclass"
    expect(t == want, "%r (%s) is taken as %s instead of %s", y.tolist(), kind, t, want)
    expect(lab == ([] if want == "regression" else sorted(set(v))), "labels %r", lab)


# ------------------------------------------------------------ feature selection
@st.composite
def selections(draw):
    strategy = draw(st.sampled_from(["threshold", "quantile", "number"]))
    return dict(seed=draw(st.integers(0, 10**6)), n=draw(st.integers(45, 80)), noise=draw(st.integers(1, 3)), cat=draw(st.booleans()), const=draw(st.booleans()), ident=draw(st.booleans()),
                y=draw(st.sampled_from(["regression", "binary", "str"])), give_task=draw(st.booleans()), implicit=draw(st.booleans()), clean=draw(st.booleans()),
                strategy=strategy, amount={"threshold": draw(st.sampled_from([0.01, 0.1, 0.5])), "quantile": draw(st.sampled_from([0.2, 0.5, 0.9])), "number": draw(st.sampled_from([1, 2, 0.3, 0.8]))}[strategy])


@check.sub("select", selections(), quick=48, thorough=1500, shards=6)
def select(case, ctx):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    df = pd.DataFrame({"k": rng.randn(n) if not case["const"] else 1.0, "s0": rng.randn(n)})
    for i in range(case["noise"]):
        df[f"z{i}"] = rng.randn(n)
    if case["cat"]:
        df["g"] = rng.choice(["a", "b", "c"], n)
    if case["ident"]:
        df["id"] = [f"u{i:04d}" for i in range(n)]
    df["s1"] = rng.randn(n)
    score = 3 * df["s0"] + 2 * df["s1"]
    y = {"regression": score, "binary": (score > 0).astype(int), "str": pd.Series(np.where(score > 0, "yes", "no"))}[case["y"]].rename("y")
    cols = list(df.columns)
    before = df.copy()
    kw = {case["strategy"]: case["amount"]}
    if not case["implicit"]:
        kw["strategy"] = case["strategy"]
    F = FeatureImportancesSelectionTransformer(task={"regression": "regression"}.get(case["y"], "binary") if case["give_task"] else None, data_clean=case["clean"], **kw)
    expect(F.fit(df, y) is F, "fit does not return the transformer")
    expect(df.equals(before), "selection changes the table")
    gone = [c for c in cols if case["clean"] and ((c == "k" and case["const"]) or c == "id")]
    imp = np.asarray(F.feature_importances_, float)
    expect(imp.shape == (len(cols),), "%d importances for %d columns", len(imp), len(cols))
    expect(list(F.feature_names_in_) == cols and F.n_features_in_ == len(cols), "the columns seen are recorded as %r", F.feature_names_in_)
    # few rows of a class leave the trees without a split
    expect(np.all(imp >= 0) and (abs(imp.sum() - 1) < 1e-6 or (case["y"] != "regression" and np.all(imp == 0))), "importances %r", imp)
    by = dict(zip(cols, imp))
    for c in gone:
        expect(by[c] == 0, "the dropped column %s has importance %r", c, by[c])
    if case["const"]:
        expect(by["k"] == 0, "the constant column has importance %r", by["k"])
    for c in [x for x in cols if x.startswith("z") or x == "g"]:
        expect(by[c] <= by["s0"] + 1e-12, "the noise column %s has importance %r, more than the signal's %r", c, by[c], by["s0"])
    kept = [c for c in cols if c not in gone]
    sel = list(F.selected_features_)
    expect(len(set(sel)) == len(sel) and set(sel) <= set(kept), "selected %r of %r", sel, kept)
    a = case["amount"]
    v = np.array([by[c] for c in kept])
    if case["strategy"] == "threshold":
        want = {c for c in kept if by[c] >= a}
        expect(set(sel) == want, "threshold %r selects %r of %r", a, sel, by)
    elif case["strategy"] == "quantile":
        q = np.quantile(v, a)
        expect(set(sel) == {c for c in kept if by[c] >= q}, "quantile %r selects %r of %r", a, sel, by)
    else:
        k = math.ceil(len(kept) * a) if isinstance(a, float) else a
        expect(len(sel) == min(k, len(kept)), "%r of %d columns selects %d", a, len(kept), len(sel))
        rest = [by[c] for c in kept if c not in sel]
        expect(not rest or not sel or min(by[c] for c in sel) >= max(rest), "selected %r although %r", sel, by)
    ctx.nontrivial(0 < len(sel) < len(kept))
    new = df.iloc[::-1][cols[::-1]]
    out = F.transform(new)
    expect(list(out.columns) == sel and out.equals(new[sel]), "transform does not give the selected columns")


# ------------------------------------------------------- columns to transformers
def steps(kind):
    """a fresh transformer of this kind, and whether it makes one column of one column"""
    return {"none": None, "scale": StandardScaler(), "minmax": MinMaxScaler(), "impute": SimpleImputer(strategy="median"), "twice": [SimpleImputer(strategy="mean"), StandardScaler()],
            "hot": OneHotEncoder(handle_unknown="ignore"), "code": SafeOrdinalEncoder(), "poly": PolynomialFeatures(2, include_bias=False), "hotlist": [SafeOrdinalEncoder(), OneHotEncoder(handle_unknown="ignore")]}[kind]


NUMERIC, ANY = ["none", "scale", "minmax", "impute", "twice", "poly", "code"], ["none", "hot", "code", "hotlist"]


@st.composite
def mappings(draw):
    n, m = draw(st.integers(3, 10)), draw(st.integers(1, 6))
    kinds = draw(st.lists(st.sampled_from(["num", "num", "str"]), min_size=2, max_size=6))
    feats = []
    for _ in range(draw(st.integers(1, 4))):
        which = draw(st.sampled_from(["num", "str"]))
        pool = [i for i, k in enumerate(kinds) if k == which]
        if pool:
            feats.append(dict(cols=draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True)), by=draw(st.sampled_from(["list", "list", "name", "call", "tuple"])),
                              how=draw(st.sampled_from(NUMERIC if which == "num" else ANY)), alias=draw(st.sampled_from([None, None, "al"])), df=draw(st.sampled_from([None, True, False]))))
    return dict(n=n, m=m, kinds=kinds, feats=feats, default=draw(st.sampled_from([False, "none", "code"])), df_out=draw(st.booleans()), input_df=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
                index=draw(st.sampled_from(["range", "shift", "str", "rev"])), long=draw(st.booleans()), types=draw(st.booleans()), perm=draw(st.booleans()))


@check.sub("mapper", mappings(), quick=400, thorough=15000, shards=2)
def mapper(case, ctx):
    rng = np.random.RandomState(case["seed"])
    names = [("a_rather_long_name_of_a_column_" if case["long"] else "c") + str(i) for i in range(len(case["kinds"]))]

    def table(n):
        d = pd.DataFrame({c: rng.randint(0, 5, n) / 2.0 if k == "num" else rng.choice(["u", "v", "w"], n).astype(object) for c, k in zip(names, case["kinds"])})
        d.index = index(case["index"], n)
        return d

    X, new = table(case["n"]), table(case["m"])
    feats, plan, taken = [], [], []
    for f in case["feats"]:
        cols = [names[i] for i in f["cols"]][:1 if f["by"] == "name" else None]
        spec = {"list": list(cols), "name": cols[0], "tuple": list(cols), "call": lambda D, cols=tuple(cols): [c for c in cols if c in D.columns]}[f["by"]]
        options = {}
        if f["alias"]:
            options["alias"] = f["alias"] + str(len(feats))
        if f["df"] is not None:
            options["input_df"] = f["df"]
        feats.append((spec, steps(f["how"])) + ((options,) if options else ()))
        left = [c for c in cols if c not in taken]
        if left:
            plan.append((left, f["how"], options.get("input_df", case["input_df"]), options.get("alias")))
            taken += left
    rest = [c for c in names if c not in taken]
    if case["default"] is not False and rest:
        plan.append((rest, case["default"], case["input_df"], None))
    if not plan:
        ctx.reject("nothing to map")
    ctx.nontrivial(len(plan) > 1 and len(taken) > 1)

    def make():
        again = [(f[0], steps(g["how"])) + tuple(f[2:]) for f, g in zip(feats, case["feats"])]
        return DataFrameMapper(again, default=False if case["default"] is False else steps(case["default"]), df_out=case["df_out"], input_df=case["input_df"],
                               df_out_dtype_transforms=[([c], "float32") for c in []] if not case["types"] else [(lambda D: [c for c in D.columns if D[c].dtype == float][:1], "float32")])

    # the reference: each step on its own columns, side by side
    def dense(a):
        return np.asarray(a.todense() if hasattr(a, "todense") else a)

    parts = {"X": [], "new": []}
    for cols, how, as_df, alias in plan:
        st_ = steps(how)
        st_ = [] if st_ is None else st_ if isinstance(st_, list) else [st_]
        a, b = (X[cols], new[cols]) if as_df else (X[cols].values, new[cols].values)
        for t in st_:
            t.fit(a)
            a, b = t.transform(a), t.transform(b)
        parts["X"].append(dense(a))
        parts["new"].append(dense(b))
    before, before_new = X.copy(), new.copy()
    A, B = make(), make()
    first = A.fit_transform(X)
    expect(B.fit(X) is B, "fit does not return the mapper")
    shuffled = new[list(new.columns)[::-1]] if case["perm"] else new
    for tag, D, got in (("X", X, first), ("X", X, A.transform(X)), ("new", new, A.transform(shuffled)), ("X", X, B.transform(X)), ("new", new, B.transform(shuffled))):
        want = np.hstack([p.astype(object) for p in parts[tag]])
        if case["df_out"]:
            expect(isinstance(got, pd.DataFrame) and got.index.equals(D.index), "the rows are labelled %r", list(got.index))
            labels = []
            for (cols, how, as_df, alias), p in zip(plan, parts[tag]):
                k = p.shape[1]
                if k == 1:
                    labels.append([alias or cols[0]] if len(cols) == 1 or alias else None)
                elif k == len(cols):
                    labels += [[c] for c in cols]
                else:
                    labels += [[(alias or "_".join(cols)) + "_" + str(i)] if alias or len("_".join(cols)) <= 64 else None for i in range(k)]
            expect(len(labels) == got.shape[1] and all(l is None or [g] == l for g, l in zip(got.columns, labels)), "the columns are called %r instead of %r", list(got.columns), labels)
            expect(len(set(got.columns)) == got.shape[1] or len(set(map(str, labels))) < len(labels), "two columns are called the same: %r", list(got.columns))
            got = got.to_numpy(dtype=object)
        got = np.asarray(got, object)
        expect(got.shape == want.shape, "%s becomes %r instead of %r", tag, got.shape, want.shape)
        for j in range(want.shape[1]):
            for g, w in zip(got[:, j].tolist(), want[:, j].tolist()):
                expect(g == w if isinstance(w, str) else abs(float(g) - float(w)) <= 1e-5 * (1 + abs(float(w))), "%s column %d is %r instead of %r", tag, j, got[:, j].tolist(), want[:, j].tolist())
    expect(X.equals(before) and new.equals(before_new), "the mapper changes the table")
    expect(list(A.feature_names_in_) == names and A.n_features_in_ == len(names), "the columns seen are recorded as %r", A.feature_names_in_)
