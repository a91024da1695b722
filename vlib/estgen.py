"""Datasets and plain references shared by the checks of the effect estimators."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, RegressorMixin

LABELS = [[0, 1], [1, 2], [3, 7], [-1, 1], ["no", "yes"], ["b", "a"], ["10", "9"], [0.5, 2.0], [0, 10], [False, True], [9, 10]]
LABELS3 = [[0, 1, 2], [5, 2, 9], [9, 10, 100], ["lo", "mid", "hi"], ["c", "a", "b"], [-1, 0, 1], ["2", "10", "1"], [10, 20, 30]]
WNAMES = ["w0", "w1", "age"]
VNAMES = ["v0", "v1", "income"]
MANY = [list(range(11)), [str(i) for i in range(1, 12)], ["k%d" % i for i in range(12)]]
# column names: some are parts of others, or told apart by a space or a case only
NAMES = {"plain": (["x0", "x1", "x2"], ["y0", "y1"], WNAMES, VNAMES),
         "odd": (["t", "t 1", "T"], ["effect", "y.0"], ["w1", "w10", "w"], ["v_1", "v", "x0"]),
         "short": (["u", "t", "x"], ["y", "o"], ["c", "b", "a"], ["f", "w", "d"])}
SIZES = [130, 260, 520, 1030, 2060]
WDTYPES = ["uint8", "int8", "int64", "bool"]
INDEXES = ["range", "shifted", "shuffled", "strings", "duplicated"]


class OLS(RegressorMixin, BaseEstimator):
    """Least squares of minimal norm.  The LinearRegression of scikit-learn is wrong by up to some percent on
    about one in 500 designs with all the levels of a one-hot encoding, which the S learner gives it."""

    def fit(self, X, y, sample_weight=None):
        X, y = np.asarray(X, float), np.asarray(y, float)
        w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight, float)
        r = np.sqrt(w)
        mx, my = np.average(X, axis=0, weights=w), np.average(y, axis=0, weights=w)
        A, b = (X - mx) * r[:, None], (y - my) * (r if y.ndim == 1 else r[:, None])
        coef = np.linalg.lstsq(A, b, rcond=1e-9)[0]
        self.coef_ = coef.T
        self.intercept_ = my - mx @ coef
        self.n_features_in_ = X.shape[1]
        return self

    def predict(self, X):
        return np.asarray(X, float) @ self.coef_.T + self.intercept_


@st.composite
def spec(draw, max_treat=2, max_levels=3, max_y=2, n=(12, 30), min_w=0, min_v=0, classes=False, binary=False, cats=False, three=False, many=False, odd=True, big=0, wide=False):
    k = draw(st.integers(1, max_treat))
    if three and k == max_treat and draw(st.integers(0, 3)) == 0:
        k = 3
    pools = LABELS if binary or max_levels == 2 else LABELS + LABELS3
    nw, nv = draw(st.integers(min_w, 2)), draw(st.integers(min_v, 2))
    if nw + nv == 0:
        nw = 1
    out = dict(levels=[draw(st.sampled_from(pools)) for _ in range(k)],
               nw=nw, nv=nv, ny=draw(st.integers(1, max_y)), n=draw(st.integers(*n)),
               seed=draw(st.integers(0, 10**6)), index=draw(st.sampled_from(INDEXES)),
               str_names=draw(st.booleans()), missing=draw(st.booleans()) if k > 1 else False, classes=None)
    if k == 3:
        long = draw(st.integers(0, 3))
        out["levels"] = [lv if i == long else lv[:2] for i, lv in enumerate(out["levels"])]
        out["missing"] = False
    if many and k == 1 and draw(st.integers(0, 11)) == 7:
        out["levels"] = [draw(st.sampled_from(MANY))]
    out["naming"] = draw(st.sampled_from(["plain", "plain", "plain", "odd", "short"])) if odd else "plain"
    out["dtype"] = draw(st.sampled_from([None, None, None, "category"])) if odd else None
    out["wdtype"] = draw(st.sampled_from([None] * 7 + WDTYPES)) if wide else None
    if big and draw(st.integers(1, big)) == (2 * big) // 3:
        out["n"] = draw(st.sampled_from(SIZES))
    if cats:
        out["cats"] = draw(st.sampled_from([None, None, 1, 2, 5]))
    if classes:
        out["classes"] = draw(st.sampled_from([[0, 1], [1, 2], ["n", "y"], [0, 1, 2], ["c", "a", "b"], [4, 2], [9, 10, 11]]))
    return out


def names(s):
    x, y, w, v = NAMES[s.get("naming", "plain")]
    return x[:len(s["levels"])], y[:s["ny"]], w[:s["nw"]], v[:s["nv"]]


def arg(cols, as_str):
    """the way a user names some columns: None, a string or a list"""
    if not cols:
        return None
    return cols[0] if as_str and len(cols) == 1 else list(cols)


def level_order(s):
    """the levels of each treatment, in the order of the categories given, else sorted"""
    out = []
    for lv in s["levels"]:
        lv = sorted(lv)
        if s.get("cats") is not None and isinstance(lv[0], str):
            lv = [lv[i] for i in np.random.RandomState(s["cats"]).permutation(len(lv))]
        out.append(lv)
    return out


def categories(s):
    """the argument which asks for this order"""
    return "auto" if s.get("cats") is None else level_order(s)


def trim(s, most):
    """at most so many combinations of treatment values"""
    while np.prod([len(lv) for lv in s["levels"]]) > most:
        i = max(range(len(s["levels"])), key=lambda j: (len(s["levels"][j]), j * (-1) ** s["seed"]))
        s["levels"][i] = s["levels"][i][:2]


def align(s, first):
    """categories are options of the estimator: the same in all its fits"""
    if first is not None and "cats" in s:
        s["cats"] = first["cats"]
        if s["cats"] is not None:
            s["levels"] = first["levels"]
            s["missing"] = first["missing"]


def combos(s):
    out = [[]]
    for lv in level_order(s):
        out = [o + [x] for o in out for x in lv]
    return [tuple(o) for o in out]


def index_of(kind, n, rng):
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "shifted":
        return pd.RangeIndex(7, 7 + n)
    if kind == "shuffled":
        return pd.Index(rng.permutation(n))
    if kind == "strings":
        return pd.Index(["r%d" % i for i in rng.permutation(n)])
    return pd.Index(np.repeat(np.arange((n + 1) // 2), 2)[:n])


def frame(s, per_group=3, n=None, seed=None):
    """A confounded dataset with at least `per_group` rows per treatment combination (and per class)."""
    rng = np.random.RandomState(s["seed"] if seed is None else seed)
    x, y, w, v = names(s)
    cs = combos(s)
    if s.get("missing") and len(cs) > 3:
        cs = cs[:-1]
    ncls = len(s["classes"]) if s["classes"] else 1
    n = max(s["n"], len(cs) * per_group * ncls) if n is None else n
    ids = np.arange(n) % len(cs)
    cls = (np.arange(n) // len(cs)) % ncls
    perm = rng.permutation(n)
    ids, cls = ids[perm], cls[perm]
    W = rng.randn(n, len(w) + len(v))
    W[:, 0] += 0.4 * ids
    d = {}
    for i, c in enumerate(x):
        d[c] = [cs[k][i] for k in ids]
    for j, c in enumerate(y):
        if s["classes"]:
            d[c] = [s["classes"][k] for k in cls]
        else:
            d[c] = ((1 + j) * ids + W @ rng.randn(W.shape[1]) + (W[:, 0] * ids) * 0.5 + 0.3 * rng.randn(n))
    df = pd.DataFrame(d)
    for i, c in enumerate(w + v):
        df[c] = W[:, i]
    df["other"] = rng.randn(n)
    retype(s, df)
    if s.get("dtype"):
        for c in x:
            df[c] = df[c].astype(s["dtype"])
    df = df[list(rng.permutation(df.columns))]
    df.index = index_of(s["index"], n, rng)
    return df


def new_rows(s, n, seed):
    """covariates and adjustments only, which is all that estimating needs"""
    rng = np.random.RandomState(seed)
    _, _, w, v = names(s)
    df = pd.DataFrame(rng.randn(n, len(w) + len(v)) * 1.5, columns=list(rng.permutation(w + v)))
    df.index = index_of(s["index"], n, rng)
    return retype(s, df)


def alike(df, seed):
    """other rows which look like the given table: the same columns, index and number of rows"""
    rng = np.random.RandomState(seed)
    out = pd.DataFrame({c: df[c].to_numpy()[rng.permutation(len(df))] for c in df.columns})
    out.index = df.index
    return out.astype({c: t for c, t in df.dtypes.items() if str(t) == "category"})


def mask(df, cols, combo):
    m = np.ones(len(df), dtype=bool)
    for c, value in zip(cols, combo):
        m &= np.array([e == value for e in df[c]])
    return m


def rows():
    """numbers of new rows: mostly few"""
    return st.one_of(*[st.integers(2, 9)] * 12, st.sampled_from([33, 129, 300, 1025]))


def retype(s, df):
    """other types of numbers in the first column of the covariates or adjustments"""
    if s.get("wdtype"):
        _, _, w, v = names(s)
        c = (w + v)[s["seed"] % len(w + v)]
        z = df[c].to_numpy(float)
        df[c] = (z > 0.3) if s["wdtype"] == "bool" else np.clip((1.5 * z).round() + 4, 0, 100).astype(s["wdtype"])
    return df


def wrap_label(combo, form):
    """ways to give a treatment value"""
    if len(combo) == 1 and form == "scalar":
        return combo[0]
    if form == "tuple":
        return tuple(combo)
    if form == "array" and len({isinstance(i, str) for i in combo}) == 1:
        return np.array(combo)
    return list(combo)
