"""C25: what a fitted object answers depends on its options and its last training table only."""
import contextlib
import copy
import io
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.ensemble import RandomForestRegressor
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import StandardScaler
from sklearn.tree import DecisionTreeRegressor

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.causal_model import CausalGraph, CausalModel
from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
from ylearn.estimator_model import (NP2SLS, ApproxBound, CausalForest, CausalTree, CTCausalForest, DoubleML, DoublyRobust, GRForest, PermutedDoublyRobust,
                                    PermutedSLearner, PermutedTLearner, PermutedXLearner, RLoss, SLearner, TLearner, XLearner)
from ylearn.policy.policy_model import PolicyTree
from ylearn.sklearn_ex import DataCleaner, FeatureImportancesSelectionTransformer, SafeOrdinalEncoder, general_preprocessor
from ylearn.uplift import UpliftModel
from ylearn.api import Why

check = Check("C25", "at least two fits, or a copy, before a question whose answers differ between rows (or, where options are inferred, fits to two tables)",
              ["random models get an integer random_state", "equality up to rounding of sums in another order"])

REG = {"ols": eg.OLS, "tree": lambda: DecisionTreeRegressor(max_depth=4, random_state=1), "rf": lambda: RandomForestRegressor(4, max_depth=4, random_state=1)}


def clf():
    return LogisticRegression(C=0.6, tol=1e-9, max_iter=3000)


class Kind:
    spec = dict(max_treat=1, max_y=1, n=(24, 40), binary=True)
    rowwise = True

    def models(self, c):
        return dict(y=REG[c["model"]](), x=clf(), yx=REG[c["model"]]())

    def table(self, s, seed=None):
        return eg.frame(s, per_group=8, seed=seed)

    def test(self, s, n, seed):
        return eg.new_rows(s, n, seed)

    def fit(self, e, df, s):
        x, y, w, v = eg.names(s)
        e.fit(df, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))

    def ask(self, e, data, s):
        return [np.asarray(e.estimate(data, quantity=None) if data is not None else e.estimate(quantity=None), float)]


class Meta(Kind):
    spec = dict(max_treat=2, max_y=2, n=(20, 30), max_levels=2)

    def __init__(self, cls, **kw):
        self.cls, self.kw = cls, kw

    def build(self, c, m):
        return self.cls(m["y"], **self.kw)


class Permuted(Meta):
    def ask(self, e, data, s):
        cs = eg.combos(s)
        # the pairs are fitted when they are asked for the first time
        return [np.asarray(e.estimate(data, treat=list(t), control=list(cs[0]), quantity=None), float) for t in cs[1:][::-1]]


class DML(Kind):
    spec = dict(max_treat=1, max_y=2, n=(24, 40))

    def __init__(self, cont, cf):
        self.cont, self.cf = cont, cf

    def build(self, c, m):
        return DoubleML(m["y"] if self.cont else m["x"], m["yx"], yx_model=eg.OLS(), cf_fold=self.cf, is_discrete_treatment=not self.cont,
                        adjustment_transformer=m["tw"], covariate_transformer=m["tv"], random_state=c["rs"])

    def models(self, c):
        # the estimator tells models without a random state its own
        m = dict(tw=StandardScaler(), tv=StandardScaler()) if c["rs"] % 2 else dict(tw=None, tv=None)
        yx = DecisionTreeRegressor(max_depth=4, max_features=1) if c["model"] == "rf" else REG[c["model"]]()
        return dict(super().models(c), yx=yx, **m)

    def table(self, s, seed=None):
        df = eg.frame(s, per_group=10, seed=seed)
        if self.cont:
            rng = np.random.RandomState(s["seed"] + 3)
            df["x0"] = rng.randn(len(df)) + np.arange(len(df)) % 3
        return df


class DR(Kind):
    spec = dict(max_treat=1, max_y=1, n=(24, 40), min_v=1)

    def build(self, c, m):
        return DoublyRobust(m["x"], m["y"], m["yx"], cf_fold=1, random_state=3)


class PermutedDR(DR):
    ask = Permuted.ask

    def build(self, c, m):
        return PermutedDoublyRobust(m["x"], m["y"], m["yx"])


class IV(Kind):
    def build(self, c, m):
        return NP2SLS(eg.OLS(), eg.OLS())

    def table(self, s, seed=None):
        df = eg.frame(s, per_group=15, seed=seed)
        rng = np.random.RandomState(s["seed"] + 3)
        df["z0"] = rng.randn(len(df))
        df["x0"] = df["z0"] + rng.randn(len(df))
        return df

    def test(self, s, n, seed):
        df = eg.new_rows(s, n, seed)
        df["x0"] = np.random.RandomState(seed + 1).randn(n)
        return df

    def fit(self, e, df, s):
        _, y, w, v = eg.names(s)
        e.fit(df, y[0], "x0", instrument="z0", adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]), treatment_basis=("Poly", 1), instrument_basis=("Poly", 1), covar_basis=("Poly", 1))


class Bound(Kind):
    rowwise = False  # the bounds depend on the range of all outcomes
    spec = dict(max_treat=1, max_y=1, n=(24, 40), min_v=1)

    def build(self, c, m):
        return ApproxBound(m["y"], x_model=m["x"])

    def fit(self, e, df, s):
        x, y, w, v = eg.names(s)
        e.fit(df, y[0], x[0], covariate=v)

    def test(self, s, n, seed):
        return eg.frame(s, n=n + 8, seed=seed)

    def ask(self, e, data, s):
        return [np.asarray(b, float) for b in e.estimate(data)]


class Score(Kind):
    rowwise = False
    spec = dict(max_treat=1, max_y=1, n=(24, 40), binary=True, min_v=1)

    def build(self, c, m):
        return RLoss(x_model=m["x"], y_model=m["y"], cf_fold=1, is_discrete_treatment=True)

    def ask(self, e, data, s):
        other = SLearner(eg.OLS())
        if data is not None:
            df = eg.frame(s, per_group=8, seed=99)
            Kind.fit(self, other, df, s)
            return [np.asarray(e.score(other), float)] if len(df) else []
        return []


class Tree(Kind):
    spec = dict(max_treat=1, max_y=1, n=(40, 60), min_v=1, binary=True)

    def build(self, c, m):
        return CausalTree(max_depth=3, random_state=c["rs"], splitter=("best", "random")[c["rs"] % 2], max_features=(None, 1)[c["rs"] // 2 % 2], honest_subsample_num=(None, 0.5)[c["rs"] // 4 % 2])


class CTForest(Tree):
    def build(self, c, m):
        return CTCausalForest(n_estimators=4, max_depth=3, random_state=c["rs"], n_jobs=1)


class GRF(Kind):
    spec = dict(max_treat=1, max_y=1, n=(40, 60), min_v=1, binary=True)

    def build(self, c, m):
        return GRForest(n_estimators=6, max_depth=3, random_state=c["rs"], sub_sample_num=0.6, n_jobs=(1, 2)[c["rs"] % 2])

    def table(self, s, seed=None):
        df = eg.frame(s, per_group=20, seed=seed)
        rng = np.random.RandomState(s["seed"] + 3)
        df["x0"] = rng.randn(len(df))
        df["y0"] = df["y0"] + df["x0"] * df[eg.names(s)[3][0]]
        return df

    def fit(self, e, df, s):
        _, y, w, v = eg.names(s)
        e.fit(df, y[0], "x0", covariate=v)


class CForest(GRF):
    table = lambda self, s, seed=None: eg.frame(s, per_group=20, seed=seed)
    fit = Kind.fit

    def build(self, c, m):
        return CausalForest(m["x"], m["y"], n_estimators=5, max_depth=3, random_state=c["rs"], sub_sample_num=0.6, cf_fold=1, is_discrete_treatment=True, n_jobs=1)


class Policy(Kind):
    spec = dict(max_treat=1, max_y=2, n=(30, 50), min_v=1, binary=True)

    def build(self, c, m):
        return PolicyTree(max_depth=3, random_state=c["rs"], max_features=(None, 1)[c["rs"] % 2])

    def fit(self, e, df, s):
        _, y, w, v = eg.names(s)
        e.fit(df, v, effect=y)

    def ask(self, e, data, s):
        return [np.asarray(e.predict_ind(data), float), np.asarray(e.predict_opt_effect(data), float), np.asarray(e.apply(data=data), float)]


class Interp(Kind):
    spec = dict(max_treat=1, max_y=1, n=(30, 50), min_v=1, binary=True)
    est = True

    def __init__(self, cls):
        self.cls = cls

    def build(self, c, m):
        return self.cls(max_depth=3, random_state=c["rs"])

    def fit(self, e, df, s):
        m = SLearner(DecisionTreeRegressor(max_depth=4, random_state=1))
        Kind.fit(self, m, df, s)
        e.fit(df, m)

    def ask(self, e, data, s):
        if self.cls is CEInterpreter:
            return [np.asarray(e.decide(data), float)] if data is not None else []
        return [np.asarray(e.predict_ind(data) if hasattr(e, "predict_ind") else e.decide(data), float)] if data is not None else []


class Uplift(Kind):
    rowwise = False

    def build(self, c, m):
        return UpliftModel()

    def fit(self, e, df, s):
        d = pd.DataFrame(dict(a=df[df.columns[df.dtypes == float][0]].to_numpy(), b=np.arange(len(df)) % 7 + 0.01 * np.arange(len(df))))
        d["t"] = [lv == s["levels"][0][0] for lv in df["x0"]]
        d["t"] = d["t"].astype(int)
        d["y"] = df["y0"].to_numpy()
        e.fit(d, treatment="t", outcome="y", random=None)

    def ask(self, e, data, s):
        return [e.get_cumlift().to_numpy(float), e.get_gain().to_numpy(float), e.get_qini().to_numpy(float), np.asarray(e.auuc_score(), float)]


class Whole(Kind):
    rowwise = False
    spec = dict(max_treat=1, max_y=1, n=(30, 40), min_v=1, binary=True)

    def build(self, c, m):
        return Why(discrete_treatment=True, discrete_outcome=False, estimator="slearner", estimator_options=dict(model="lr"), random_state=c["rs"])

    def fit(self, e, df, s):
        x, y, w, v = eg.names(s)
        e.fit(df.drop(columns=["other"]), y[0], treatment=x[0], adjustment=w or None, covariate=v)

    def ask(self, e, data, s):
        if data is None:
            return []
        return [e.individual_causal_effect(data, control=min(s["levels"][0])).to_numpy(float), e.causal_effect(data, treat=max(s["levels"][0]), control=min(s["levels"][0]))[["mean"]].to_numpy(float)]

    def test(self, s, n, seed):
        df = eg.new_rows(s, n, seed)
        df["x0"] = [s["levels"][0][i % 2] for i in range(n)]
        df["y0"] = np.random.RandomState(seed).randn(n)
        return df


class Prepare(Kind):
    def build(self, c, m):
        return general_preprocessor()

    def table(self, s, seed=None):
        df = eg.frame(s, per_group=8, seed=seed)
        rng = np.random.RandomState(s["seed"] + 3)
        df["o1"] = [("p", "q", "r", None)[i] for i in rng.randint(0, 4, len(df))]
        df.iloc[:4, list(df.columns).index("other")] = np.nan
        return df.drop(columns=["y0", "x0"])

    def fit(self, e, df, s):
        e.fit(df)

    def test(self, s, n, seed):
        df = eg.new_rows(s, n, seed)
        df["o1"] = [("q", "z", None, "p")[i % 4] for i in range(n)]
        df["other"] = np.nan
        return df

    def ask(self, e, data, s):
        if data is None:
            return []
        out = e.transform(data)
        return [np.asarray(out[sorted(out.columns)], float)]


class Codes(Prepare):
    def build(self, c, m):
        return SafeOrdinalEncoder()

    def fit(self, e, df, s):
        e.fit(df[["o1"]].fillna("none"))

    def ask(self, e, data, s):
        return [np.asarray(e.transform(data[["o1"]].fillna("none")), float)] if data is not None else []


class Kinds(Whole):
    """the kinds of the variables are inferred from the table"""

    def build(self, c, m):
        return Why(random_state=c["rs"])

    def table(self, s, seed=None):
        df = eg.frame(s, per_group=8, seed=seed)
        rng = np.random.RandomState(s["seed"] + 3)
        if s["seed"] % 2:
            df["x0"] = df["v0"] * 0.5 + rng.randn(len(df))
        if s["seed"] // 2 % 3 == 0:
            df["y0"] = np.where(df["y0"] > df["y0"].median(), "yes", "no")
        return df

    def test(self, s, n, seed):
        return super().test(s, n, seed).drop(columns=["x0", "y0"])

    def ask(self, e, data, s):
        if data is None:
            return []
        expect(e.discrete_treatment == (s["seed"] % 2 == 0) and e.discrete_outcome == (s["seed"] // 2 % 3 == 0), "kinds %r, %r", e.discrete_treatment, e.discrete_outcome)
        return [e.causal_effect(data)[["mean", "min", "max"]].to_numpy(float)]


def causes(X):
    """a discovery: v0 acts on x0 and y0, x0 on y0"""
    m = pd.DataFrame(0.0, index=X.columns, columns=X.columns)
    m.loc["v0", ["x0", "y0"]] = 0.5, 0.25
    m.loc["x0", "y0"] = 2.0
    return m


class Roles(Whole):
    """some tables come with the roles of their columns, in others these are discovered"""
    spec = dict(max_treat=1, max_y=1, n=(30, 40), min_v=1, binary=True)

    def build(self, c, m):
        return Why(identifier=causes, discrete_treatment=True, discrete_outcome=False, estimator="slearner", estimator_options=dict(model="lr"), random_state=c["rs"])

    def fit(self, e, df, s):
        x, y, w, v = eg.names(s)
        how = s["seed"] % 4
        kw = {} if how % 2 == 0 else dict(adjustment=w or None, covariate=v)
        if how != 2:
            kw["treatment"] = x[0]
        e.fit(df.drop(columns=["other"]), y[0], **kw)

    def ask(self, e, data, s):
        if data is None:
            return []
        g = e.causal_graph().causation
        roles = [e.treatment_, e.adjustment_, e.covariate_, e.instrument_, sorted((k, sorted(q)) for k, q in g.items())]
        return [np.array([[hash_of(repr(q)) % 1000003 for q in roles]], float), e.causal_effect(data)[["mean", "min", "max"]].to_numpy(float)]


class Clean(Prepare):
    """which columns go is found in the last table"""

    def build(self, c, m):
        return DataCleaner(drop_duplicated_columns=c["rs"] % 2 == 0)

    def table(self, s, seed=None):
        df = super().table(s, seed)
        k = s["seed"] % 4
        df["c1"] = 5.0 if k == 0 else np.arange(len(df)) * 0.5
        df["c2"] = np.arange(len(df)) if k == 1 else np.arange(len(df)) % 3
        df["c3"] = df["c1"] if k == 2 else -df["c1"] + np.arange(len(df)) % 2
        df["c4"] = [str(i) for i in range(len(df))] if k == 3 else "a"
        return df

    def test(self, s, n, seed):
        df = super().test(s, n, seed)
        df["c1"], df["c2"], df["c3"], df["c4"] = 1.5, 2, 2.5, "a"
        return df

    def fit(self, e, df, s):
        e.fit_transform(df)

    def ask(self, e, data, s):
        if data is None:
            return []
        out = e.transform(data)
        left = [[c in out.columns for c in ("c1", "c2", "c3", "c4", "o1", "other", "v0")]]
        return [np.array(left * len(out), float), out[sorted(c for c in out.columns if out[c].dtype.kind == "f")].to_numpy(float)]


class Select(Prepare):
    """the task is inferred from the last outcome"""
    rowwise = False

    def build(self, c, m):
        return FeatureImportancesSelectionTransformer(strategy="number", number=2)

    def fit(self, e, df, s):
        rng = np.random.RandomState(s["seed"])
        y = pd.Series(df["v0"].to_numpy(float) + 0.1 * rng.randn(len(df)) if "v0" in df else rng.randn(len(df)), index=df.index)
        e.fit(df, (y > y.median()).astype(int) if s["seed"] % 2 else y)

    def ask(self, e, data, s):
        if data is None:
            return []
        return [np.asarray(e.feature_importances_, float).reshape(1, -1), np.array([sorted(map(hash_of, e.selected_features_))], float)]


def hash_of(name):
    return sum(ord(c) * 31 ** i for i, c in enumerate(str(name)))


KINDS = dict(slearner=Meta(SLearner), tlearner=Meta(TLearner), 
             xlearner=Meta(XLearner), pslearner=Permuted(PermutedSLearner), ptlearner=Permuted(PermutedTLearner), pxlearner=Permuted(PermutedXLearner),
             dml=DML(False, 1), dml2=DML(False, 2), dmlc=DML(True, 1), dmlc2=DML(True, 3), dr=DR(), pdr=PermutedDR(), iv=IV(), bound=Bound(), rloss=Score(), tree=Tree(), ctforest=CTForest(),
             grf=GRF(), cforest=CForest(), policy=Policy(), ceinterp=Interp(CEInterpreter), pinterp=Interp(PolicyInterpreter), uplift=Uplift(), why=Whole(), prepare=Prepare(), codes=Codes(),
             kinds=Kinds(), roles=Roles(), clean=Clean(), select=Select())
GROUPS = [["slearner", "tlearner", "xlearner", "pslearner", "ptlearner", "pxlearner"],
          ["dml", "dml2", "dmlc", "dmlc2", "dr", "pdr", "iv", "bound", "rloss"],
          ["tree", "ctforest", "grf", "cforest", "policy"],
          ["ceinterp", "pinterp", "uplift", "why", "prepare", "codes"],
          ["kinds", "roles", "clean", "select"]]


def histories(group):
    @st.composite
    def strat(draw):
        name = draw(st.sampled_from(group))
        specs = []
        for _ in range(2 if group is GROUPS[4] else draw(st.integers(1, 2))):
            s = draw(eg.spec(odd=False, **KINDS[name].spec))
            s["missing"] = False
            if group is GROUPS[4]:
                s["seed"] = 12 * draw(st.integers(0, 10**4)) + draw(st.sampled_from(range(12)))
            specs.append(s)
        ops = [("fit", 0)] + ([("fit", 1), ("ask", 3)] if group is GROUPS[4] else [])
        for _ in range(draw(st.integers(2, 7))):
            ops.append(draw(st.one_of(st.tuples(st.just("fit"), st.integers(0, 1)), st.tuples(st.just("ask"), st.integers(0, 10**6)), st.tuples(st.just("ask"), st.integers(0, 10**6)),
                                      st.tuples(st.sampled_from(["train", "pickle", "scramble"]), st.just(0)), st.tuples(st.sampled_from(["fork", "sibling"]), st.integers(0, 1)),
                                      st.tuples(st.just("seed"), st.integers(0, 99)))))
        ops.append(("ask", draw(st.integers(0, 10**6))))
        return dict(kind=name, model=draw(st.sampled_from(["tree", "rf", "tree", "ols"])), rs=draw(st.integers(0, 7)), specs=specs, ops=ops, m=draw(st.sampled_from([6, 4, 3, 2, 1])), tseed=draw(st.integers(0, 10**6)))
    return strat()


def same(got, want, what, *args):
    expect(len(got) == len(want), what, *args)
    for g, w in zip(got, want):
        expect(g.shape == w.shape, what + ": shape %r instead of %r", *(args + (g.shape, w.shape)))
        expect_close(g, w, what % args, rtol=1e-7, atol=1e-7 * (1 + np.nanmax(np.abs(w), initial=0)))


def untouched(model):
    return None if model is None else repr(sorted(vars(model).items(), key=str))


def play(case, ctx):
    K = KINDS[case["kind"]]
    specs = case["specs"]
    models = K.models(case)
    marks = {k: untouched(m) for k, m in models.items()}
    tests = [K.test(s, case["m"], case["tseed"]).rename(columns=str) for s in specs]
    refs = {}

    def table(i):
        return K.table(specs[i])

    def ref(i, what, conf):
        """the answers of a new object with models of its own, fitted once"""
        if (i, what, conf["rs"]) not in refs:
            e = K.build(conf, K.models(conf))
            state = np.random.get_state()
            np.random.seed(0)
            K.fit(e, table(i), specs[i])
            refs[i, what, conf["rs"]] = K.ask(e, tests[i].copy() if what == "test" else None, specs[i])
            np.random.set_state(state)
        return refs[i, what, conf["rs"]]

    def ask(e, i, seed, why, conf=case):
        rng = np.random.RandomState(seed)
        full = ref(i, "test", conf)
        n = len(tests[i])
        rows = np.arange(n) if not K.rowwise else rng.permutation(n)[:rng.randint(1, n + 1)]
        if K.rowwise and rng.rand() < 0.3:
            rows = rows[rng.randint(0, len(rows), len(rows))]
        d = tests[i].iloc[rows]
        d = d[[str(c) for c in rng.permutation(d.columns)]].copy()
        if case["kind"] not in ("prepare", "uplift"):
            d["unrelated"] = "u"
        d.index = eg.index_of(eg.INDEXES[rng.randint(len(eg.INDEXES))], len(d), rng)
        keep = d.copy()
        got = K.ask(e, d, specs[i])
        pd.testing.assert_frame_equal(d, keep)
        same(got, [f[rows] if K.rowwise else f for f in full], why + " (rows %r)", rows.tolist())
        return full

    e = K.build(case, models)
    at, df, copies, fits, tables = None, None, 0, 0, set()
    for op, k in case["ops"]:
        if op in ("fit", "fork", "sibling"):
            k %= len(specs)
        if op == "fit":
            df, at, fits = table(k), k, fits + 1
            tables.add(k)
            before = df.copy()
            K.fit(e, df, specs[k])
            pd.testing.assert_frame_equal(df, before)
        elif op == "ask":
            full = ask(e, at, k, "answers after %d fits and %d copies differ from those of a new object" % (fits, copies))
            ctx.nontrivial((fits > 1 or copies > 0) and len(tables) > 1 and case["kind"] in GROUPS[4] or (fits > 1 or copies > 0) and any(np.ptp(np.nan_to_num(f), axis=0).max() > 1e-9 for f in full if f.size))
        elif op == "train":
            same(K.ask(e, None, specs[at]), ref(at, "train", case), "answers for the training table after %d fits and %d copies differ from those of a new object", fits, copies)
        elif op == "pickle":
            e = pickle.loads(pickle.dumps(e))
            copies += 1
        elif op == "fork":
            other = copy.deepcopy(e)
            copies += 1
            ask(other, at, k, "a copy answers differently")
            K.fit(other, table(k), specs[k])
            ask(other, k, k + 5, "a copy fitted again")
        elif op == "sibling":
            conf = dict(case, rs=case["rs"] + 2 * k)
            other = K.build(conf, models)
            K.fit(other, table(k), specs[k])
            copies += 1
            ask(other, k, k + 5, "another object made with the same models", conf)
            ask(e, at, k + 9, "answers after another object made with the same models was fitted")
        elif op == "seed":
            np.random.seed(k)
        for name, m in models.items():
            expect(untouched(m) == marks[name], "%s changed the model given as %s: %s", op, name, untouched(m))
        if op == "scramble":
            for c in list(df.columns):
                if df[c].dtype == float:
                    df[c] = -5.0 * df[c]
                    df.loc[:, c] = df[c].to_numpy()[::-1]
            ctx.event("training table changed")
    ctx.event(case["kind"])


def quietly(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        play(case, ctx)


for i, g in enumerate(GROUPS):
    check.sub(["learners", "residuals", "trees", "others", "inferred"][i], histories(g), quick=[240, 220, 130, 150, 130][i], thorough=[8000, 8000, 5000, 5000, 3000][i], shards=2)(quietly)
