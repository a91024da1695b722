"""C27: estimators and models asked for by name, or chosen automatically, are those a user would build by hand for these variables."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import is_classifier, is_regressor
from sklearn.linear_model import LogisticRegression, Ridge

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn import Why, sklearn_ex
from ylearn.estimator_model import (ESTIMATOR_FACTORIES, ApproxBound, DoubleML, GRForest, NP2SLS, PermutedDoublyRobust, PermutedSLearner, PermutedTLearner,
                                    PermutedXLearner, RLoss, TLearner)
from ylearn.estimator_model._permuted import PermutedCausalTree

check = Check("C27", "a discrete outcome, more than two treatment values, options other than the defaults, or a choice made from the data",
              ["models given by name are built by the default model builder of the library, whose kind, seed and options are checked on their own",
               "outcomes are numeric where the estimator models means"])

NAMES = ["dt", "rf", "gb", "lr", "lasso", "xgb", None, "object"]
OPTIONS = {"dt": [dict(max_depth=2), dict(max_features=1)], "rf": [dict(n_estimators=7), dict(max_depth=2, n_estimators=5)], "gb": [dict(subsample=0.8), dict(learning_rate=0.3)],
           "lr": [dict(fit_intercept=False)], "lasso": [dict(alpha=0.3)], "xgb": [{}], None: [{}], "object": [{}]}


@st.composite
def models(draw):
    name = draw(st.sampled_from(NAMES))
    return dict(name=name, y=draw(st.sampled_from(["floats", "binary", "strings", "codes"])) if name != "lasso" else "floats", how=draw(st.sampled_from(["infer", "tag", "flag"])),
                options=draw(st.sampled_from([{}] + OPTIONS[name])), seed=draw(st.sampled_from([None, 0, 3, 17])), data=draw(st.integers(0, 10**6)), n=draw(st.integers(60, 90)))


def labels(kind, u, k):
    code = np.digitize(u, np.quantile(u, np.arange(1, k) / k))
    return code if kind != "strings" else np.array(["c", "a", "b"], object)[code]


@check.sub("models", models(), quick=72, thorough=2500, shards=6)
def one_model(case, ctx):
    rng = np.random.RandomState(case["data"])
    X = pd.DataFrame(rng.randn(case["n"], 3), columns=["p", "q", "r"])
    u = X["p"].to_numpy() * 2 + rng.randn(case["n"])
    y = pd.Series(u if case["y"] == "floats" else labels(case["y"], u, 2 if case["y"] == "binary" else 3), name="y")
    reg = case["y"] == "floats"
    tag = "regression" if reg else "binary" if case["y"] == "binary" else "multiclass"
    task = None if case["how"] == "infer" else tag if case["how"] == "tag" else not reg
    given = case["name"]
    if given == "object":
        given = Ridge(alpha=0.3) if reg else LogisticRegression(C=0.3)
    X0, y0 = X.copy(), y.copy()

    def make():
        return sklearn_ex.general_estimator(X, y if case["how"] == "infer" else None, estimator=given, task=task, random_state=case["seed"], **case["options"])
    m = make()
    ctx.nontrivial(not reg or bool(case["options"]))
    expect((is_regressor if reg else is_classifier)(m), "the model %r for an outcome of kind %s", m, case["y"])
    if case["name"] == "object":
        expect(m is not given and type(m) is type(given) and m.get_params() == given.get_params(), "%r became %r", given, m)
    else:
        p = m.get_params()
        if "random_state" in p:
            expect(p["random_state"] == case["seed"], "the random state is %r instead of %r", p["random_state"], case["seed"])
        for k, v in case["options"].items():
            expect(p[k] == v, "the option %s is %r instead of %r", k, p[k], v)
    kind = {"dt": "Tree", "rf": "Forest", "gb": "GradientBoosting", "lasso": "Lasso", "xgb": "XGB", "lr": "LinearRegression" if reg else "LogisticRegression"}.get(case["name"], "")
    expect(kind in type(m).__name__, "%s for the name %r", type(m).__name__, case["name"])
    if case["name"] in ("xgb", None) and case["y"] == "strings":
        return  # it takes codes only
    m.fit(X, y)
    out = m.predict(X) if reg else m.predict_proba(X)
    expect(np.shape(out) == ((len(y),) if reg else (len(y), y.nunique())) and np.all(np.isfinite(out)), "predictions of shape %r", np.shape(out))
    if case["name"] == "object":
        expect(not hasattr(given, "coef_"), "the given model was fitted itself")
    elif case["seed"] is not None:
        np.random.seed(case["data"] % 1000)
        again = make().fit(X, y)
        expect(np.array_equal(out, again.predict(X) if reg else again.predict_proba(X)), "two models %r of equal random state differ", m)
    expect(X.equals(X0) and y.equals(y0), "the data was changed")


# ---------------------------------------------------------------------------------------------------------------------

@st.composite
def tables(draw):
    return dict(x=draw(st.sampled_from([2, 2, 3, 0])), y=draw(st.sampled_from([0, 0, 2, 3])), nw=draw(st.integers(0, 2)), nv=draw(st.integers(1, 2)), n=draw(st.integers(60, 100)), seed=draw(st.integers(0, 10**6)))


def table(s, n=None, shift=0):
    """codes for the discrete variables, as Why gives them to the factories"""
    rng = np.random.RandomState(s["seed"] + shift)
    n = n or s["n"]
    w, v = ["w0", "w1"][:s["nw"]], ["v0", "v1"][:s["nv"]]
    d = pd.DataFrame({c: rng.randn(n) for c in w + v + ["z"]})
    lin = d[w + v].sum(axis=1).to_numpy()
    u = 0.7 * lin + d["z"] + rng.randn(n)
    d["x"] = u if s["x"] == 0 else np.digitize(u, np.quantile(u, np.arange(1, s["x"]) / s["x"]))
    r = d["x"] * (1 + 0.5 * d["v0"]) + lin + 0.5 * rng.randn(n)
    if s["y"]:
        r = np.digitize(r + rng.randn(n), np.quantile(r, np.arange(1, s["y"]) / s["y"]))
        if s["x"]:
            for g in range(s["x"]):  # every class in every group
                rows = np.flatnonzero(d["x"] == g)[:s["y"]]
                r[rows] = np.arange(len(rows))
    d["y"] = r
    return d, w or None, v


def tag(k, how):
    return k > 0 if how == "flag" else {0: "regression", 2: "binary"}.get(k, "multiclass")


KINDS = ["dml", "dml", "dr", "ml", "meta_learner", "slearner", "tlearner", "xlearner", "tree", "causal_tree", "grf", "bound", "approx_bound", "iv", "rloss"]
DISCRETE = ["dr", "ml", "meta_learner", "slearner", "tlearner", "xlearner", "tree", "causal_tree"]


@st.composite
def made(draw):
    kind = draw(st.sampled_from(KINDS))
    return dict(kind=kind, table=draw(tables()), how=draw(st.sampled_from(["tag", "flag"])), models=draw(st.sampled_from(["names", "objects", "objects"])), rs=draw(st.sampled_from([0, 5, 2022])), cf=draw(st.sampled_from([None, None, 1, 2, 3])),
                learner=draw(st.sampled_from(["slearner", "tlearner", "xlearner", "s", "t", "x", "T-Learner", " XLearner"])), leaf=draw(st.sampled_from([None, 3, 10])), depth=draw(st.sampled_from([None, 1, 2])),
                more=draw(st.sampled_from(["", "", "seed", "labels", "both"])), t=draw(st.integers(0, 2)), c=draw(st.integers(0, 1)), explicit=draw(st.booleans()))


class Parts:
    """a model for each part, as the factory is told of it and as the reference uses it"""

    def __init__(self, case):
        self.s, self.rs, self.by_name = case["table"], case["rs"], case["models"] == "names"

    def arg(self, k, final=False):
        if self.by_name:
            return "lr" if final else "dt"
        return eg.OLS() if k == 0 else LogisticRegression(C=0.6, max_iter=400)

    def model(self, k, final=False):
        if not self.by_name:
            return self.arg(k)
        return sklearn_ex.general_estimator(None, estimator=self.arg(k, final), task="regression" if k == 0 else "multiclass", random_state=self.rs)


def by_hand(case, kind, P):
    """the options for the factory, and the estimator which they ask for"""
    s, rs = case["table"], case["rs"]
    x, y = s["x"], s["y"]
    cf = case["cf"] if kind in ("dml", "dr", "rloss") else None
    opt = {} if cf is None else dict(cf_fold=cf)
    cf = cf or 1
    both = dict(random_state=rs, is_discrete_treatment=x > 0)
    if kind == "dml":
        return dict(y_model=P.arg(y), x_model=P.arg(x), yx_model=P.arg(0, True), **opt), DoubleML(x_model=P.model(x), y_model=P.model(y), yx_model=P.model(0, True), cf_fold=cf, is_discrete_outcome=y > 0, proba_output=y > 0, **both)
    if kind == "dr":
        return dict(y_model=P.arg(y), x_model=P.arg(x), yx_model=P.arg(0, True), **opt), PermutedDoublyRobust(x_model=P.model(x), y_model=P.model(y), yx_model=P.model(0, True), cf_fold=cf, random_state=rs)
    if kind in ("ml", "meta_learner", "slearner", "tlearner", "xlearner"):
        letter = kind[0] if kind[0] != "m" else case["learner"].strip().lower()[0]
        o = dict(model=P.arg(y))
        if kind[0] == "m":
            o["learner"] = case["learner"]
        extra = {}
        if letter == "x" and y:
            extra = dict(final_proba_model=P.model(0, True))
            o["final_proba_model"] = P.arg(0, True) if kind[0] != "m" else P.model(0, True)
        proba = y > 0
        if kind[0] == "m" and case.get("more") in ("seed", "both"):
            o["random_state"] = both["random_state"] = 11
        if kind[0] == "m" and case.get("more") in ("labels", "both") and letter != "x":
            o["proba_output"] = proba = False
        return o, {"s": PermutedSLearner, "t": PermutedTLearner, "x": PermutedXLearner}[letter](P.model(y), is_discrete_outcome=y > 0, proba_output=proba, **extra, **both)
    if kind in ("tree", "causal_tree"):
        o = {k: v for k, v in (("min_samples_leaf", case["leaf"]), ("max_depth", case["depth"])) if v is not None}
        return o, PermutedCausalTree(random_state=rs, **o)
    if kind == "grf":
        o = dict(n_estimators=4, **{k: v for k, v in (("min_samples_leaf", case["leaf"]), ("max_depth", case["depth"])) if v is not None})
        return o, GRForest(is_discrete_outcome=y > 0, **o, **both)
    if kind in ("bound", "approx_bound"):
        return dict(y_model=P.arg(y), x_model=P.arg(x)), ApproxBound(y_model=P.model(y), x_model=P.model(x), **both)
    if kind == "iv":
        return dict(y_model=P.arg(0, True), x_model=P.arg(x)), NP2SLS(y_model=P.model(0, True), x_model=P.model(x), is_discrete_outcome=y > 0, **both)
    return dict(y_model=P.arg(y), x_model=P.arg(x), **opt), RLoss(y_model=P.model(y), x_model=P.model(x), cf_fold=cf, **both)


def answers(est, kind, case, data):
    s = case["table"]
    if kind in ("bound", "approx_bound"):
        return [np.asarray(q, float) for q in est.estimate(data=data, treat=1, control=0)]
    out = []
    kw = {}
    t, c = (case["t"] % s["x"], case["c"]) if s["x"] else (1.5, 0.5)
    if case["explicit"] and kind != "grf" and t != c:
        kw = dict(treat=t, control=c)
    if kind == "grf":
        return [np.asarray(est.estimate(data), float)]
    if kind not in ("iv",) or s["x"] == 0:
        out.append(np.asarray(est.estimate(data, **kw), float))
    out.append(np.asarray(est.effect_nji(data), float))
    return out


@check.sub("factories", made(), quick=160, thorough=5000, shards=8)
def factories(case, ctx):
    kind, s = case["kind"], dict(case["table"])
    if kind in ("dr", "tree", "causal_tree", "grf", "iv", "bound", "approx_bound", "rloss"):
        s["y"] = 0
    if kind in ("bound", "approx_bound") and not s["x"]:
        s["x"] = 2
    case = dict(case, table=s)
    if kind == "iv" and s["x"]:
        case["models"] = "names"  # the treatment model of a discrete treatment predicts several columns
    d, w, v = table(s)
    test = table(s, 12, 1)[0]
    refuse = kind in DISCRETE and not s["x"]
    options, want = by_hand(dict(case, table=dict(s, x=2)) if refuse else case, kind, Parts(case))
    before = copy.deepcopy(options)
    factory = ESTIMATOR_FACTORIES[kind](**options)
    ask = dict(y_task=tag(s["y"], case["how"]), x_task=tag(s["x"], case["how"]), adjustment=w, covariate=v, instrument=["z"] if kind == "iv" else None, random_state=case["rs"])
    ctx.nontrivial(s["y"] > 0 or s["x"] > 2 or case["cf"] is not None)
    if refuse:
        try:
            e = factory(d, "y", "x", **ask)
        except Exception:
            return
        expect(False, "%s takes continuous treatments: %r", kind, e)
    if kind in ("dml", "dr", "rloss") and s["x"] and (case["cf"] or 1) > 1 and s["x"] * 12 > len(d):
        ctx.reject("small folds")
    fit = dict(adjustment=w, covariate=v)
    if kind == "iv":
        fit = dict(instrument=["z"], covariate=v)
    elif kind in ("bound", "approx_bound"):
        fit = dict(covariate=v)
    got = factory(d, "y", "x", **ask)
    second = factory(d, "y", "x", **ask)
    expect(got is not second, "the same object is made twice")
    # one asked for later for other kinds and seeds is not affected by those asked for before
    other = dict(ask, random_state=None, y_task=tag(0 if s["y"] else 2, case["how"])) if kind == "grf" else dict(ask, random_state=None)
    third, alone = factory(d, "y", "x", **other), ESTIMATOR_FACTORIES[kind](**copy.deepcopy(before))(d, "y", "x", **other)
    for name in ("is_discrete_outcome", "is_discrete_treatment", "random_state"):
        expect(getattr(third, name, None) == getattr(alone, name, None), "%s, asked for again: %s is %r instead of %r", kind, name, getattr(third, name, None), getattr(alone, name, None))
    for a, b in ((got, want), (getattr(got, "learner", None), getattr(want, "learner", None))):
        for name in ("is_discrete_outcome", "is_discrete_treatment", "random_state"):
            expect(getattr(a, name, None) == getattr(b, name, None), "%s: %s is %r instead of %r", kind, name, getattr(a, name, None), getattr(b, name, None))
    np.random.seed(s["seed"] % 999)
    got.fit(d.copy(), "y", "x", **fit)
    want.fit(d.copy(), "y", "x", **fit)
    expect(not any(hasattr(o, a) for o in options.values() for a in ("coef_", "tree_")), "the given model was fitted itself")
    expect({k: repr(q) for k, q in options.items()} == {k: repr(q) for k, q in before.items()}, "the options were changed")
    if kind == "rloss":
        est = DoubleML(eg.OLS(), eg.OLS()) if not s["x"] else TLearner(eg.OLS())
        est.fit(d, "y", "x", adjustment=w, covariate=v)
        expect_close(float(got.score(est)), float(want.score(est)), "loss", rtol=1e-9, atol=1e-12)
        return
    for i, (a, b) in enumerate(zip(answers(got, kind, case, test), answers(want, kind, case, test))):
        expect(a.shape == b.shape, "%s: effects of shape %r instead of %r", kind, a.shape, b.shape)
        expect_close(a, b, f"{kind}: effects ({i})", rtol=1e-9, atol=1e-10)


@st.composite
def sizes(draw):
    return dict(kind=draw(st.sampled_from(["dml", "dr", "rloss"])), n=draw(st.sampled_from([20, 2999, 3000, 3001, 9999, 10000, 12000])), cf=draw(st.sampled_from([None, None, None, 1, 4])))


@check.sub("folds", sizes(), quick=24, thorough=60, shards=2)
def folds(case, ctx):
    """more folds for larger tables, the asked number if there is one"""
    d = pd.DataFrame({"y": np.zeros(case["n"]), "x": 1, "v": 0.0})
    opt = {} if case["cf"] is None else dict(cf_fold=case["cf"])
    e = ESTIMATOR_FACTORIES[case["kind"]](y_model="lr", x_model="lr", **opt)(d, "y", "x", y_task="regression", x_task="binary", covariate=["v"], random_state=1)
    e = getattr(e, "learner", e)
    ctx.nontrivial(case["n"] >= 3000 or case["cf"] is not None)
    want = case["cf"] or (1 if case["n"] < 3000 else 3 if case["n"] < 10000 else 5)
    expect(e.cf_fold == want, "%d folds instead of %d for %d rows", e.cf_fold, want, case["n"])


# ---------------------------------------------------------------------------------------------------------------------

@st.composite
def chosen(draw):
    c = draw(made())
    c["two"] = draw(st.booleans())
    c["strings"] = draw(st.booleans())
    c["name"] = draw(st.sampled_from(["auto", "auto", "auto", "dml", "slearner", "tlearner", "xlearner", "ml", "dr", "iv", "tree"]))
    c["instrument"] = draw(st.sampled_from([False, False, True]))
    c["infer"] = draw(st.booleans())
    return c


@check.sub("chosen", chosen(), quick=96, thorough=3000, shards=8)
def automatic(case, ctx):
    """Why(estimator=name) equals Why(estimator=object)"""
    s, name = dict(case["table"]), case["name"]
    iv = name == "iv" or name == "auto" and case["instrument"]
    if iv or name in ("dr", "tree"):
        s["y"] = 0
    if name in ("dr", "slearner", "tlearner", "xlearner", "ml", "tree") and not s["x"]:
        s["x"] = 2
    case = dict(case, table=s)
    if iv and s["x"]:
        case["models"] = "names"
    d, w, v = table(s)
    test = table(s, 12, 1)[0]
    if case["strings"]:
        for q, k in (("x", s["x"]), ("y", s["y"])):
            if k:
                for f in (d, test):
                    f[q] = np.array(["a", "b", "c"], object)[f[q]]
    xs = ["x"]
    rs = case["rs"]
    if name == "auto":
        # the models are the defaults of the chosen factory
        key = "iv" if iv else "tlearner" if s["x"] else "dml"
        P = Parts(dict(case, models="names"))

        def default(n, k):
            return sklearn_ex.general_estimator(None, estimator=n, task="regression" if k == 0 else "multiclass", random_state=rs)
        if key == "iv":
            want = NP2SLS(y_model=default("lr", 0), x_model=default("rf", s["x"]), is_discrete_treatment=s["x"] > 0, random_state=rs)
        elif key == "tlearner":
            want = PermutedTLearner(default("gb", s["y"]), is_discrete_outcome=s["y"] > 0, proba_output=s["y"] > 0, random_state=rs)
        else:
            want = DoubleML(x_model=default("rf", 0), y_model=default("rf", s["y"]), yx_model=default("lr", 0), is_discrete_outcome=s["y"] > 0, proba_output=s["y"] > 0, random_state=rs)
        options = None
    else:
        options, want = by_hand(case, name, Parts(case))
    known = {} if case["infer"] else dict(discrete_outcome=s["y"] > 0, discrete_treatment=s["x"] > 0)
    if case["infer"] and s["y"] == 0 and s["x"] == 0:
        known = {}
    fit = dict(treatment=xs, covariate=v, **(dict(instrument=["z"]) if iv else dict(adjustment=w)))
    ctx.nontrivial(s["y"] > 0 or s["x"] > 2 or name == "auto")
    A = Why(estimator=name, estimator_options=options, random_state=rs, **known).fit(d.copy(), "y", **fit)
    B = Why(estimator=want, random_state=rs, **known).fit(d.copy(), "y", **fit)
    expect(A.discrete_treatment == (s["x"] > 0) and A.discrete_outcome == (s["y"] > 0), "the kinds are %r, %r", A.discrete_treatment, A.discrete_outcome)
    kind = type(getattr(A.estimators_["x"], "learner", A.estimators_["x"]))
    ref = type(getattr(want, "learner", want))
    expect(kind is ref, "the estimator chosen is a %s instead of a %s", kind.__name__, ref.__name__)
    kw = {} if s["x"] or not case["explicit"] else dict(treat=1.5, control=0.5)
    for data in (None, test):
        a, b = A.causal_effect(data, **kw), B.causal_effect(data, **kw)
        expect(list(a.index) == list(b.index), "the effects are named %r instead of %r", list(a.index), list(b.index))
        expect_close(a.to_numpy(float), b.to_numpy(float), "effects", rtol=1e-9, atol=1e-10)


@st.composite
def scored(draw):
    c = draw(made())
    c["levels"] = draw(st.sampled_from([[0, 1], [3, 7], ["no", "yes"], ["b", "a"]]))
    c["swap"] = draw(st.booleans())
    return c


@check.sub("score", scored(), quick=48, thorough=1500, shards=8)
def loss(case, ctx):
    """the default score of a fitted Why is the mean loss of its estimators on the given table"""
    s = dict(case["table"], y=0, x=min(case["table"]["x"], 2))
    case = dict(case, table=s)
    d, w, v = table(s)
    test = table(s, 40, 1)[0]
    test["u"] = test["x"]
    kw, tr = {}, {}
    enc, enct = d.copy(), test.copy()
    if s["x"]:
        lv = sorted(case["levels"])
        for f in (d, test):
            f["x"] = np.array(lv, object if isinstance(lv[0], str) else int)[f["x"]]
        if case["swap"]:
            kw, tr = dict(treat=[lv[0]], control=[lv[1]]), dict(treat=0, control=1)
        elif case["explicit"]:
            kw, tr = dict(treat=[lv[1]], control=[lv[0]]), dict(treat=1, control=0)
    est = PermutedTLearner(eg.OLS()) if s["x"] else DoubleML(eg.OLS(), eg.OLS())
    W = Why(estimator=copy.deepcopy(est), random_state=case["rs"], discrete_treatment=s["x"] > 0, discrete_outcome=False).fit(d, "y", treatment=["x"], adjustment=w, covariate=v)
    got = W.score(test, **kw, **(dict(scorer="rloss") if case["cf"] else {}))
    E = copy.deepcopy(est).fit(enc, "y", "x", adjustment=w, covariate=v)
    m = lambda k: sklearn_ex.general_estimator(None, estimator="rf", task="regression" if k == 0 else "binary", random_state=case["rs"])
    L = RLoss(y_model=m(0), x_model=m(s["x"]), cf_fold=1, random_state=case["rs"], is_discrete_treatment=s["x"] > 0).fit(enct, "y", "x", adjustment=w, covariate=v)
    ctx.nontrivial(bool(s["x"]))
    expect_close(float(got), float(L.score(E, **tr)), "score", rtol=1e-7, atol=1e-9)


@st.composite
def deep(draw):
    opt = lambda *v: draw(st.sampled_from((None,) + v))
    return dict(xd=opt([3, 4, 5], [6, 2, 3], 5), yd=opt([4, 6, 3], [5, 3, 4], 4), k=opt(1, 2, 3), x=draw(st.sampled_from([0, 2, 3])), y=draw(st.sampled_from([0, 0, 2, 3])), n=draw(st.integers(20, 40)),
                how=draw(st.sampled_from(["tag", "flag"])), rs=draw(st.sampled_from([None, 0, 5])), seed=draw(st.integers(0, 10**6)), kind=draw(st.sampled_from(["div", "deep_iv"])),
                f32=draw(st.booleans()), new=draw(st.booleans()), epoch=draw(st.integers(1, 2)))


@check.sub("deepiv", deep(), quick=12, thorough=400, shards=4)
def deepiv(case, ctx):
    import torch
    from ylearn.estimator_model.deepiv import DeepIV
    s = dict(x=case["x"], y=case["y"], nw=2, nv=1, n=case["n"], seed=case["seed"])
    d, w, _ = table(s)
    test = table(s, 7, 1)[0]
    options = {a: case[b] for a, b in (("x_hidden_d", "xd"), ("y_hidden_d", "yd"), ("num_gaussian", "k")) if case[b] is not None}
    kind = case["kind"] if case["kind"] in ESTIMATOR_FACTORIES else "div"
    got = ESTIMATOR_FACTORIES[kind](**options)(d, "y", "x", y_task=tag(s["y"], case["how"]), x_task=tag(s["x"], case["how"]), adjustment=w, instrument=["z"], random_state=case["rs"])
    # a number stands for that many units in each of the three layers
    want = DeepIV(is_discrete_treatment=s["x"] > 0, is_discrete_outcome=s["y"] > 0, random_state=case["rs"],
                  **{a: [b] * 3 if a.endswith("hidden_d") and isinstance(b, int) else b for a, b in options.items()})
    expect(isinstance(got, DeepIV) and got.random_state == want.random_state, "an estimator of another kind or with another seed: %r", got)
    expect(got.is_discrete_outcome == (s["y"] > 0) and got.is_discrete_treatment == (s["x"] > 0), "other kinds of variables: %r", got)
    ctx.nontrivial(bool(options))
    if s["y"]:
        return  # classes are not estimated here
    f32 = lambda t: t.astype({c: "float32" for c in t.columns if t[c].dtype == "float64"})
    out = []
    for est, change in ((got, f32 if case["f32"] else lambda t: t), (want, f32)):
        torch.manual_seed(case["seed"] % 1000)
        np.random.seed(case["seed"] % 1000)
        table_ = change(d).copy()
        keep = table_.copy()
        est.fit(table_, "y", "x", instrument=["z"], adjustment=w, device="cpu", epoch=case["epoch"], batch_size=16)
        expect(table_.equals(keep) and (table_.dtypes == keep.dtypes).all(), "fitting changed the table")
        new = change(test).copy() if case["new"] else None
        keep = None if new is None else new.copy()
        e = est.estimate(new)
        expect(new is None or (new.equals(keep) and (new.dtypes == keep.dtypes).all()), "estimating changed the table")
        expect(est is want or isinstance(e, np.ndarray), "effects given as a %s", type(e))
        out.append(np.asarray(e.detach() if hasattr(e, "detach") else e, float))
    expect_close(out[0], out[1], "deep iv: effects", rtol=1e-5, atol=1e-6)
