"""C19: the effect interpreter's tree averages the estimated effects over the rows with the covariates it tells."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from sklearn.tree import DecisionTreeRegressor

from checks.c18_policy import LINE, route
from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
from ylearn.estimator_model import DoubleML, DoublyRobust, SLearner, TLearner, XLearner

check = Check("C19", "the tree has several leaves of different mean effects",
              ["the trees are those of scikit-learn, whose splits are trusted", "mean effects of the leaves under criterion squared_error, medians under absolute_error"])


@st.composite
def cases(draw):
    cont = draw(st.booleans())
    s = draw(eg.spec(max_treat=1 if cont else 2, max_y=2, n=(40, 70), min_v=1))
    s["missing"] = False
    kind = "dml" if cont else draw(st.sampled_from(["dml", "slearner", "tlearner", "xlearner", "dr"]))
    return dict(cont=cont, spec=s, kind=kind, tv=draw(st.sampled_from(["none", "scale", "poly"])),
                params=dict(max_depth=draw(st.sampled_from([None, 1, 2, 3])), min_samples_leaf=draw(st.sampled_from([1, 4, 0.1])), min_samples_split=draw(st.sampled_from([2, 8, 0.3])),
                            max_leaf_nodes=draw(st.sampled_from([None, None, 3])), max_features=draw(st.sampled_from([None, None, 1])),
                            min_weight_fraction_leaf=draw(st.sampled_from([0.0, 0.0, 0.2])), min_impurity_decrease=draw(st.sampled_from([0.0, 0.0, 0.05])),
                            ccp_alpha=draw(st.sampled_from([0.0, 0.0, 0.1])), splitter=draw(st.sampled_from(["best", "best", "random"])),
                            criterion=draw(st.sampled_from(["squared_error", "squared_error", "absolute_error"])), random_state=draw(st.integers(0, 10**6))),
                treat=draw(st.booleans()), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)), form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])),
                on=draw(st.sampled_from(["train", "train", "sample"])), refit=draw(st.booleans()), grid=draw(st.integers(0, 3)) == 0, query=draw(st.integers(0, 10**6)))


TRANS = {"none": lambda: None, "scale": lambda: StandardScaler(), "poly": lambda: PolynomialFeatures(2, include_bias=False)}


@check.sub("effects", cases(), quick=400, thorough=8000, shards=6)
def effects(case, ctx):
    s, kind, cont = case["spec"], case["kind"], case["cont"]
    x, yn, w, v = eg.names(s)
    df = eg.frame(s, per_group=8)
    rng = np.random.RandomState(s["seed"] + 7)
    if case["grid"]:  # rows may lie on a threshold
        df[v] = (df[v] * 2).round() * 2.0
    if cont:
        df[x[0]] = df[v[0]] * 0.6 + rng.randn(len(df))
        df[yn[0]] += df[x[0]] * (1 + df[v[0]] ** 2)
    cs = eg.combos(s)
    tv = TRANS[case["tv"]]() if kind == "dml" else None
    if kind == "dml":
        est = DoubleML(eg.OLS() if cont else LogisticRegression(C=0.6), eg.OLS(), is_discrete_treatment=not cont, covariate_transformer=TRANS[case["tv"]]())
    elif kind == "dr":
        est = DoublyRobust(LogisticRegression(C=0.6), eg.OLS(), eg.OLS(), cf_fold=1, random_state=3)
    else:
        est = {"slearner": SLearner, "tlearner": TLearner, "xlearner": XLearner}[kind](eg.OLS())
    names = (eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]))
    kw = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    ask = {}
    t = cs[case["t"] % len(cs)]
    c = [g for g in cs if g != t][case["c"] % (len(cs) - 1)]
    if not cont and (case["treat"] or kind in ("tlearner", "xlearner")):
        ask = dict(treat=eg.wrap_label(t, case["form"]), control=eg.wrap_label(c, case["form"]))
    if kind != "dml":
        est.fit(df, *names, **kw, **ask)
        ask = {}
    else:
        est.fit(df, *names, **kw)
    data = df
    if case["on"] == "sample":
        data = df.iloc[rng.choice(len(df), len(df) - 5, replace=False)]
    V = data[v].to_numpy(float)
    if tv is not None:
        tv.fit(df[v].to_numpy(float))
        V = tv.transform(V)
    E = np.asarray(est.estimate(data=data, **ask), float).reshape(len(data), -1)
    I = CEInterpreter(**case["params"])
    if case["refit"]:
        I.fit(df.iloc[:25], SLearner(eg.OLS()).fit(df, *names, covariate=["other"]))
        I.interpret()
    before = data.copy()
    expect(I.fit(data, est, **ask) is I, "fit does not return the interpreter")
    expect(data.equals(before), "fit changed the data")
    T = I._tree_model.tree_
    scale = np.abs(E).max() + 1e-9
    told = DecisionTreeRegressor(**case["params"]).fit(V, E).tree_
    expect(np.array_equal(told.feature, T.feature) and np.allclose(told.threshold, T.threshold, rtol=1e-6, atol=1e-9) and np.array_equal(told.children_left, T.children_left),
           "the tree is not the one of these options over these effects")
    paths = route(T, V)
    rows = {q: [i for i, p in enumerate(paths) if q in p] for q in range(T.node_count)}
    n = len(V)
    ml, ms = case["params"]["min_samples_leaf"], case["params"]["min_samples_split"]
    ml, ms = [q if isinstance(q, int) else int(np.ceil(q * n)) for q in (ml, ms)]
    leaves = [q for q in rows if T.children_left[q] == -1]
    expect(max(len(p) for p in paths) - 1 <= (case["params"]["max_depth"] or 99) and len(leaves) <= (case["params"]["max_leaf_nodes"] or 999), "depth or leaves")
    means, leaf_value = {}, {}
    expect(sorted(I.node_dict_) == sorted(rows), "node_dict_ has the nodes %s", sorted(I.node_dict_))
    for q, r in rows.items():
        expect(len(r) >= ml and (q in leaves or len(r) >= ms), "node %d has %d rows", q, len(r))
        means[q] = E[r].mean(axis=0)
        leaf_value[q] = means[q] if case["params"]["criterion"] == "squared_error" else np.median(E[r], axis=0)
        expect_close(np.ravel(I.node_dict_[q]["mean"]), means[q], "mean of node %d" % q, rtol=1e-8, atol=1e-9 * scale)
        expect_close(np.ravel(I.node_dict_[q]["std"]), E[r].std(axis=0), "standard deviation of node %d" % q, rtol=1e-6, atol=1e-6 * scale)
    new = eg.alike(data, case["query"]) if case["query"] % 3 == 0 else eg.new_rows(s, 7, case["query"])
    if case["grid"]:
        new = new.assign(**{q: (new[q] * 2).round() * 2.0 + rng.randint(-1, 2, len(new)) for q in v})
    NV = new[v].to_numpy(float)
    NV = NV if tv is None else tv.transform(NV)
    only = new[v]
    for name, d, V_ in [("training frame", data, V), ("new rows", new, NV), ("covariates only", only, NV), ("training data", None, V)]:
        ps = route(T, V_)
        want = np.array([leaf_value[p[-1]] for p in ps])
        if d is not None:
            expect_close(np.asarray(I.predict(d[v].to_numpy(float))).reshape(len(ps), -1), want, "%s: predict of the array" % name, rtol=1e-8, atol=1e-8 * scale)
            for f in (I.predict, I.decide):
                expect_close(np.asarray(f(d)).reshape(len(ps), -1), want, "%s: %s" % (name, f.__name__), rtol=1e-8, atol=1e-8 * scale)
        for text in [I.interpret(data=d), I.interpret(v=V_)] + ([I.interpret(v=V_[:, 0])] if V_.shape[1] == 1 else []):
            expect(list(text) == ["sample_%d" % i for i in range(len(ps))], "%s: interpret explains %s", name, list(text)[:9])
            Vf = V_.astype(np.float32)
            for i, p in enumerate(ps):
                steps = LINE.findall(text["sample_%d" % i])
                expect([int(q[0]) for q in steps] == p[:-1], "%s: row %d goes by %s, interpret tells %s", name, i, p, text["sample_%d" % i])
                for node, row, f, val, sign, thr in steps:
                    node, f = int(node), int(f)
                    expect(int(row) == i and f == T.feature[node], "%s: row %d: %s", name, i, steps)
                    expect_close([float(val), float(thr)], [Vf[i, f], T.threshold[node]], "%s: values told" % name, rtol=1e-6, atol=1e-6)
                    expect((sign == "<=") == bool(Vf[i, f] <= T.threshold[node]), "%s: row %d: %s", name, i, steps)
    again = CEInterpreter(**case["params"]).fit(data, est, **ask)
    expect(np.array_equal(again._tree_model.tree_.threshold, T.threshold), "the same interpreter again has another tree")
    ctx.nontrivial(len(leaves) > 1 and np.ptp([means[q] for q in leaves], axis=0).max() > 1e-6 * scale)
