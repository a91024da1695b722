"""C18: a policy tree recommends, in each leaf, the treatment of the largest mean effect, and splits to enlarge it."""
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
from ylearn.estimator_model import DoubleML, SLearner, TLearner
from ylearn.policy.policy_model import PolicyTree

check = Check("C18", "the tree has several leaves which do not all recommend the same treatment",
              ["one outcome (several are refused)", "effects of a magnitude of at least 1e-3: the impurities are kept as differences to 1e10",
               "positive sample weights"])
TOL = 2e-5


@st.composite
def cases(draw):
    return dict(n=draw(st.integers(8, 90)), dv=draw(st.sampled_from([1, 2, 2, 3, 3, 9])), k=draw(st.integers(1, 4)), round=draw(st.sampled_from([None, None, 1, 0])),
                scale=draw(st.sampled_from([1.0, 1.0, 0.1, 30.0])), shift=draw(st.sampled_from([0, 0, -5, 40])), seed=draw(st.integers(0, 10**6)),
                weights=draw(st.sampled_from([False, False, True])), give=draw(st.sampled_from(["array", "array", "columns", "both", "ints"])),
                index=draw(st.sampled_from(eg.INDEXES)), str_names=draw(st.booleans()),
                params=dict(max_depth=draw(st.sampled_from([None, None, 1, 2, 4])), min_samples_split=draw(st.sampled_from([2, 2, 7, 0.2])),
                            min_samples_leaf=draw(st.sampled_from([1, 1, 3, 0.1])), max_leaf_nodes=draw(st.sampled_from([None, None, 2, 5])),
                            max_features=draw(st.sampled_from([None, None, None, 1, 0.5, "sqrt", "log2"])),
                            min_impurity_decrease=draw(st.sampled_from([0.0, 0.0, 0.02, 0.3])), splitter=draw(st.sampled_from(["best", "best", "random"])),
                            min_weight_fraction_leaf=draw(st.sampled_from([0.0, 0.0, 0.15])), random_state=draw(st.integers(0, 10**6))),
                names=draw(st.booleans()), interpreter=draw(st.booleans()), refit=draw(st.sampled_from([None, None, 4])), n_query=draw(st.integers(1, 9)))


def make(case, seed, n):
    rng = np.random.RandomState(seed)
    V = rng.randn(n, case["dv"])
    if case["round"] is not None:
        V = V.round(case["round"])
    E = (V @ rng.randn(case["dv"], case["k"]) + np.where(V[:, :1] > 0.2, 1.0, -1.0) * rng.randn(case["k"]) + 0.3 * rng.randn(n, case["k"])) * case["scale"] + case["shift"]
    if case["give"] == "ints":
        E = np.round(E)
    df = pd.DataFrame(V, columns=["v%d" % i for i in range(case["dv"])])
    for i in range(case["k"]):
        df["e%d" % i] = E[:, i].astype(int) if case["give"] == "ints" else E[:, i]
    df = df[list(rng.permutation(df.columns))]
    df.index = eg.index_of(case["index"], n, rng)
    return df, E, rng.uniform(0.3, 2.0, n) if case["weights"] else None


def route(T, V):
    V = V.astype(np.float32)
    paths = []
    for r in V:
        k, path = 0, [0]
        while T.children_left[k] != -1:
            k = T.children_left[k] if r[T.feature[k]] <= T.threshold[k] else T.children_right[k]
            path.append(k)
        paths.append(path)
    return paths


def best_gain(V, E, w, min_leaf, min_weight):
    """largest sum over both sides of the largest total effect"""
    Vf, best = V.astype(np.float32), None
    WE = E * w[:, None]
    for f in range(V.shape[1]):
        vals = np.unique(Vf[:, f])
        for a, b in zip(vals, vals[1:]):
            left = Vf[:, f] <= a
            if min(left.sum(), (~left).sum()) < min_leaf or min(w[left].sum(), w[~left].sum()) < min_weight or b <= a + np.float32(2e-7):
                continue
            g = WE[left].sum(axis=0).max() + WE[~left].sum(axis=0).max()
            best = g if best is None else max(best, g)
    return best


def verify(M, p, V, E, w, ctx):
    T = M.tree_
    n, k = E.shape
    w = np.ones(n) if w is None else w
    scale = np.abs(E).max() + 1e-9
    min_leaf = p["min_samples_leaf"] if isinstance(p["min_samples_leaf"], int) else int(np.ceil(p["min_samples_leaf"] * n))
    min_split = p["min_samples_split"] if isinstance(p["min_samples_split"], int) else max(2, int(np.ceil(p["min_samples_split"] * n)))
    min_split = max(min_split, 2 * min_leaf)
    min_weight = p["min_weight_fraction_leaf"] * w.sum()
    paths = route(T, V)
    rows, depth = {q: [] for q in range(T.node_count)}, {0: 0}
    for i, path in enumerate(paths):
        for d, q in enumerate(path):
            rows[q].append(i)
            depth[q] = d
    full = p["splitter"] == "best" and (p["max_features"] is None)
    gains, leaves, value = np.zeros(V.shape[1]), [], {}
    WE = E * w[:, None]
    for q in range(T.node_count):
        r = rows[q]
        expect(len(r) == T.n_node_samples[q], "node %d has %d rows, not %d", q, len(r), T.n_node_samples[q])
        total = WE[r].sum(axis=0)
        value[q] = total / w[r].sum()
        expect_close(T.weighted_n_node_samples[q], w[r].sum(), "weight of node %d" % q, rtol=1e-9, atol=1e-9)
        if q:
            expect(len(r) >= min_leaf and w[r].sum() >= min_weight - 1e-9, "node %d has %d rows of weight %s", q, len(r), w[r].sum())
        allowed = len(r) >= min_split and w[r].sum() >= 2 * min_weight + 1e-9 and (p["max_depth"] is None or depth[q] < p["max_depth"])
        best = best_gain(V[r], E[r], w[r], min_leaf, min_weight) if allowed else None
        if T.children_left[q] == -1:
            leaves.append(q)
            if full and p["max_leaf_nodes"] is None and best is not None:
                got = (best - total.max()) / w.sum()
                expect(got < p["min_impurity_decrease"] + TOL * max(1, p["min_impurity_decrease"]), "leaf %d could gain %s", q, got)
            continue
        expect(len(r) >= min_split and (p["max_depth"] is None or depth[q] < p["max_depth"]), "node %d of %d rows at depth %d is split", q, len(r), depth[q])
        g = WE[rows[T.children_left[q]]].sum(axis=0).max() + WE[rows[T.children_right[q]]].sum(axis=0).max()
        gains[T.feature[q]] += g - total.max()
        expect((g - total.max()) / w.sum() >= p["min_impurity_decrease"] - TOL, "the split of node %d gains %s", q, (g - total.max()) / w.sum())
        if full and best is not None:
            expect(g >= best - 1e-7 * scale * n, "node %d is split with %s where %s is possible", q, g, best)
    expect(p["max_leaf_nodes"] is None or len(leaves) <= p["max_leaf_nodes"], "%d leaves", len(leaves))
    expect(M.get_n_leaves() == len(leaves) and M.get_depth() == max(depth.values()), "depth %s, %s leaves", M.get_depth(), M.get_n_leaves())
    imp = np.asarray(M.feature_importance)
    if gains.sum() > 1e-3 * w.sum():
        expect_close(imp, gains / gains.sum(), "feature_importance", rtol=1e-2, atol=1e-2)
        ctx.event("importance")
    return paths, value, leaves


def queries(M, paths, value, data, V, scale, name):
    want = np.array([value[p[-1]] for p in paths])
    ind = np.asarray(M.predict_ind(data))
    expect(ind.shape == (len(paths),), "%s: predict_ind has shape %s", name, ind.shape)
    expect_close(want[np.arange(len(want)), ind.astype(int)], want.max(axis=1), "%s: mean effect of the recommended treatment" % name, rtol=1e-9, atol=1e-8 * scale)
    expect_close(np.asarray(M.predict_opt_effect(data)), want.max(axis=1), "%s: predict_opt_effect" % name, rtol=1e-9, atol=1e-8 * scale)
    leaf = [p[-1] for p in paths]
    forms = [V, V.astype(np.float32)] + ([V[:, 0]] if V.shape[1] == 1 else [])
    expect(list(M.apply(data=data)) == leaf and all(list(M.apply(v=f)) == leaf for f in forms), "%s: apply", name)
    for got in [M.decision_path(data=data)] + [M.decision_path(v=f) for f in forms]:
        got = got.toarray()
        expect([sorted(np.flatnonzero(g)) for g in got] == [sorted(p) for p in paths], "%s: decision_path", name)
    return want, ind


LINE = re.compile(r"decision node (\d+): \(covariate \[(\d+), (\d+)\] = (\S+)\) (<=|>) (\S+)")
LAST = re.compile(r"The recommended policy is treatment (\d+) with value (\S+)$")


def explained(text, T, paths, V, want, ind, scale, name):
    expect(isinstance(text, dict) and list(text) == ["sample_%d" % i for i in range(len(V))], "%s: interpret explains %s", name, list(text)[:9])
    Vf = V.astype(np.float32)
    for i in range(len(V)):
        got = text["sample_%d" % i]
        steps = LINE.findall(got)
        expect([int(s[0]) for s in steps] == paths[i][:-1], "%s: row %d goes by %s, interpret tells %s", name, i, paths[i], got)
        for node, row, f, val, sign, thr in steps:
            node, f = int(node), int(f)
            expect(int(row) == i and f == T.feature[node], "%s: row %d: %s", name, i, got)
            expect_close([float(val), float(thr)], [Vf[i, f], T.threshold[node]], "%s: values told" % name, rtol=1e-6, atol=1e-6)
            expect((sign == "<=") == bool(Vf[i, f] <= T.threshold[node]), "%s: row %d: %s", name, i, got)
        last = LAST.search(got)
        expect(last is not None and int(last.group(1)) == ind[i], "%s: row %d: recommended %s, told %s", name, i, ind[i], got)
        expect_close(float(last.group(2)), want[i].max(), "%s: value told" % name, rtol=1e-6, atol=1e-6 * scale)


@check.sub("tree", cases(), quick=700, thorough=15000, shards=6)
def tree(case, ctx):
    p, k = case["params"], case["k"]
    df, E, w = make(case, case["seed"], case["n"])
    vs, es = ["v%d" % i for i in range(case["dv"])], ["e%d" % i for i in range(k)]
    V = df[vs].to_numpy(float)
    va, ea = eg.arg(vs, case["str_names"]), eg.arg(es, case["str_names"])

    def options(data, eff):
        given = eff[:, 0] if k == 1 and case["str_names"] else eff
        return {"array": dict(effect_array=given), "both": dict(effect_array=given, effect=ea), "columns": dict(effect=ea), "ints": dict(effect=ea)}[case["give"]]

    M = PolicyTree(**p)
    if case["refit"]:
        d2, E2, _ = make(case, case["refit"], case["n"] + 3)
        M.fit(d2, va, **options(d2, E2))
        M.predict_ind()
    before, E_before = df.copy(), E.copy()
    expect(M.fit(df, va, sample_weight=w, **options(df, E)) is M, "fit does not return the policy tree")
    expect(df.equals(before) and np.array_equal(E, E_before), "fit changed the data")
    paths, value, leaves = verify(M, p, V, E, w, ctx)
    scale = np.abs(E).max() + 1e-9
    rng = np.random.RandomState(case["seed"] + 1)
    new = pd.DataFrame(rng.randn(case["n_query"], case["dv"]) * 1.5, columns=vs)[list(rng.permutation(vs))]
    new.index = eg.index_of(case["index"], len(new), rng)
    NV = new[vs].to_numpy(float)
    new_paths = route(M.tree_, NV)
    other = eg.alike(df, case["seed"])
    OV = other[vs].to_numpy(float)
    for name, data, V_, ps in [("training data", None, V, paths), ("training frame", df, V, paths), ("new rows", new, NV, new_paths),
                               ("as many other rows", other, OV, route(M.tree_, OV))]:
        queries(M, ps, value, data, V_, scale, name)
    again = PolicyTree(**p).fit(df, va, sample_weight=w, **options(df, E))
    expect(np.array_equal(again.tree_.threshold, M.tree_.threshold) and np.array_equal(again.tree_.feature, M.tree_.feature), "the same tree again is another one")
    few = {"sqrt": int(np.sqrt(case["dv"])), "log2": int(np.log2(case["dv"])), 0.5: int(0.5 * case["dv"])}.get(p["max_features"])
    if few is not None:
        told = PolicyTree(**dict(p, max_features=max(1, few))).fit(df, va, sample_weight=w, **options(df, E))
        expect(np.array_equal(told.tree_.threshold, M.tree_.threshold) and np.array_equal(told.tree_.feature, M.tree_.feature),
               "max_features %s of %d columns is not %s", p["max_features"], case["dv"], max(1, few))
    best = {int(np.argmax(value[q])) for q in leaves}
    ctx.nontrivial(len(leaves) > 1 and len(best) > 1)
    if case["interpreter"] and w is None:
        class Fitted:
            # the covariates given to fit are the ones used, not those of the estimator
            _is_fitted = True
            covariate = (es[0] if case["str_names"] else es) if case["seed"] % 2 else va
        I = PolicyInterpreter(**p)
        if case["refit"]:
            I.fit(df, Fitted(), covariate=va, treatment_names=None if case["names"] else list(range(5, 5 + k)), **options(df, -E if case["give"] == "array" else E))
            I.decide(df)
        names = ["stay", "call", "visit", "call again"][:k] if case["names"] else None
        expect(I.fit(df, Fitted(), covariate=va if case["seed"] % 2 or case["str_names"] else None, treatment_names=names, **options(df, E)) is I, "fit does not return the interpreter")
        for name, data, V_, ps in [("training frame", df, V, paths), ("new rows", new, NV, new_paths)]:
            want, ind = queries(M, ps, value, data, V_, scale, name)
            got = list(I.decide(data))
            expect(got == ([names[i] for i in ind] if names else list(ind)), "%s: decide", name)
            expect_close(np.asarray(I.predict(data)), want.max(axis=1), "%s: predict" % name, rtol=1e-9, atol=1e-8 * scale)
            explained(I.interpret(data=data), M.tree_, ps, V_, want, ind, scale, name)
        explained(I.interpret(), M.tree_, paths, V, *queries(M, paths, value, None, V, scale, "training data"), scale, "training data")
        ctx.event("interpreter")


# ------------------------------------------------------------------ with an estimator
@st.composite
def est_cases(draw):
    s = draw(eg.spec(max_treat=2, max_y=1, n=(40, 70), min_v=1))
    s["missing"] = False
    return dict(spec=s, kind=draw(st.sampled_from(["slearner", "tlearner", "dml", "dml"])), tv=draw(st.sampled_from(["none", "scale", "poly"])),
                depth=draw(st.sampled_from([1, 2, 3])), first=draw(st.booleans()), interpreter=draw(st.booleans()), query=draw(st.integers(0, 10**6)))


TRANS = {"none": lambda: None, "scale": lambda: StandardScaler(), "poly": lambda: PolynomialFeatures(2, include_bias=False)}


@check.sub("estimated", est_cases(), quick=250, thorough=5000, shards=6)
def estimated(case, ctx):
    s = case["spec"]
    x, yn, w, v = eg.names(s)
    df = eg.frame(s, per_group=8)
    names = (eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]))
    kw = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    tv = None
    if case["kind"] == "dml":
        est = DoubleML(LogisticRegression(C=0.6), eg.OLS(), is_discrete_treatment=True, covariate_transformer=TRANS[case["tv"]]())
        tv = est.covariate_transformer
    else:
        est = {"slearner": SLearner, "tlearner": TLearner}[case["kind"]](eg.OLS())
    est.fit(df, *names, **kw)
    E = np.asarray(est.effect_nji(df)).reshape(len(df), -1)
    ctx.event("effects of %d treatments" % E.shape[1])
    p = dict(max_depth=case["depth"], min_samples_leaf=3, min_samples_split=2, random_state=1, splitter="best", max_features=None,
             max_leaf_nodes=None, min_weight_fraction_leaf=0.0, min_impurity_decrease=0.0)
    V = df[v].to_numpy(float)
    new = eg.alike(df, case["query"]) if case["query"] % 3 == 0 else eg.new_rows(s, 6, case["query"])
    NV = new[v].to_numpy(float)
    tt = TRANS[case["tv"]]() if tv is not None else None
    if tt is not None:
        V = tt.fit_transform(V)
        NV = tt.transform(NV)
    if case["interpreter"]:
        I = PolicyInterpreter(**p).fit(df, est)
        M = I._tree_model
        ctx.event("interpreter")
    else:
        M = PolicyTree(**p)
        if case["first"]:
            # an earlier fit with other covariates
            M.fit(df, ["other"], effect_array=E)
        M.fit(df, v, est_model=est)
    scale = np.abs(E).max() + 1e-9
    paths, value, leaves = verify(M, p, V, E, None, ctx)
    for name, data, V_, ps in [("training data", None, V, paths), ("training frame", df, V, paths), ("new rows", new, NV, route(M.tree_, NV))]:
        want, ind = queries(M, ps, value, data, V_, scale, name)
        if case["interpreter"] and data is not None:
            expect(list(I.decide(data)) == list(ind), "%s: decide", name)
            explained(I.interpret(data=data), M.tree_, ps, V_, want, ind, scale, name)
    if not case["interpreter"] and case["first"]:
        # and a later one
        M.fit(df, ["other"], effect_array=E)
        O = df[["other"]].to_numpy(float)
        paths, value, _ = verify(M, p, O, E, None, ctx)
        queries(M, paths, value, df, O, scale, "fitted again without an estimator")
    ctx.nontrivial(len(leaves) > 1 and len({int(np.argmax(value[q])) for q in leaves}) > 1 if not case["first"] else len(leaves) > 1)
