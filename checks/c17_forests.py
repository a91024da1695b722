"""C17: forests weigh the training rows by how often they share a leaf, and report the weighted local regressions."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.model_selection import KFold
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import CausalForest, GRForest
from ylearn.estimator_model.causal_tree import CausalTree, CTCausalForest

check = Check("C17", "several trees, at least one of which has several leaves",
              ["one outcome (several are refused); sample weights are not covered",
               "which of the two parts of a subsample an honest tree is grown on is not specified, only that the other one gives the weights"])


def params(draw):
    return dict(n_estimators=draw(st.integers(1, 6)), sub_sample_num=draw(st.sampled_from([None, 0.5, 0.8, 1.0, 20])),
                max_depth=draw(st.sampled_from([None, None, 1, 3])), min_samples_split=draw(st.sampled_from([2, 2, 9, 0.3])),
                min_samples_leaf=draw(st.sampled_from([1, 2, 4, 0.1, 0.2])), max_features=draw(st.sampled_from([1.0, 1.0, 1, 0.5, "sqrt", "log2"])),
                n_jobs=draw(st.sampled_from([None, None, 1, 2])), random_state=draw(st.integers(0, 10**6)))


@st.composite
def grf_cases(draw):
    p = params(draw)
    p.update(max_leaf_nodes=draw(st.sampled_from([None, None, 2, 4])), min_weight_fraction_leaf=draw(st.sampled_from([0.0, 0.0, 0.15])),
             honest_subsample_num=draw(st.sampled_from([None, None, 0.4, 0.6, 7])))
    return dict(params=p, n=draw(st.integers(25, 110)), dx=draw(st.integers(1, 3)), dv=draw(st.sampled_from([1, 2, 2, 3, 3, 9])), binary=draw(st.booleans()),
                round=draw(st.sampled_from([None, None, 1, 0])), seed=draw(st.integers(0, 10**6)), index=draw(st.sampled_from(eg.INDEXES)),
                n_query=draw(st.sampled_from([1, 5, 99, 100, 101, 230, "same", "same"])), str_names=draw(st.booleans()), y_scale=draw(st.sampled_from([1.0, 20.0])),
                refit=draw(st.sampled_from([None, None, 3])), warm=draw(st.sampled_from([None, None, None, 1, 2])))


def grf_frame(case, seed=None):
    rng = np.random.RandomState(case["seed"] if seed is None else seed)
    n = case["n"]
    V = rng.randn(n, case["dv"])
    if case["round"] is not None:
        V = V.round(case["round"])
    X = 0.5 * V[:, :1] + rng.randn(n, case["dx"])
    if case["binary"]:
        X = (X > 0).astype(int)
    y = (X * (1 + np.arange(case["dx"]) + V[:, :1] ** 2)).sum(axis=1) + V[:, 0] + 0.5 * rng.randn(n) + 3
    df = pd.DataFrame(V, columns=["v%d" % i for i in range(case["dv"])])
    for i in range(case["dx"]):
        df["x%d" % i] = X[:, i]
    df["y"] = y * case["y_scale"]
    df = df[list(rng.permutation(df.columns))]
    df.index = eg.index_of(case["index"], n, rng)
    return df


def route(T, V):
    V = np.asarray(V, float).astype(np.float32)
    out = np.zeros(len(V), int)
    for i, r in enumerate(V):
        k = 0
        while T.children_left[k] != -1:
            k = T.children_left[k] if r[T.feature[k]] <= T.threshold[k] else T.children_right[k]
        out[i] = k
    return out


def features_of(told, d):
    k = {"sqrt": int(np.sqrt(d)), "log2": int(np.log2(d)), 0.5: int(0.5 * d)}.get(told)
    return None if k is None else max(k, 1)


def pseudo_outcomes(X, y):
    """what the splits of a generalised random forest separate"""
    theta = np.linalg.lstsq(X, y, rcond=None)[0]
    xd, yd = X - X.mean(axis=0), y - y.mean()
    A = xd.T @ xd / len(y) + 1e-7 * np.eye(X.shape[1])
    return (np.linalg.solve(A, (xd * (yd - xd @ theta)[:, None]).T)).sum(axis=0), np.linalg.cond(A), np.linalg.matrix_rank(X) == X.shape[1]


def split_scores(rho, V, min_leaf):
    V = V.astype(np.float32)
    out = []
    for f in range(V.shape[1]):
        vals = np.unique(V[:, f])
        for a, b in zip(vals, vals[1:]):
            l = V[:, f] <= a
            if b > a + np.float32(2e-7) and min(l.sum(), (~l).sum()) >= min_leaf:
                out.append(rho[l].sum() ** 2 / l.sum() + rho[~l].sum() ** 2 / (~l).sum())
    return out


def check_forest(L, trees, subs, p, X, y, V, Q, tol, ctx):
    """the trees are grown by the parameters on their samples; returns the local regressions and whether there are several leaves"""
    n, dx, dv = len(V), X.shape[1], V.shape[1]
    sub = p["sub_sample_num"]
    n_sub = round(0.85 * n) if sub is None else sub if isinstance(sub, int) else round(sub * n)
    alphas = [np.zeros((len(V), n)), np.zeros((len(Q), n))]
    counts = [np.zeros(len(V)), np.zeros(len(Q))]
    several = False
    total_imp = []
    ap = [np.asarray(L.apply(V)), np.asarray(L.apply(Q))]
    expect(ap[0].shape == (n, len(trees)) and ap[1].shape == (len(Q), len(trees)), "apply gives shapes %s", [a.shape for a in ap])
    for b, (t, s) in enumerate(zip(trees, subs)):
        T = t.tree_
        s = np.asarray(s)
        expect(len(s) == n_sub and len(set(s.tolist())) == n_sub and s.min() >= 0 and s.max() < n, "tree %d has a sample of %d rows, %d distinct, of %d wanted",
               b, len(s), len(set(s.tolist())), n_sub)
        leaf = [route(T, V), route(T, Q)]
        for i in range(2):
            expect(np.array_equal(ap[i][:, b], leaf[i]), "apply is not the leaf of the rows")
        several |= T.node_count > 1
        h = p["honest_subsample_num"]
        if h is None:
            grow, label = s, s
        else:
            k = h if isinstance(h, int) else round(h * n_sub)
            options = [(s[k:], s[:k]), (s[:k], s[k:])]
            options = [o for o in options if all(c == T.n_node_samples[q] for q, c in zip(*np.unique(leaf[0][o[0]], return_counts=True)))
                       and len(o[0]) == T.n_node_samples[0]]
            expect(options, "tree %d is grown on %d rows, not on one part of its honest sample", b, T.n_node_samples[0])
            grow, label = options[0]
            ctx.event("honest")
        # the shape of the tree
        m = len(grow)
        ml, ms = p["min_samples_leaf"], p["min_samples_split"]
        min_leaf = ml if isinstance(ml, int) else int(np.ceil(ml * m))
        min_leaf = max(min_leaf, p.get("min_weight_fraction_leaf", 0) * m)
        min_split = max(2, ms if isinstance(ms, int) else int(np.ceil(ms * m)))
        rows = {0: grow}
        depth = {0: 0}
        lf = []
        own_gains, all_regular = np.zeros(dv), True
        Vf = V.astype(np.float32)
        for q in range(T.node_count):
            r = rows[q]
            expect(len(r) == T.n_node_samples[q] and (q == 0 or len(r) >= min_leaf - 1e-9), "node %d of tree %d has %d rows", q, b, len(r))
            if T.children_left[q] == -1:
                lf.append(q)
                continue
            expect(len(r) >= min_split and (p["max_depth"] is None or depth[q] < p["max_depth"]), "node %d of %d rows at depth %d is split", q, len(r), depth[q])
            go = Vf[r, T.feature[q]] <= T.threshold[q]
            for child, rr in ((T.children_left[q], r[go]), (T.children_right[q], r[~go])):
                rows[child], depth[child] = rr, depth[q] + 1
            rho, cond, full = pseudo_outcomes(X[r], y[r])
            regular = full and cond < 1e5 and len(r) >= 3 * dx
            own_gains[T.feature[q]] += rho[go].sum() ** 2 / go.sum() + rho[~go].sum() ** 2 / (~go).sum()
            all_regular &= regular
            if isinstance(p["max_features"], float) and p["max_features"] == 1.0:
                if regular:
                    got = rho[go].sum() ** 2 / go.sum() + rho[~go].sum() ** 2 / (~go).sum()
                    best = max(split_scores(rho, V[r], min_leaf))
                    expect(got >= best * (1 - tol) - 1e-9, "node %d of tree %d is split with criterion %s where %s is possible", q, b, got, best)
        own = np.asarray(t.feature_importances_)
        expect(own.shape == (dv,) and (own >= 0).all(), "feature_importances_ of tree %d: %s", b, own)
        if all_regular and own_gains.sum() > 1e-6:
            expect_close(own, own_gains / own_gains.sum(), "feature_importances_ of tree %d" % b, rtol=max(1e-4, 10 * tol), atol=max(1e-4, 10 * tol))
            ctx.event("importance")
        if T.node_count > 1:
            total_imp.append(own)
        expect(p.get("max_leaf_nodes") is None or len(lf) <= p.get("max_leaf_nodes"), "%d leaves", len(lf))
        if not any((p["max_depth"], p.get("max_leaf_nodes"))) and T.node_count == 1 and m >= max(min_split, 2 * min_leaf) and isinstance(p["max_features"], float) and p["max_features"] == 1.0:
            rho = np.zeros(m)
            expect(not split_scores(rho, V[grow], min_leaf), "tree %d of %d rows is not split at all", b, m)
        for i in range(2):
            same = leaf[i][:, None] == leaf[0][label][None, :]
            size = same.sum(axis=1)
            alphas[i][:, label] += same / np.maximum(size, 1)[:, None]
            counts[i] += size > 0
    wants = []
    for i in range(2):
        m = len(alphas[i])
        a = alphas[i] / np.maximum(counts[i], 1)[:, None]
        want, keep = np.zeros((m, dx)), counts[i] > 0
        for r in range(m):
            xm, ym = a[r] @ X, a[r] @ y
            A = (X - xm).T @ ((X - xm) * a[r][:, None])
            b = (X - xm).T @ (a[r] * (y - ym))
            want[r] = np.linalg.solve(A + 1e-5 * np.eye(dx), b)
        wants.append((want, keep))
    imp = np.asarray(L.feature_importance)
    expect(imp.shape == (dv,) and (imp >= -1e-12).all(), "feature_importance %s", imp)
    if total_imp and np.sum(total_imp) > 0:
        m = np.mean(total_imp, axis=0)
        expect_close(imp, m / m.sum(), "feature_importance", rtol=1e-9, atol=1e-9)
    return wants, several


@check.sub("grf", grf_cases(), quick=400, thorough=8000, shards=8)
def grf(case, ctx):
    p = dict(case["params"])
    n = case["n"]
    df = grf_frame(case)
    xs, vs = ["x%d" % i for i in range(case["dx"])], ["v%d" % i for i in range(case["dv"])]
    xa, va = eg.arg(xs, case["str_names"]), eg.arg(vs, case["str_names"])
    L = GRForest(**p)
    if case["refit"]:
        L.fit(grf_frame(dict(case, n=n + 3), case["refit"]), "y", xa, covariate=va)
        L.estimate()
    before = df.copy()
    subs = []
    if case["warm"] and p["n_estimators"] > case["warm"] and not case["refit"]:
        L = GRForest(**dict(p, warm_start=True, n_estimators=case["warm"]))
        L.fit(df, "y", xa, covariate=va)
        subs = list(L.sub_sample_idx)
        L.n_estimators = p["n_estimators"]
        ctx.event("warm start")
    expect(L.fit(df, "y", xa, covariate=va) is L, "fit does not return the estimator")
    expect(df.equals(before), "fit changed the data")
    subs += list(L.sub_sample_idx)
    trees = list(L.estimators_)
    expect(len(trees) == p["n_estimators"] == len(subs) == len(L), "%d trees", len(trees))
    X, y, V = df[xs].to_numpy(float), df["y"].to_numpy(float), df[vs].to_numpy(float)

    rng = np.random.RandomState(case["seed"] + 1)
    same = case["n_query"] == "same"
    Q = rng.randn(n if same else case["n_query"], case["dv"]) * 1.3
    if case["round"] is not None:
        Q = Q.round(case["round"])
    new = pd.DataFrame(Q, columns=vs)[list(rng.permutation(vs))]
    new.index = df.index if same else eg.index_of(case["index"], len(new), rng)

    wants, several = check_forest(L, trees, subs, p, X, y, V, Q, 1e-6, ctx)
    for name, data, (want, keep) in [("training data", None, wants[0]), ("training frame", df, wants[0]), ("new rows", new, wants[1])]:
        got = np.asarray(L.estimate(data))
        expect(got.shape == want.shape, "%s: effects of shape %s", name, got.shape)
        expect_close(got[keep], want[keep], "%s: effects" % name, rtol=1e-5, atol=1e-6 * case["y_scale"])
    again = GRForest(**p).fit(df, "y", xa, covariate=va)
    expect_close(np.asarray(again.estimate(new)), np.asarray(L.estimate(new)), "the same forest again", rtol=1e-9, atol=1e-9)
    k = features_of(p["max_features"], case["dv"])
    if k is not None:
        told = GRForest(**dict(p, max_features=k)).fit(df, "y", xa, covariate=va)
        expect(np.array_equal(np.asarray(told.estimate(new)), np.asarray(again.estimate(new))), "max_features %s of %d columns is not %s", p["max_features"], case["dv"], k)
    ctx.nontrivial(several and len(trees) > 1)


# ------------------------------------------------------------------ local centering
@st.composite
def cf_cases(draw):
    cont = draw(st.booleans())
    s = draw(eg.spec(max_treat=1 if cont else 2, max_y=1, n=(40, 80), min_v=1))
    s["missing"] = False
    if len(s["levels"]) == 2:
        s["levels"] = [lv[:2] for lv in s["levels"]]
    p = params(draw)
    p["honest_subsample_num"] = draw(st.sampled_from([None, None, 0.5]))
    p["max_leaf_nodes"] = draw(st.sampled_from([None, None, None, 3]))
    p["min_weight_fraction_leaf"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
    return dict(cont=cont, spec=s, params=p, classes=draw(st.sampled_from([False, False, True])), cf=draw(st.sampled_from([1, 1, 2, 3])), tv=draw(st.sampled_from(["none", "none", "scale", "poly"])),
                tw=draw(st.sampled_from(["none", "none", "scale"])), control=draw(st.sampled_from([None, 0, 1, 2, 3])),
                form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])), query=draw(st.integers(0, 10**6)))


TRANS = {"none": lambda: None, "scale": lambda: StandardScaler(), "poly": lambda: PolynomialFeatures(2, include_bias=False)}


@check.sub("centered", cf_cases(), quick=240, thorough=5000, shards=8, rule="the forest is honest, cross fitted or has a control other than the default")
def centered(case, ctx):
    s, cont, p = case["spec"], case["cont"], case["params"]
    x, yn, w, v = eg.names(s)
    df = eg.frame(s, per_group=8)
    rng = np.random.RandomState(s["seed"] + 7)
    if cont:
        df[x[0]] = df[v[0]] * 0.6 + rng.randn(len(df))
        df[yn[0]] += df[x[0]] * (1 + df[v[0]] ** 2)
    n = len(df)
    if case["classes"]:
        df[yn[0]] = (df[yn[0]] > df[yn[0]].median()).astype(int)
    tw, tv = TRANS[case["tw"]](), TRANS[case["tv"]]()
    V = df[v].to_numpy(float)
    V = V if tv is None else tv.fit_transform(V)
    Z = V
    if w:
        W = df[w].to_numpy(float)
        Z = np.hstack([W if tw is None else tw.fit_transform(W), V])
    cs = eg.combos(s)
    if cont:
        R = df[x].to_numpy(float)
        target = R[:, 0]
    else:
        R = np.stack([eg.mask(df, x, g) for g in cs], axis=1).astype(float)
        target = R.argmax(axis=1)
    y = df[yn[0]].to_numpy(float)
    xh, yh = np.zeros_like(R), np.zeros(n)

    def outcome_model():
        return LogisticRegression(C=0.7, tol=1e-9, max_iter=3000) if case["classes"] else eg.OLS()

    for tr, te in ([(np.arange(n),) * 2] if case["cf"] == 1 else KFold(case["cf"]).split(Z)):
        if not cont and len(set(target[tr])) < len(cs):
            ctx.reject("a fold without some treatment")
        a = (eg.OLS() if cont else LogisticRegression(C=0.6, tol=1e-9, max_iter=3000)).fit(Z[tr], target[tr])
        xh[te] = (a.predict(Z[te]) if cont else a.predict_proba(Z[te])).reshape(len(te), -1)
        if case["classes"] and len(set(y[tr])) < 2:
            ctx.reject("a fold with one class")
        yh[te] = outcome_model().fit(Z[tr], y[tr]).predict(Z[te])
    R = R - xh
    ctrl = 0
    kw = {}
    if not cont and case["control"] is not None:
        ctrl = case["control"] % len(cs)
        kw["control"] = eg.wrap_label(cs[ctrl], case["form"])
    if not cont:
        R = np.delete(R, ctrl, axis=1)
    def models():
        return eg.OLS() if cont else LogisticRegression(C=0.6, tol=1e-9, max_iter=3000), outcome_model()

    p = dict(p, is_discrete_treatment=not cont, is_discrete_outcome=case["classes"], cf_fold=case["cf"])
    if not cont:
        p["categories"] = eg.categories(s)
    given = TRANS[case["tw"]](), TRANS[case["tv"]]()
    L = CausalForest(*models(), adjustment_transformer=given[0], covariate_transformer=given[1], **p)
    if case["query"] % 5 == 1:
        # fitted before to another table, with another control
        early = df.copy()
        early[w + v] = early[w + v] * 2 - 1
        more = {} if cont else dict(control=eg.wrap_label(cs[(ctrl + 1) % len(cs)], case["form"]))
        L.fit(early, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]), **more)
        L.estimate(), L.effect_nji()
        ctx.event("fitted again")
    before = df.copy()
    expect(L.fit(df, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]),
                 covariate=eg.arg(v, s["str_names"]), **kw) is L, "fit does not return the estimator")
    expect(df.equals(before), "fit changed the data")
    if case["query"] % 4 == 0:
        # another one made with the same transformers
        other = CausalForest(*models(), adjustment_transformer=given[0], covariate_transformer=given[1], **p)
        far = df.copy()
        far[w + v] = far[w + v] * 3 + 1
        other.fit(far, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]), **kw)
    new = eg.alike(df, case["query"]) if case["query"] % 3 == 0 else eg.new_rows(s, 6, case["query"])
    NV = new[v].to_numpy(float)
    NV = NV if tv is None else tv.transform(NV)
    F = L.yx_model
    wants, several = check_forest(F, list(F.estimators_), list(F.sub_sample_idx), p, R, y - yh, V, NV, 1e-4, ctx)
    expect(np.array_equal(np.asarray(L.apply(NV)), np.asarray(F.apply(NV))) and
           np.array_equal(np.asarray(L.feature_importance), np.asarray(F.feature_importance)), "apply or feature_importance is not of the forest")
    for name, data, (want, keep) in [("training data", None, wants[0]), ("training frame", df, wants[0]), ("new rows", new, wants[1])]:
        got = np.asarray(L.estimate(data))
        expect(got.shape == want.shape, "%s: effects of shape %s", name, got.shape)
        tol = dict(rtol=1e-3, atol=1e-4 * (1 + np.abs(want).max()))
        expect_close(got[keep], want[keep], "%s: effects" % name, **tol)
        full = want[:, None, :]
        if not cont:
            full = np.insert(full, ctrl, 0, axis=2)
        expect_close(np.asarray(L.effect_nji(data))[keep], full[keep], "%s: effect_nji" % name, **tol)
    def anew(**more):
        one = CausalForest(*models(), adjustment_transformer=TRANS[case["tw"]](), covariate_transformer=TRANS[case["tv"]](), **dict(p, **more))
        return one.fit(df, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]), **kw)

    again = anew()
    k = features_of(p["max_features"], V.shape[1])
    if k is not None:
        expect(np.array_equal(np.asarray(anew(max_features=k).estimate(new)), np.asarray(L.estimate(new))), "max_features %s of %d columns is not %s", p["max_features"], V.shape[1], k)
        ctx.event("max_features")
    expect(np.array_equal(np.asarray(again.estimate(new)), np.asarray(L.estimate(new))), "the same forest again gives other effects")
    ctx.nontrivial(several and bool(p["honest_subsample_num"] or case["cf"] > 1 or ctrl))
    ctx.event("continuous" if cont else "discrete")


# ------------------------------------------------------------------ forests of causal trees
@st.composite
def ct_cases(draw):
    s = draw(eg.spec(max_treat=2, max_y=1, n=(40, 90)))
    s["missing"] = False
    p = params(draw)
    p["sub_sample_num"] = draw(st.sampled_from([None, 0.9, 1.0]))
    p["honest_subsample_num"] = draw(st.sampled_from([None, None, 0.4, 6]))
    p["min_impurity_decrease"] = draw(st.sampled_from([0.0, -1e9]))
    p["n_estimators"] = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 11]))
    return dict(spec=s, params=p, n_query=draw(st.sampled_from([1, 1, 7, 40, "same"])), refit=draw(st.sampled_from([None, None, 5])), warm=draw(st.sampled_from([None, None, 1, 3])), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)), explicit=draw(st.booleans()),
                form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])), query=draw(st.integers(0, 10**6)))


@check.sub("causal_trees", ct_cases(), quick=240, thorough=5000, shards=6)
def causal_trees(case, ctx):
    s, p = case["spec"], case["params"]
    x, yn, w, v = eg.names(s)
    cs = eg.combos(s)
    df = eg.frame(s, per_group=12)
    kw = {}
    if case["explicit"]:
        t = cs[case["t"] % len(cs)]
        c = [g for g in cs if g != t][case["c"] % (len(cs) - 1)]
        kw = dict(treat=eg.wrap_label(t, case["form"]), control=eg.wrap_label(c, case["form"]))
    args = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]), **kw)
    ya, xa = eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"])
    L = CTCausalForest(**p)
    subs = []
    if case["refit"]:
        other = dict(args)
        if case["explicit"]:
            other.update(treat=args["control"], control=args["treat"])
        L.fit(eg.frame(s, per_group=12, seed=case["refit"]), ya, xa, **other)
        L.estimate()
    elif case["warm"] and case["warm"] < p["n_estimators"]:
        L = CTCausalForest(**dict(p, warm_start=True, n_estimators=case["warm"]))
        L.fit(df, ya, xa, **args)
        subs = list(L.sub_sample_idx)
        L.n_estimators = p["n_estimators"]
        ctx.event("warm start")
    before = df.copy()
    expect(L.fit(df, ya, xa, **args) is L, "fit does not return the estimator")
    expect(df.equals(before), "fit changed the data")
    subs += list(L.sub_sample_idx)
    new = eg.alike(df, case["query"]) if case["n_query"] == "same" else eg.new_rows(s, case["n_query"], case["query"])
    n_sub = round((0.85 if p["sub_sample_num"] is None else p["sub_sample_num"]) * len(df))
    own = {k: p[k] for k in ("max_depth", "min_samples_split", "min_samples_leaf", "max_features", "min_impurity_decrease", "honest_subsample_num")}
    fresh = []
    expect(len(subs) == len(L.estimators_), "%d trees on %d samples", len(L.estimators_), len(subs))
    for tree, rows in zip(L.estimators_, subs):
        expect(len(rows) == n_sub == len(set(np.asarray(rows).tolist())), "a tree has %d rows, wanted %d", len(rows), n_sub)
        one = CausalTree(random_state=tree.random_state, **own).fit(df.iloc[rows], ya, xa, **args)
        fresh.append(one)
    expect(len(fresh) == p["n_estimators"], "%d trees", len(fresh))
    M = [df[w + v].to_numpy().astype(np.float32), new[w + v].to_numpy().astype(np.float32)]
    for name, data, i in [("training data", None, 0), ("training frame", df, 0), ("new rows", new, 1)]:
        want = np.mean([np.asarray(f.estimate(df if i == 0 else new)).reshape(-1) for f in fresh], axis=0)
        got = np.asarray(L.estimate(data))
        expect(got.shape in [(len(M[i]), 1), (len(M[i]),)], "%s: effects of shape %s", name, got.shape)
        expect_close(got.reshape(-1), want, "%s: effects" % name, rtol=1e-7, atol=1e-7)
    ap = np.asarray(L.apply(M[1]))
    expect(np.array_equal(ap, np.stack([np.asarray(f.apply(data=new)) for f in fresh], axis=1)), "apply")
    imp = [np.asarray(f.feature_importance) for f in fresh if f.tree_.node_count > 1]
    if imp and abs(np.sum(imp)) > 0.01:
        m = np.mean(imp, axis=0)
        expect_close(np.asarray(L.feature_importance), m / m.sum(), "feature_importance", rtol=1e-6, atol=1e-6)
    again = CTCausalForest(**p).fit(df, ya, xa, **args)
    expect_close(np.asarray(again.estimate(new)), np.asarray(L.estimate(new)), "the same forest again", rtol=1e-9, atol=1e-9)
    ctx.nontrivial(len(fresh) > 1 and any(f.get_n_leaves() > 1 for f in fresh))
