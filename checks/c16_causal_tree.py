"""C16: a causal tree predicts, in each leaf, the difference in means of its treated and control training rows."""
import numpy as np
from hypothesis import strategies as st
from sklearn.model_selection import train_test_split
from sklearn.utils import check_random_state

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model.causal_tree import CausalTree

check = Check("C16", "the tree has at least two leaves with treated and control rows",
              ["single outcome (the library says that several are not supported)",
               "treated and control rows are both among those the tree is grown on"])
EPS = 1e-5


@st.composite
def cases(draw):
    s = draw(eg.spec(max_treat=2, cats=True, three=True, max_y=1, n=(16, 90)))
    s["missing"] = False
    return dict(spec=s, round=draw(st.sampled_from([None, None, 1, 0])), max_depth=draw(st.sampled_from([None, None, 1, 2, 3, 5])),
                leaf=draw(st.sampled_from([1, 2, 3, 5, 0.05, 0.2])), split=draw(st.sampled_from([2, 2, 4, 11, 0.1, 0.5])),
                max_features=draw(st.sampled_from([None, None, None, 1, 0.6, "sqrt", "log2"])),
                decrease=draw(st.sampled_from([0.0, 0.0, -1e9, -1e9, 0.5, 3.0])),
                splitter=draw(st.sampled_from(["best", "best", "best", "random"])),
                honest=draw(st.sampled_from([None, None, None, 0.3, 0.5, 6])), seed=draw(st.integers(0, 10**6)),
                t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)), default_t=draw(st.booleans()), default_c=draw(st.booleans()),
                form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])), refit=draw(st.sampled_from([None, None, 5])),
                more=draw(st.sampled_from([0, 0, 0, 1, 5, 9])), aim=draw(st.sampled_from([None, None, "split", "leaf", "depth"])),
                pick=draw(st.integers(0, 30)), plus=draw(st.sampled_from([0, 0.5, 1])),
                scale=draw(st.sampled_from([1.0, 1.0, 30.0, 0.1])), query=draw(st.integers(0, 10**6)), n_query=draw(st.integers(1, 9)))


def wide(case, df, seed):
    """more columns, so that fractions and roots of their number differ"""
    df = df.copy()
    for i in range(case["more"]):
        df["z%d" % i] = np.random.RandomState(seed + i).randn(len(df)).round(3)
    return df


def build(case):
    return CausalTree(splitter=case["splitter"], max_depth=case["max_depth"], min_samples_leaf=case["leaf"], min_samples_split=case["split"],
                      max_features=case["max_features"], min_impurity_decrease=case["decrease"],
                      honest_subsample_num=case["honest"], random_state=case["seed"], categories=eg.categories(case["spec"]))


def dataset(case, seed=None):
    s = case["spec"]
    df = eg.frame(s, per_group=6, seed=seed)
    _, y, w, v = eg.names(s)
    df[y] = df[y] * case["scale"]
    if case["round"] is not None:
        df[w + v] = df[w + v].round(case["round"])
    return wide(case, df, case["seed"] % 1000 + (seed or 0))


def stats(y, t):
    n, total, sq = t.sum() + EPS, y[t].sum(), (y[t] ** 2).sum()
    m = total / n
    return m, 2 * (sq / n - m * m) / n


def score(y, t):
    """what a split maximises, summed over the children"""
    (mt, vt), (mc, vc) = stats(y, t), stats(y, ~t)
    return len(y) * ((mt - mc) ** 2 - vt - vc)


def both(t):
    return t.any() and not t.all()


def best_split(X, y, t, min_leaf):
    best = None
    for f in range(X.shape[1]):
        values = np.unique(X[:, f])
        for a, b in zip(values, values[1:]):
            if b <= a + np.float32(2e-7):
                continue
            left = X[:, f] <= a
            if min(left.sum(), (~left).sum()) < min_leaf or not both(t[left]) or not both(t[~left]):
                continue
            got = score(y[left], t[left]) + score(y[~left], t[~left])
            best = got if best is None else max(best, got)
    return best


@check.sub("tree", cases(), quick=800, thorough=15000, shards=8)
def tree(case, ctx):
    s = case["spec"]
    x, yn, w, v = eg.names(s)
    w = w + ["z%d" % i for i in range(case["more"])]
    cs = eg.combos(s)
    # without being told, the second level of each treatment is compared with the first
    t = tuple(lv[1] for lv in eg.level_order(s)) if case["default_t"] else cs[case["t"] % len(cs)]
    c = cs[0] if case["default_c"] else [g for g in cs if g != t][case["c"] % (len(cs) - 1)]
    if t == c:
        ctx.reject("treat and control are the same")
    kw = {}
    if not case["default_t"]:
        kw["treat"] = eg.wrap_label(t, case["form"])
    if not case["default_c"]:
        kw["control"] = eg.wrap_label(c, case["form"])
    args = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    ya, xa = eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"])
    df = dataset(case)
    if case["aim"]:
        # limits at the sizes which the tree has without them
        free = build(dict(case, split=2, leaf=1, max_depth=None)).fit(df, ya, xa, **args, **kw)
        sizes = free.tree_.n_node_samples
        inner = free.tree_.children_left != -1
        pool = {"split": sizes[inner], "leaf": sizes[1:], "depth": [free.get_depth()]}[case["aim"]]
        pool = sorted({int(i) for i in pool if i > 1})
        if pool:
            k, total = pool[case["pick"] % len(pool)], int((eg.mask(df, x, t) | eg.mask(df, x, c)).sum())
            if case["aim"] == "depth":
                case["max_depth"] = max(1, k - (case["plus"] == 1))
            elif case["plus"] == 0.5:
                case[case["aim"]] = min(1.0, (k + 0.5) / total)
            else:
                case[case["aim"]] = max(k + case["plus"], 2)
            if case["leaf"] == 1.0:
                case["leaf"] = 0.2
            ctx.event("limits at a size of the tree")
    L = build(case)
    if case["refit"]:
        # with the other two, or without being told
        L.fit(dataset(case, case["refit"]), ya, xa, **args, **(dict(treat=kw["control"], control=kw["treat"]) if len(kw) == 2 and case["seed"] % 3 else {}))
        L.estimate()
    before = df.copy()
    expect(L.fit(df, ya, xa, **args, **kw) is L, "fit does not return the estimator")
    expect(df.equals(before), "fit changed the data")

    mt, mc = eg.mask(df, x, t), eg.mask(df, x, c)
    used = np.flatnonzero(mt | mc)
    y_all = df[yn[0]].to_numpy(float)
    X_all = df[w + v].to_numpy().astype(np.float32)
    X, y, treated = X_all[used], y_all[used], mt[used]
    n = len(used)
    label = None
    if case["honest"] is not None:
        frac = case["honest"] / n if isinstance(case["honest"], int) else case["honest"]
        grow, label = train_test_split(np.arange(n), test_size=frac, random_state=check_random_state(case["seed"]))
    else:
        grow = np.arange(n)
    if not both(treated[grow]):
        ctx.reject("the tree is grown on one group only")
    T = L.tree_
    left, right, feature, threshold = T.children_left, T.children_right, T.feature, T.threshold

    def route(rows):
        node, path = np.zeros(len(rows), int), [[0] for _ in rows]
        for i, r in enumerate(rows):
            while left[node[i]] != -1:
                k = node[i]
                node[i] = left[k] if r[feature[k]] <= threshold[k] else right[k]
                path[i].append(node[i])
        return node, path

    # the shape of the tree
    min_leaf = case["leaf"] if isinstance(case["leaf"], int) else int(np.ceil(case["leaf"] * n))
    min_split = case["split"] if isinstance(case["split"], int) else max(2, int(np.ceil(case["split"] * n)))
    min_split = max(min_split, 2 * min_leaf)
    leaf_of, paths = route(X[grow])
    members = {}
    for i, p in enumerate(paths):
        for k in p:
            members.setdefault(k, []).append(i)
    expect(sorted(members) == list(range(T.node_count)), "nodes %s of %d have training rows", sorted(members), T.node_count)
    depth = {0: 0}
    for k in range(T.node_count):
        if left[k] != -1:
            depth[left[k]] = depth[right[k]] = depth[k] + 1
    expect(L.get_depth() == max(depth.values()), "get_depth %s, wanted %s", L.get_depth(), max(depth.values()))
    n_leaves = sum(1 for k in range(T.node_count) if left[k] == -1)
    expect(L.get_n_leaves() == n_leaves, "get_n_leaves %s, wanted %s", L.get_n_leaves(), n_leaves)
    expect(case["max_depth"] is None or max(depth.values()) <= case["max_depth"], "deeper than max_depth")
    G, gy, gt = X[grow], y[grow], treated[grow]
    exact = case["splitter"] == "best" and case["max_features"] is None
    for k in range(T.node_count):
        m = np.array(members[k])
        expect(T.n_node_samples[k] == len(m), "node %d says it has %s rows, it has %d", k, T.n_node_samples[k], len(m))
        expect(k == 0 or len(m) >= min_leaf, "a node of %d rows with min_samples_leaf %s", len(m), case["leaf"])
        may_split = len(m) >= min_split and (case["max_depth"] is None or depth[k] < case["max_depth"])
        here = score(gy[m], gt[m]) / len(m)
        tiny = 2e-5 + 1e-6 * abs(here)
        if left[k] == -1:
            if exact and may_split:
                want = best_split(G[m], gy[m], gt[m], min_leaf)
                # the share of the rows which the decrease is multiplied with is not specified
                gain = -np.inf if want is None else want / len(m) - here
                expect(min(gain, gain * len(m) / len(G)) <= case["decrease"] + tiny, "leaf %d of %d rows could be split, which gains %s", k, len(m), gain)
            continue
        expect(may_split, "node %d with %d rows at depth %d is split", k, len(m), depth[k])
        if exact and len(m) <= 60:
            want = best_split(G[m], gy[m], gt[m], min_leaf)
            lm = np.array(members[left[k]])
            rm = np.array(members[right[k]])
            got = score(gy[lm], gt[lm]) + score(gy[rm], gt[rm])
            expect(got / len(m) - here >= case["decrease"] - tiny, "node %d is split for a gain of %s", k, got / len(m) - here)
            expect(want is not None and got >= want - 2e-5 * len(m) - 1e-6 * abs(want), "node %d is split with criterion %s where %s is possible", k, got, want)

    # the effects in the leaves
    rows = grow if label is None else label
    src_leaf = route(X[rows])[0]
    value, good = {}, 0
    for k in range(T.node_count):
        if left[k] != -1:
            continue
        m = src_leaf == k
        ly, lt = y[rows][m], treated[rows][m]
        if label is not None and not both(lt):  # the honest rows cannot tell
            m = leaf_of == k
            ly, lt = gy[m], gt[m]
        expect(both(lt), "leaf %d has treated and control rows: %s", k, lt)
        value[k] = ly[lt].mean() - ly[~lt].mean()
        good += 1
    new = wide(case, eg.new_rows(s, case["n_query"], case["query"]), case["query"])
    if case["round"] is not None:
        new[w + v] = new[w + v].round(case["round"])
    scale = 1 + np.abs(y_all).max()
    other = eg.alike(df, case["query"])
    for name, data, M in [("training data", None, X_all), ("training frame", df, X_all), ("new rows", new, new[w + v].to_numpy().astype(np.float32)),
                          ("as many other rows", other, other[w + v].to_numpy().astype(np.float32))]:
        e = np.asarray(L.estimate(data))
        expect(e.shape in [(len(M),), (len(M), 1)], "%s: effects of shape %s", name, e.shape)
        e = e.reshape(-1)
        lf, pth = route(M)
        expect_close(e, np.array([value[k] for k in lf]), "%s: effects in the leaves" % name, rtol=1e-4, atol=1e-4 * scale)
        expect(np.array_equal(np.asarray(L.apply(data=data)).ravel(), lf), "%s: apply", name)
        expect(np.array_equal(np.asarray(L.apply(wv=M.astype(float))).ravel(), lf), "%s: apply to an array", name)
        ind = L.decision_path(data=data).toarray()
        want = np.zeros((len(M), T.node_count), int)
        for i, p in enumerate(pth):
            want[i, p] = 1
        expect(np.array_equal(ind, want), "%s: decision_path", name)
        for q in ("ATE", "CATE"):
            expect_close(np.ravel(L.estimate(data, quantity=q)), [e.mean()], "%s: %s" % (name, q), rtol=1e-7, atol=1e-9 * scale)
        nji = np.asarray(L.effect_nji(data))
        expect(nji.shape == (len(M), 1, 2), "%s: effect_nji of shape %s", name, nji.shape)
        expect_close(nji[:, 0, :], np.stack([0 * e, e], 1), "%s: effect_nji" % name, rtol=1e-9, atol=1e-12)
    imp = np.asarray(L.feature_importance)
    expect(imp.shape == (X.shape[1],) and np.all(np.isfinite(imp)), "feature_importance %s", imp)
    gain = np.zeros(X.shape[1])
    for k in range(T.node_count):
        if left[k] != -1:
            a, b = members[left[k]], members[right[k]]
            gain[feature[k]] += score(gy[a], gt[a]) + score(gy[b], gt[b]) - score(gy[members[k]], gt[members[k]])
    if gain.sum() > 1e-2 * np.abs(gain).sum() and gain.sum() > 0.05 * len(gy):
        expect_close(imp, gain / gain.sum(), "feature_importance", rtol=1e-2, atol=1e-2)
        ctx.event("importance")

    # the same again
    L2 = build(case).fit(df, ya, xa, **args, **kw)
    expect(np.array_equal(np.asarray(L2.estimate(new)), np.asarray(L.estimate(new))), "not reproducible with the same random_state")
    m = len(w + v)
    k = {"sqrt": int(np.sqrt(m)), "log2": int(np.log2(m)), 0.6: int(0.6 * m)}.get(case["max_features"])
    if k is not None:
        L2 = build(dict(case, max_features=max(1, k))).fit(df, ya, xa, **args, **kw)
        expect(np.array_equal(L2.estimate(new), L.estimate(new)) and L2.tree_.node_count == T.node_count, "max_features %s of %d columns is not %s", case["max_features"], m, max(1, k))
    ctx.nontrivial(good >= 2)
    if label is not None:
        ctx.event("honest")
    if len(used) < len(df):
        ctx.event("other treatment values")
