"""C28: what is drawn of a fitted tree, curve or graph is what was fitted."""
import re

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import networkx as nx  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from sklearn.linear_model import LogisticRegression  # noqa: E402
from sklearn.preprocessing import PolynomialFeatures, StandardScaler  # noqa: E402

from checks.c18_policy import route  # noqa: E402
from vlib import estgen as eg, gens  # noqa: E402
from vlib.harness import Check, expect, expect_close  # noqa: E402
from ylearn.effect_interpreter.ce_interpreter import CEInterpreter  # noqa: E402
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter  # noqa: E402
from ylearn.estimator_model import DoubleML, SLearner, TLearner  # noqa: E402
from ylearn.estimator_model.causal_tree import CausalTree  # noqa: E402
from ylearn.policy.policy_model import PolicyTree  # noqa: E402

check = Check("C28", "the tree has several leaves, the curves are not constant, the graph has edges",
              ["what a drawing shows is read from the texts, lines, bars and arrows of matplotlib and from the graphs handed to graphviz", "colours are not judged"])
NUM = r"-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"
TRANS = {"none": lambda: None, "scale": lambda: StandardScaler(), "poly": lambda: PolynomialFeatures(2, include_bias=False)}


@st.composite
def looks(draw, plain=False):
    out = dict(max_depth=draw(st.sampled_from([None, None, None, 0, 1, 2])), node_ids=draw(st.booleans()), proportion=draw(st.booleans()),
               precision=draw(st.sampled_from([3, 3, 1, 6, 0])), filled=draw(st.booleans()), rounded=draw(st.booleans()), fontsize=draw(st.sampled_from([None, None, 7])),
               label=draw(st.sampled_from(["all"] * 6 + ["root", "none"])))
    return out


def near(told, want, precision, what):
    want = np.ravel(np.asarray(want, float))
    expect(len(told) == len(want), "%s: %d numbers are shown, not %d: %s", what, len(told), len(want), told)
    tol = 0.5 * 10.0 ** -precision * 1.0001 + 1e-6 * np.abs(want) + 1e-9
    bad = np.flatnonzero(~(np.abs(np.asarray(told, float) - want) <= tol))
    expect(not len(bad), "%s: shows %s, not %s", what, told, want)


def drawn(anns, T, look, names, what):
    """the texts of the nodes by node number, after checking what every tree shows"""
    anns = [a for a in anns if a.get_text().strip() not in ("True", "False", "yes", "no")]
    most = look["max_depth"]
    want = []

    def walk(k, depth, parent):
        if most is not None and depth > most:
            want.append((None, parent))
            return
        want.append((k, parent))
        me = len(want) - 1
        if T.children_left[k] != -1:
            walk(T.children_left[k], depth + 1, me)
            walk(T.children_right[k], depth + 1, me)
    walk(0, 0, None)
    expect(len(anns) == len(want), "%s: %d nodes are drawn, not %d", what, len(anns), len(want))
    out = {}
    for a, (k, parent) in zip(anns, want):
        text = a.get_text()
        if parent is not None:
            expect_close(a.xy, anns[parent].get_position(), "%s: the arrow to node %s comes from" % (what, k), atol=1e-6)
            expect(a.get_position()[1] < anns[parent].get_position()[1], "%s: node %s is drawn above its parent", what, k)
        if k is None:
            expect(text.strip() == "(...)", "%s: instead of the nodes left out: %r", what, text)
            continue
        lines = text.split("\n")
        told = look["label"] == "all" or (look["label"] == "root" and k == 0)
        if look["node_ids"]:
            expect(lines[0] == ("node #%d" if told else "#%d") % k, "%s: node %d is drawn as %r", what, k, text)
            lines = lines[1:]
        if T.children_left[k] != -1:
            m = re.match(r"^(.*) <= (%s)$" % NUM, lines[0])
            expect(m is not None, "%s: the split of node %d is told as %r", what, k, text)
            f = int(T.feature[k])
            allowed = [names[f]] if names is not None else []
            expect(m.group(1) in allowed + (["x[%d]" % f] if names is None else []), "%s: node %d splits by %s, the drawing tells %s", what, k, allowed or "x[%d]" % f, m.group(1))
            near([float(m.group(2))], [T.threshold[k]], look["precision"], "%s: threshold of node %d" % (what, k))
            lines = lines[1:]
        m = re.match(r"^samples = (\S+)$" if told else r"^(\S+)$", lines[0])
        expect(m is not None, "%s: node %d: %r", what, k, text)
        share = 100.0 * T.n_node_samples[k] / T.n_node_samples[0]
        if look["proportion"]:
            expect(m.group(1).endswith("%"), "%s: node %d: %r", what, k, text)
            near([float(m.group(1)[:-1])], [share], 1, "%s: samples of node %d" % (what, k))
        else:
            expect(m.group(1) == str(int(T.n_node_samples[k])), "%s: node %d has %d rows, the drawing tells %s", what, k, T.n_node_samples[k], m.group(1))
        if told:
            out[k] = "\n".join(lines[1:])
    xs = [a.get_position()[0] for a in anns]
    for i, (k, parent) in enumerate(want):
        kids = [j for j, q in enumerate(want) if q[1] == i]
        expect(not kids or xs[kids[0]] < xs[kids[1]], "%s: the rows which fulfil the condition of node %s are not drawn at the left", what, k)
    return out


def sides(ax, anns, what):
    """yes at the left arrow, no at the right one"""
    from matplotlib.text import Annotation
    said = [t for t in ax.texts if not isinstance(t, Annotation)]
    xy = [np.asarray(a.get_position(), float) for a in anns]
    mids = []
    for a in anns[1:]:
        if a.get_text().strip() == "(...)":
            continue
        own, parent = np.asarray(a.get_position(), float), np.asarray(a.xy, float)
        mids.append(((own + parent) / 2, "yes" if own[0] < parent[0] else "no"))
    expect(len(said) == len(mids), "%s: %d arrows, %d words", what, len(mids), len(said))
    del xy
    for t in said:
        p = np.asarray(t.get_position(), float)
        near_ = min(mids, key=lambda m: np.abs(m[0] - p).sum())
        expect(near_[1] == t.get_text(), "%s: the arrow for %r is said to be for %r", what, near_[1], t.get_text())


def shown(draw, look, **more):
    plt.close("all")
    fig, ax = plt.subplots(figsize=(5, 4))
    other = plt.figure()
    got = draw(ax=ax, **look, **more)
    expect(not other.axes, "the drawing is made on other axes than those given")
    expect(got is not None and all(a.axes is ax for a in got), "the annotations are not returned: %r", got)
    expect([a for a in ax.get_children() if type(a).__name__ == "Annotation"] == list(got), "other annotations are returned than drawn")
    return ax, list(got)


def names_of(v, tv):
    return list(v) if tv is None else list(tv.get_feature_names_out(v))


# ------------------------------------------------------------------ effect interpreter
@st.composite
def effect_cases(draw):
    s = draw(eg.spec(max_treat=1, max_y=2, n=(30, 50), min_v=1))
    s["missing"] = False
    return dict(spec=s, kind=draw(st.sampled_from(["slearner", "tlearner", "tlearner", "dml"])), tv=draw(st.sampled_from(["none", "none", "scale", "poly"])),
                scale=draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 1e3, 3e5])), look=draw(looks()), depth=draw(st.sampled_from([1, 2, 3])), names=draw(st.sampled_from([False, False, True])),
                leaf=draw(st.sampled_from([3, 8])))


@check.sub("effects", effect_cases(), quick=160, thorough=4000, shards=4)
def effects(case, ctx):
    s, look = case["spec"], case["look"]
    x, yn, w, v = eg.names(s)
    if case["kind"] != "tlearner" or case["tv"] != "none":
        yn = yn[:1]
    df = eg.frame(s, per_group=8)
    for c in yn:
        df[c] = df[c] * case["scale"]
    tv = None
    if case["kind"] == "dml":
        tv = TRANS[case["tv"]]()
        est = DoubleML(LogisticRegression(C=0.6), eg.OLS(), is_discrete_treatment=True, covariate_transformer=tv)
        tv = TRANS[case["tv"]]()
    else:
        est = {"slearner": SLearner, "tlearner": TLearner}[case["kind"]](eg.OLS())
    est.fit(df, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    I = CEInterpreter(max_depth=case["depth"], min_samples_leaf=case["leaf"], random_state=1).fit(df, est)
    E = np.asarray(est.estimate(data=df), float).reshape(len(df), -1)
    V = df[v].to_numpy(float)
    V = V if tv is None else tv.fit_transform(V)
    T = I._tree_model.tree_
    names = ["feature %d" % i for i in range(V.shape[1])] if case["names"] else names_of(v, tv)
    more = dict(feature_names=names) if case["names"] else {}
    ax, anns = shown(I.plot, look, **more)
    texts = drawn(anns, T, look, names, "effects")
    sides(ax, anns, "effects")
    paths = route(T, V)
    for k, text in texts.items():
        r = [i for i, p in enumerate(paths) if k in p]
        m = re.match(r"^-*CATE mean-*\n(.*)\n-*CATE std-*\n(.*)$", text, re.S)
        expect(m is not None, "effects: node %d: %r", k, text)
        near([float(q) for q in re.findall(NUM, m.group(1))], E[r].mean(axis=0), look["precision"], "effects: mean of node %d" % k)
        near([float(q) for q in re.findall(NUM, m.group(2))], E[r].std(axis=0), look["precision"] if look["precision"] else 0, "effects: standard deviation of node %d" % k)
    ctx.nontrivial(T.node_count > 1)
    plt.close("all")


# ------------------------------------------------------------------ policies
@st.composite
def policy_cases(draw):
    return dict(n=draw(st.integers(8, 60)), dv=draw(st.integers(1, 3)), k=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**6)), depth=draw(st.sampled_from([1, 2, 3])),
                shape=draw(st.sampled_from(["float", "float", "ints", "ties", "zero"])), scale=draw(st.sampled_from([1.0, 1.0, 0.01, 1e4])), leaves=draw(st.sampled_from([None, None, 3])),
                names=draw(st.booleans()), features=draw(st.sampled_from([False, False, True])), str_names=draw(st.booleans()), look=draw(looks()), tree=draw(st.booleans()),
                via=draw(st.sampled_from(["table", "table", "none", "poly", "scale"])), longer=draw(st.booleans()), index=draw(st.sampled_from(eg.INDEXES)))


@check.sub("policies", policy_cases(), quick=160, thorough=4000, shards=4)
def policies(case, ctx):
    rng = np.random.RandomState(case["seed"])
    n, k, look = case["n"], case["k"], case["look"]
    vs = (["income", "age", "in"] if case["longer"] else ["a", "b", "c"])[:case["dv"]]
    V = rng.randn(n, case["dv"])
    df = pd.DataFrame(V, columns=vs)
    va = eg.arg(vs, case["str_names"])
    tv, est = None, None
    p = dict(max_depth=case["depth"], max_leaf_nodes=case["leaves"], random_state=1)
    if case["via"] == "table":
        E = (V @ rng.randn(case["dv"], k) + 0.3 * rng.randn(n, k)) * case["scale"]
        if case["shape"] == "ints":
            E = np.round(E)
        elif case["shape"] == "ties":
            E = np.repeat(E[:, :1], k, axis=1) * (np.arange(k) > 0)
        elif case["shape"] == "zero":
            E = E * 0.0
        kw = dict(effect_array=E)

        class Fitted:
            _is_fitted = True
            covariate = va
        est = Fitted()
    else:
        df = pd.concat([df] * 1, axis=1)
        df["x"] = np.arange(n) % 2
        df["y"] = df.x * (V[:, 0] ** 2 - 0.4 + V[:, -1]) * case["scale"] + rng.randn(n) * 0.1
        est = DoubleML(LogisticRegression(C=0.6), eg.OLS(), is_discrete_treatment=True, covariate_transformer=TRANS[case["via"]]())
        est.fit(df, "y", "x", covariate=va)
        tv = TRANS[case["via"]]()
        E = np.asarray(est.effect_nji(df)).reshape(n, -1)
        k = E.shape[1]
        kw = {}
        V = V if tv is None else tv.fit_transform(V)
    df.index = eg.index_of(case["index"], n, rng)
    tn = ["stay", "call", "vis\\1it", "call again"][:k] if case["names"] else None
    names = ["feature %d" % i for i in range(V.shape[1])] if case["features"] else names_of(vs, tv)
    more = dict(feature_names=names) if case["features"] else {}
    if case["tree"]:
        M = PolicyTree(**p).fit(df, va, **(kw or dict(est_model=est)))
        draw = M.plot
    else:
        I = PolicyInterpreter(**p).fit(df, est, treatment_names=tn, **kw)
        M, draw = I._tree_model, I.plot
    T = M.tree_
    if case["tree"] and np.ptp(T.impurity) == 0:
        # scikit-learn finds no colour when no node differs from another
        look = dict(look, filled=False)
    ax, anns = shown(draw, look, **more)
    texts = drawn(anns, T, look, names, "policies")
    if not case["tree"]:
        sides(ax, anns, "policies")
    paths = route(T, V)
    for q, text in texts.items():
        mean = E[[i for i, path in enumerate(paths) if q in path]].mean(axis=0)
        if case["tree"]:
            expect(text.startswith("value = "), "policies: node %d: %r", q, text)
            near([float(z) for z in re.findall(NUM, text[8:])], mean, look["precision"], "policies: value of node %d" % q)
        else:
            lines = [z for z in text.split("\n") if "=" in z and not z.startswith("---")]
            want = tn if tn else ["T[%d]" % i for i in range(k)]
            expect([z.rsplit("=", 1)[0] for z in lines] == want, "policies: node %d tells the treatments %s, not %s", q, lines, want)
            near([float(z.rsplit("=", 1)[1]) for z in lines], mean, look["precision"], "policies: values of node %d" % q)
    ctx.nontrivial(T.node_count > 1)
    plt.close("all")


# ------------------------------------------------------------------ causal trees
@st.composite
def tree_cases(draw):
    s = draw(eg.spec(max_treat=1, max_levels=2, max_y=1, n=(30, 60), min_v=1, binary=True))
    s["missing"] = False
    return dict(spec=s, look=draw(looks()), depth=draw(st.sampled_from([1, 2, 3])), features=draw(st.sampled_from([False, False, True])),
                scale=draw(st.sampled_from([1.0, 1.0, 0.01, 1e4])), w=draw(st.booleans()))


@check.sub("trees", tree_cases(), quick=100, thorough=2500, shards=4)
def trees(case, ctx):
    s, look = case["spec"], case["look"]
    x, yn, w, v = eg.names(s)
    if not case["w"]:
        w = []
    df = eg.frame(s, per_group=8)
    df[yn[0]] *= case["scale"]
    M = CausalTree(max_depth=case["depth"], min_samples_leaf=4, random_state=1)
    M.fit(df, eg.arg(yn, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    T = M.tree_
    names = ["feature %d" % i for i in range(len(w) + len(v))] if case["features"] else list(w) + list(v)
    ax, anns = shown(M.plot_causal_tree, look, **(dict(feature_names=names) if case["features"] else {}))
    texts = drawn(anns, T, look, names, "trees")
    V = df[list(w) + list(v)].to_numpy(float)
    leaf = [p[-1] for p in route(T, V)]
    E = np.ravel(M.estimate(data=df))
    for q, text in texts.items():
        expect(text.startswith("value = "), "trees: node %d: %r", q, text)
        if T.children_left[q] == -1:
            r = [i for i, p in enumerate(leaf) if p == q]
            near([float(z) for z in re.findall(NUM, text[8:])], [E[r].mean()], look["precision"], "trees: effect in leaf %d" % q)
    ctx.nontrivial(T.node_count > 1)
    plt.close("all")


# ------------------------------------------------------------------ curves
@st.composite
def curve_cases(draw):
    return dict(n=draw(st.integers(12, 400)), k=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)), what=draw(st.sampled_from(["gain", "qini"])),
                how=draw(st.sampled_from(["method", "function", "frame", "frames"])), normalize=draw(st.booleans()), points=draw(st.sampled_from([None, 5, 11, 2])),
                random=draw(st.sampled_from([None, "RANDOM", "rnd"])), effect=draw(st.booleans()))


@check.sub("curves", curve_cases(), quick=160, thorough=4000, shards=4)
def curves(case, ctx):
    from ylearn import uplift as U
    rng = np.random.RandomState(case["seed"])
    n, points = case["n"], case["points"]
    if points is None and n <= 101:
        points = 11
    df = pd.DataFrame({"s%d" % i: rng.randn(n) for i in range(case["k"])})
    df["x"] = np.arange(n) % 2
    df["y"] = rng.randn(n) + df.x * df.s0
    df["te"] = df.s0 + rng.randn(n)
    model = U.UpliftModel().fit(df if case["effect"] else df.drop(columns="te"), random=case["random"], true_effect="te" if case["effect"] else None)
    get = model.get_gain if case["what"] == "gain" else model.get_qini
    want = get(normalize=case["normalize"])
    plt.close("all")
    fig, ax = plt.subplots()
    kw = dict(ax=ax)
    if points is not None:
        kw["n_sample"] = points
    draw = U.plot_gain if case["what"] == "gain" else U.plot_qini
    if case["how"] == "method":
        (model.plot_gain if case["what"] == "gain" else model.plot_qini)(normalize=case["normalize"], **kw)
    elif case["how"] == "function":
        draw(model, normalize=case["normalize"], **kw)
    elif case["how"] == "frame":
        draw(want, **kw)
    else:
        draw(want[["s0"]], want.drop(columns="s0").rename(columns=str.upper) if want.shape[1] > 1 else want.rename(columns={"s0": "S0"}), **kw)
        want = pd.concat([want[["s0"]], want.drop(columns="s0").rename(columns=str.upper) if want.shape[1] > 1 else want.rename(columns={"s0": "S0"})], axis=1)
    lines = ax.get_lines()
    expect([q.get_label() for q in lines] == list(want.columns), "the curves of %s are drawn for %s", list(want.columns), [q.get_label() for q in lines])
    m = points or 100
    for q in lines:
        xs, ys = np.asarray(q.get_xdata(), float), np.asarray(q.get_ydata(), float)
        expect(len(xs) == m and xs[0] == 0 and xs[-1] == n, "%s: drawn from %s to %s with %d points, not from 0 to %d with %d", q.get_label(), xs[0], xs[-1], len(xs), n, m)
        expect(np.abs(np.diff(xs) - n / (m - 1)).max() <= 1.0001 and np.all(xs == xs.astype(int)), "%s: drawn at %s", q.get_label(), xs)
        expect_close(ys, want[q.get_label()].to_numpy(float)[xs.astype(int)], "%s: the %s drawn" % (q.get_label(), case["what"]), rtol=1e-9, atol=1e-12)
    legend = ax.get_legend()
    expect(legend is not None and [t.get_text() for t in legend.get_texts()] == list(want.columns), "legend")
    expect_close(get(normalize=case["normalize"]).to_numpy(float), (want if case["how"] != "frames" else get(normalize=case["normalize"])).to_numpy(float), "drawing changed the curves")
    ctx.nontrivial(case["k"] > 1 and m > 2)
    plt.close("all")


# ------------------------------------------------------------------ graphs
SPOKEN = ["a", "b", "income", "x 1", "x.1", "x1", "x_1", "X1", "Y (t)", "10", "é", "a-b", "age", "long name of a column", "n", "e"]


class Watch:
    """what is handed to graphviz and to the notebook"""

    def __enter__(self):
        import IPython.display
        import pydot
        self.dots, self.seen, self.create, self.display = [], [], pydot.Dot.create, IPython.display.display
        watch = self

        def create(dot, *a, **kw):
            watch.dots.append(dot)
            return watch.create(dot, *a, **kw)
        pydot.Dot.create = create
        IPython.display.display = lambda *a, **kw: self.seen.extend(a)
        return self

    def __exit__(self, *exc):
        import IPython.display
        import pydot
        pydot.Dot.create, IPython.display.display = self.create, self.display


def svg_graph(text):
    import html
    import xml.etree.ElementTree as ET
    nodes, edges = {}, []
    for g in ET.fromstring(text).iter("{http://www.w3.org/2000/svg}g"):
        kind = g.get("class")
        if kind in ("node", "edge"):
            title = html.unescape(g.find("{http://www.w3.org/2000/svg}title").text)
            if kind == "node":
                nodes[title] = "".join(t.text or "" for t in g.iter("{http://www.w3.org/2000/svg}text"))
            else:
                edges.append(tuple(title.split("->")))
    return nodes, edges


@st.composite
def graph_cases(draw):
    n = draw(st.integers(2, 8))
    return dict(names=draw(st.permutations(SPOKEN))[:n], seed=draw(st.integers(0, 10**6)), dense=draw(st.sampled_from([0.3, 0.6, 1.0])), arcs=draw(st.integers(0, 2)),
                how=draw(st.sampled_from(["causal", "causal", "network", "layout", "found"])), fmt=draw(st.sampled_from(["svg", "svg", "sized"])))


@check.sub("graphs", graph_cases(), quick=160, thorough=3000, shards=4)
def graphs(case, ctx):
    from ylearn.bayesian import DiGraph
    from ylearn.causal_model import CausalGraph
    rng = np.random.RandomState(case["seed"])
    names = case["names"]
    n = len(names)
    edges = [(names[i], names[j]) for i in range(n) for j in range(i + 1, n) if rng.rand() < case["dense"]]
    if case["how"] == "causal":
        free = [(a, b) for a in names for b in names if a < b]
        arcs = [free[i] for i in rng.permutation(len(free))[:case["arcs"]]]
        g = CausalGraph({v: [a for a, b in edges if b == v] for v in names}, latent_confounding_arcs=arcs)
        pos = {v: (float(i), float((i * i) % 5)) for i, v in enumerate(names)}
        plt.close("all")
        fig, ax = plt.subplots()
        g.plot(pos=pos, ax=ax)
        where = {tuple(p): v for v, p in pos.items()}
        told = {t.get_text(): where.get(tuple(t.get_position())) for t in ax.texts}
        expect(told == {v: v for v in names}, "the nodes %s are drawn as %s", names, told)
        got = sorted((where[tuple(q._posA_posB[0])], where[tuple(q._posA_posB[1])]) for q in ax.patches if hasattr(q, "_posA_posB"))
        expect(got == sorted(edges), "the edges %s are drawn as %s", sorted(edges), got)
        plt.close("all")
        ctx.nontrivial(len(edges) > 1)
        return
    M = pd.DataFrame(0.0, index=names, columns=names)
    for a, b in edges:
        M.loc[a, b] = rng.choice([0.5, -2.0, 1.0])
    kept = [v for v in names if any(v in e for e in edges)]
    if case["how"] == "layout":
        if not edges:
            return
        D = DiGraph(edges)
        nodes, lines = D.pydot_layout(prog="dot")
        expect(sorted(nodes) == sorted(kept) and sorted(lines) == sorted(edges), "the layout has the nodes %s and the edges %s", sorted(nodes), sorted(lines))
        spots = {(round(v["x"], 1), round(v["y"], 1)) for v in nodes.values()}
        expect(len(spots) == len(kept), "nodes are laid upon each other: %s", nodes)
        for (a, b), l in lines.items():
            for v, i in ((a, 0), (b, -1)):
                d = np.hypot(l["x"][i] - nodes[v]["x"], l["y"][i] - nodes[v]["y"])
                reach = np.hypot(nodes[v]["width"], nodes[v]["height"]) / 2 + 12
                expect(d <= reach, "the edge %s -> %s has its end for %s %s away from it", a, b, v, d)
            # arrows lead downwards in the layout of dot
            expect(nodes[a]["y"] > nodes[b]["y"], "%s is laid out below %s", a, b)
        ctx.nontrivial(len(edges) > 1)
        return
    if not edges:
        return
    with Watch() as watch:
        if case["how"] == "network":
            D = DiGraph(M)
            D.plot(**(dict(width=200) if case["fmt"] == "sized" else {}))
            kept = names
        else:
            from ylearn.api._identifier import IdentifierWithDiscovery
            I = IdentifierWithDiscovery.__new__(IdentifierWithDiscovery)
            I.causal_matrix_ = M
            I.plot()
    expect(len(watch.seen) == 1, "%d pictures are shown", len(watch.seen))
    text = watch.seen[0].data
    if case["how"] == "network" and case["fmt"] == "sized":
        import base64
        m = re.search(r'width="200".*base64, (\S+)"', text)
        expect(m is not None, "no picture of width 200: %r", text[:99])
        text = base64.b64decode(m.group(1)).decode()
    nodes, got = svg_graph(text)
    expect(nodes == {v: v for v in kept}, "the nodes %s are drawn as %s", kept, nodes)
    expect(sorted(got) == sorted(edges), "the edges %s are drawn as %s", sorted(edges), sorted(got))
    ctx.nontrivial(len(edges) > 1)


# ------------------------------------------------------------------ the roles found by Why
@st.composite
def role_cases(draw):
    few = ["a", "b", "c d", "e.1", "f", "g_h", "income", "number of children", "Z", "v"]
    pool = draw(st.permutations(few if draw(st.booleans()) else few + ["age", "x1", "x2", "x3", "x4", "a_long_name_of_a_column", "x5", "t.u", "w", "y"]))
    cut = sorted(draw(st.lists(st.integers(0, len(pool) - 2), min_size=2, max_size=2)))
    return dict(names=pool, w=cut[0], v=max(1, cut[1] - cut[0]), seed=draw(st.integers(0, 10**6)), two=draw(st.booleans()), z=draw(st.booleans()), again=draw(st.booleans()))


@check.sub("roles", role_cases(), quick=48, thorough=800, shards=4)
def roles(case, ctx):
    from ylearn import Why
    rng = np.random.RandomState(case["seed"])
    pool = list(case["names"])
    w, v = pool[:case["w"]], pool[case["w"]:case["w"] + case["v"]]
    if case["z"]:
        w = []
    x = ["treat", "dose"][:1 + (case["two"] and not case["z"])]
    df = pd.DataFrame({c: rng.randn(40) for c in pool})
    for i, c in enumerate(x):
        df[c] = rng.randn(40) + df[v[0]] if case["z"] else (np.arange(40) // (1 + i)) % 2
    df["iv"] = df[x[0]] + rng.randn(40)
    df["result"] = rng.randn(40) + df[x[0]]
    why = Why(random_state=1)
    if case["again"] and not case["z"]:
        why = Why(random_state=1, estimator="slearner")
        why.fit(df, "result", treatment=x[:1], covariate=[pool[-1]])
    else:
        why = Why(random_state=1, estimator="iv" if case["z"] else "slearner")
    why.fit(df, "result", treatment=x, adjustment=w or None, covariate=v, instrument=["iv"] if case["z"] else None)
    with Watch() as watch:
        why.plot_causal_graph()
    expect(len(watch.dots) == 1 and len(watch.seen) == 1, "%d pictures are shown of %d graphs", len(watch.seen), len(watch.dots))
    expect(watch.seen[0].data[:4] == b"\x89PNG", "no picture is shown")
    P = watch.dots[0]
    boxes = {}
    for q in P.get_nodes():
        label = q.get_label()
        if label:
            head, _, body = label.strip('"').replace("\\n", "\n").partition("\n")
            boxes[q.get_name()] = (head.strip(), [z.strip() for z in re.split(r", |,\n", body.strip())])
    want = {"Treatments": x, "Outcome": ["result"], "Covariates": v}
    if w:
        want["Adjustments"] = w
    if case["z"]:
        want["Instruments"] = ["iv"]
    expect(sorted(h for h, _ in boxes.values()) == sorted(want), "the boxes are %s, not %s", boxes, sorted(want))
    for h, said in boxes.values():
        if said[-1].endswith("..."):
            said = said[:-1]
            expect(said == want[h][:len(said)], "%s: %s are shown, not %s", h, said, want[h])
        else:
            expect(said == want[h], "%s: %s are shown, not %s", h, said, want[h])
    arrows = set()
    for e in P.get_edges():
        ends = [e.get_source(), e.get_destination()]
        ends = [[z] if isinstance(z, str) else list(z["nodes"]) for z in ends]
        arrows |= {(boxes[a][0], boxes[b][0]) for a in ends[0] for b in ends[1]}
    kinds = [("Covariates", "Treatments"), ("Covariates", "Outcome"), ("Treatments", "Outcome")]
    kinds += [("Adjustments", "Treatments"), ("Adjustments", "Outcome")] if w else []
    kinds += [("Instruments", "Treatments")] if case["z"] else []
    expect(arrows == set(kinds), "the arrows are %s, not %s", sorted(arrows), sorted(kinds))
    ctx.nontrivial(len(v) > 1 or bool(w))
