"""C26: Bayesian networks: graph queries, coding of states, and sampling by the fitted equations."""
import contextlib
import io
import logging

import networkx as nx
import numpy as np
import pandas as pd
import pyro
import torch
from hypothesis import strategies as st

from vlib.harness import Check, expect, expect_close
from ylearn.bayesian import DAG, DiGraph, SviBayesianNetwork
from ylearn.bayesian._base import CategoryNodeState
from ylearn.bayesian._data import DataLoader
from ylearn.causal_model import CausalGraph

check = Check("C26", "a graph with at least three nodes and two edges",
              ["networks are fitted for one or two epochs: their fidelity to the data is not claimed, only that what they answer follows from their fitted parameters",
               "distributions are compared by frequencies and standardised residuals within 6.5 standard errors"])
POOL = ["a", "b1", "c", "x_1", "y", "z2"]
ALIAS = dict(zip(POOL, ["a", "a_1", "a_2", "a_b__c", "b", "b_x"]))  # in the same order
CLASSES = [["no", "yes"], [0, 1], [2, 5, 9], ["hi", "lo", "mid"], [True, False], ["10", "9"]]


@st.composite
def graphs(draw, min_nodes=2, max_nodes=6, connected=False, cyclic=False):
    names = draw(st.permutations(POOL))[:draw(st.integers(min_nodes, max_nodes))]
    edges = []
    for j in range(1, len(names)):
        ps = [i for i in range(j) if draw(st.integers(0, 2)) == 0]
        if connected and not ps:
            ps = [draw(st.integers(0, j - 1))]
        edges += [[names[i], names[j]] for i in ps]
    # turned edges keep a connected graph connected and, in the order of the permutation, acyclic
    if cyclic and edges:
        edges = [e if draw(st.integers(0, 3)) else e[::-1] for e in edges]
    return dict(names=list(names), edges=edges)


def graph_of(case):
    g = nx.DiGraph()
    g.add_nodes_from(case["names"])
    g.add_edges_from(map(tuple, case["edges"]))
    return g


@st.composite
def queries(draw):
    g = draw(graphs(cyclic=draw(st.integers(0, 3)) == 0, connected=draw(st.booleans())))
    return dict(g, form=draw(st.sampled_from(["nx", "dict", "frame", "causal", "digraph"])), ask=draw(st.lists(st.sampled_from(g["names"]), min_size=1, max_size=3, unique=True)), one=draw(st.booleans()), self_=draw(st.booleans()))


@check.sub("graph", queries(), quick=300, thorough=20000)
def graph(case, ctx):
    ref = graph_of(case)
    names, E = set(case["names"]), set(map(tuple, case["edges"]))
    ctx.nontrivial(len(names) >= 3 and len(E) >= 2)
    acyclic = nx.is_directed_acyclic_graph(ref)
    connected = nx.is_weakly_connected(ref)
    form = case["form"]
    if form == "causal" and not acyclic:
        ctx.reject("causal graphs are acyclic")
    give = {"nx": lambda: ref, "dict": lambda: {u: sorted(ref.successors(u)) for u in ref}, "frame": lambda: nx.to_pandas_adjacency(ref),
            "causal": lambda: CausalGraph({v: sorted(ref.predecessors(v)) for v in ref}), "digraph": lambda: DiGraph(ref)}[form]()
    G = DiGraph(give)
    expect(set(G.nodes) == names and set(G.edges) == E, "the graph made from %s has nodes %r and edges %r instead of %r and %r", form, sorted(G.nodes), sorted(G.edges), sorted(names), sorted(E))
    expect(G.is_dag == (acyclic and connected), "is_dag of %r", sorted(E))
    expect(sorted(G.get_nodes()) == sorted(names) and set(G.get_edges()) == E, "nodes and edges")
    bad = not acyclic or not connected
    try:
        D = DAG(give)
    except ValueError:
        D = None
    expect((D is None) == bad, "a graph with edges %r is %s", sorted(E), "refused" if D is None else "taken as a connected acyclic graph")
    pos = {}
    if D is not None:
        for how in (D, G):
            order = how.get_nodes(topo_sorted=True)
            expect(sorted(order) == sorted(names) and all(order.index(u) < order.index(v) for u, v in E), "topological order %r of %r", order, sorted(E))
            pos = {v: i for i, v in enumerate(order)}
        with contextlib.suppress(nx.NetworkXError):
            D.add_edge(*[sorted(names)[i] for i in (0, -1)])
            expect(False, "a DAG can be changed")
    pa = lambda v: {u for u, w in E if w == v}
    ch = lambda v: {w for u, w in E if u == v}
    for v in names:
        expect(G.get_parents(v) == sorted(pa(v)) and G.get_children(v) == sorted(ch(v)), "parents or children of %r in %r", v, sorted(E))
    asked = case["ask"][:1] if case["one"] else case["ask"]
    arg = asked[0] if case["one"] else list(asked)
    S = set(asked)
    up = set().union(*map(pa, S))
    down = set().union(*map(ch, S))
    markov = up | down | set().union(set(), *map(pa, down))
    keep = case["self_"]
    H = G if D is None else D
    for topo in (False, True) if D is not None else (False,):
        def want(s):
            return sorted(s, key=pos.get) if topo else sorted(s)
        for kind, b in (("markov", markov), ("upstream", up), ("downstream", down)):
            expect(H.get_blanket(arg, kind=kind, return_self=keep, topo_sorted=topo) == want(b | S if keep else b - S), "%s blanket of %r in %r", kind, arg, sorted(E))
        expect(H.get_markov_blanket(arg, return_self=keep, topo_sorted=topo) == want(markov | S if keep else markov - S), "Markov blanket of %r in %r", arg, sorted(E))
        expect(H.get_upstream_blanket(arg, topo_sorted=topo) == want(up | S), "parents and self of %r in %r", arg, sorted(E))
        expect(H.get_downstream_blanket(arg, topo_sorted=topo) == want(down | S), "children and self of %r in %r", arg, sorted(E))
    expect(arg == (asked[0] if case["one"] else asked), "the asked nodes were changed")


# ---------------------------------------------------------------- states

@st.composite
def columns(draw):
    kind = draw(st.sampled_from(["int", "str", "float", "bool"]))
    el = {"int": st.integers(-5, 12), "str": st.sampled_from(["a", "b", "B", "10", "9", ""]), "float": st.sampled_from([0.5, -1.0, 2.0, 7.25]), "bool": st.booleans()}[kind]
    return dict(kind=kind, values=draw(st.lists(el, min_size=2, max_size=9)), other=draw(st.lists(el, min_size=1, max_size=5)))


@check.sub("states", columns(), quick=200, thorough=8000, rule="a categorical column with at least three distinct values or unknown values asked")
def states(case, ctx):
    vals = case["values"]
    df = pd.DataFrame({"q": vals})
    if case["kind"] != "float" and len(set(vals)) < 2:
        ctx.reject("a single class")
    L = DataLoader(data=df)
    s = L.state["q"]
    if case["kind"] == "float":
        expect_close([s.mean, s.scale, s.min, s.max], [np.mean(vals), np.std(vals, ddof=1), min(vals), max(vals)], "moments and range of a numerical column")
        expect_close(L.spread(df)["q"].numpy(), vals, "a numerical column is coded by itself")
        return
    classes = sorted(set(vals))
    expect(list(s.classes) == classes and s.n_classes == len(classes) and s.is_binary == (len(classes) == 2), "classes %r of %r", list(s.classes), vals)
    codes = L.spread(df)["q"].tolist()
    expect(codes == [classes.index(v) for v in vals], "codes %r of %r", codes, vals)
    expect(list(s.decode(np.array(codes))) == vals, "decoded codes of %r", vals)
    expect(list(s.decode(s.encode(np.array(vals)))) == vals, "round trip of %r", vals)
    unknown = [v for v in case["other"] if v not in classes]
    ctx.nontrivial(len(classes) > 2 or bool(unknown))
    try:
        got = s.encode(np.array(case["other"]))
    except Exception as e:
        expect(unknown and isinstance(e, (ValueError, KeyError, IndexError)), "%r for the known classes %r", e, case["other"])
        return
    expect(not unknown, "the unknown classes %r of %r are coded as %r", unknown, classes, got)


# ---------------------------------------------------------------- networks

@st.composite
def networks(draw):
    g = draw(graphs(min_nodes=2, max_nodes=5, connected=True))
    if draw(st.integers(0, 4)) == 0:  # a chain
        g["names"] = draw(st.permutations(POOL))[:draw(st.integers(4, 6))]
        g["edges"] = [list(e) for e in zip(g["names"], g["names"][1:])]
    kinds = [draw(st.sampled_from([None, None] + list(range(len(CLASSES))))) for _ in g["names"]]
    return dict(g, kinds=kinds, seed=draw(st.integers(0, 10**6)), rs=draw(st.sampled_from([0, 1, 7, 1234])), epochs=draw(st.integers(1, 2)), given=draw(st.lists(st.booleans(), min_size=6, max_size=6)) if draw(st.integers(0, 2)) else [False] * 6,
                target=draw(st.integers(0, 9)), cause=draw(st.integers(0, 9)), t=draw(st.integers(0, 9)), c=draw(st.integers(0, 8)), extra=draw(st.booleans()), index=draw(st.booleans()),
                keep_outcome=draw(st.booleans()), nodes=draw(st.booleans()), inplace=draw(st.booleans()), twice=draw(st.booleans()), with_data=draw(st.booleans()))


def column(k, n, r):
    if k is None:
        return r.normal(size=n) * 2 + 1
    cl = CLASSES[k]
    ids = np.concatenate([np.arange(len(cl)), r.randint(0, len(cl), n)])[:n]
    return np.array(cl, dtype=object if isinstance(cl[0], str) else None)[r.permutation(ids)]


def table(case, n, seed):
    r = np.random.RandomState(seed)
    df = pd.DataFrame({v: column(k, n, r) for v, k in zip(case["names"], case["kinds"])})
    df = df[list(map(str, r.permutation(df.columns)))]
    if case["extra"]:
        df["unrelated"] = 1.5 if seed % 2 else ["row %d of %d" % (i, seed) for i in range(n)]
    if case["index"]:
        df.index = r.permutation(n) + 100
    return df


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        old = torch.get_default_dtype()
        try:
            yield
        finally:
            torch.set_default_dtype(old)


class Net:
    """the equations of a network by its fitted parameters"""

    def __init__(self, case, bn):
        self.case, self.E = case, list(map(tuple, case["edges"]))
        self.kind = dict(zip(case["names"], case["kinds"]))
        self.p = {k: np.array(v.detach().double()) for k, v in bn.fitted_params.items()}

    def classes(self, v):
        return sorted(CLASSES[self.kind[v]])

    def parents(self, v):
        return sorted(u for u, w in self.E if w == v)

    def code(self, v, values):
        if self.kind[v] is None:
            return np.asarray(values, float)
        cl = self.classes(v)
        return np.array([cl.index(q) for q in list(values)], float)

    def law(self, v, df):
        """(mean, scale) of the rows, or their class probabilities"""
        ps = self.parents(v)
        n = len(df)
        X = np.stack([self.code(u, df[u]) for u in ps], axis=1) if ps else None
        if self.kind[v] is None:
            if ps:
                m = X @ self.p[v + "__weight"].reshape(len(ps)) + self.p[v + "__bias"]
            else:
                m = np.full(n, float(self.p[v + "__mean"]))
            return m, float(self.p[v + "__scale"])
        logits = X @ self.p[v + "__weight"] if ps else np.tile(self.p[v + "__weight"], (n, 1))
        P = np.exp(logits - logits.max(1, keepdims=True))
        return P / P.sum(1, keepdims=True)

    def check_draw(self, v, df, what):
        """whether the column v of df may be drawn by its equation"""
        law = self.law(v, df)
        n = len(df)
        if self.kind[v] is None:
            z = (df[v].to_numpy(float) - law[0]) / abs(law[1])
            expect(np.all(np.isfinite(z)), "%s: residuals of %r", what, v)
            expect(abs(z.mean()) <= 6.5 / np.sqrt(n), "%s: mean standardised residual %.3f of %r in %d rows", what, z.mean(), v, n)
            expect(abs((z ** 2).mean() - 1) <= 6.5 * np.sqrt(2 / n) + 30 / n, "%s: mean squared standardised residual %.3f of %r in %d rows", what, (z ** 2).mean(), v, n)
            for u in self.parents(v):
                x = self.code(u, df[u])
                x = x - x.mean()
                if x.std() > 1e-9:
                    expect(abs((z * x).sum()) <= 6.5 * np.sqrt((x ** 2).sum()), "%s: residuals of %r go with %r", what, v, u)
        else:
            cl = self.classes(v)
            codes = self.code(v, df[v]).astype(int)
            hit = np.eye(len(cl))[codes]
            weights = [np.ones(n)] + [self.code(u, df[u]) for u in self.parents(v)]
            for w in weights:
                d = ((hit - law) * w[:, None]).sum(0)
                sd = np.sqrt((law * (1 - law) * (w ** 2)[:, None]).sum(0))
                expect(np.all(np.abs(d) <= 6.5 * sd + 4 * np.abs(w).max()), "%s: counts of the classes of %r are off by %r", what, v, d)


def fit(case, df, **kw):
    bn = SviBayesianNetwork(DAG(graph_of(case)))
    out = bn.fit(df, epochs=case["epochs"], random_state=case["rs"], **kw)
    return out


def equal_params(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


@check.sub("samples", networks(), quick=72, thorough=4000, shards=4)
def samples(case, ctx):
    logging.disable(logging.INFO)
    ctx.nontrivial(len(case["names"]) >= 3)
    names = case["names"]
    df = table(case, 25, case["seed"])
    keep = df.copy()
    with quiet():
        bn = fit(case, df)
        pd.testing.assert_frame_equal(df, keep)
        N = Net(case, bn)
        n = 400
        big = table(case, n, case["seed"] + 1)
        given = [v for v, g in zip(names, case["given"]) if g]
        data = big[given] if given else None
        if not given and case["with_data"]:
            data = pd.DataFrame({"unrelated": np.arange(n)}, index=big.index)
        ask = None
        kw = {}
        if case["nodes"]:
            ask = [v for v, g in zip(names, case["given"][::-1]) if g] or names[-1:]
            kw["nodes"] = list(ask)
        np.random.seed(case["seed"])
        torch.manual_seed(case["seed"])
        keepd = None if data is None else data.copy()
        before = {k: v.clone() for k, v in bn.fitted_params.items()}
        s = bn.sample(data, random_state=case["rs"], **(kw if data is not None else dict(kw, n_samples=n)))
        if data is not None:
            pd.testing.assert_frame_equal(data, keepd)
            expect(s.index.equals(data.index), "the samples have the row labels %r", list(s.index[:5]))
        expect(len(s) == n and set(s.columns) == set(names if ask is None else ask), "samples of %r: %d rows of %r", ask, len(s), list(s.columns))
        for v in set(given) & set(s.columns):
            expect(np.array_equal(np.asarray(s[v].tolist()), np.asarray(data[v].tolist())), "the given column %r was not kept", v)
        for v in s.columns:
            if v not in given and all(u in s.columns or u in given for u in N.parents(v)):
                full = s.copy()
                for u in N.parents(v):
                    if u not in full:
                        full[u] = data[u]
                if N.kind[v] is not None:
                    expect(set(s[v].tolist()) <= set(N.classes(v)), "classes of %r", v)
                N.check_draw(v, full, "sampling")
        torch.manual_seed(case["seed"] + 5)
        s2 = bn.sample(data, random_state=case["rs"], **(kw if data is not None else dict(kw, n_samples=n)))
        expect(s.equals(s2), "the samples differ although random_state is %r", case["rs"])
        expect(equal_params(before, bn.fitted_params), "sampling changed the fitted parameters")
        if case["twice"]:
            again = fit(case, df)
            expect(equal_params(before, again.fitted_params), "another network fitted with random_state %r has other parameters", case["rs"])
            other = dict(case, names=[ALIAS[v] for v in names], edges=[[ALIAS[v] for v in e] for e in case["edges"]])
            again = fit(other, df.rename(columns=ALIAS)).fitted_params
            for k, q in before.items():
                v, p = k.rsplit("__", 1)
                expect(torch.equal(q, again[ALIAS[v] + "__" + p]), "%s of %r is %r, and %r when the node is called %r", p, v, q.tolist(), again[ALIAS[v] + "__" + p].tolist(), ALIAS[v])


@check.sub("interventions", networks(), quick=60, thorough=3000, shards=4)
def interventions(case, ctx):
    logging.disable(logging.INFO)
    ctx.nontrivial(len(case["names"]) >= 3)
    names = case["names"]
    df = table(case, 25, case["seed"])
    r = np.random.RandomState(case["seed"] + 2)
    with quiet():
        bn = fit(case, df)
        before = {k: v.clone() for k, v in bn.fitted_params.items()}
        first = bn.sample(n_samples=30, random_state=3)
        todo = list(dict.fromkeys([names[case["cause"] % len(names)], names[case["target"] % len(names)]]))
        if len(todo) == len(names):
            todo = todo[:1]
        value = {v: (2.5 if dict(zip(names, case["kinds"]))[v] is None else CLASSES[dict(zip(names, case["kinds"]))[v]][case["t"] % 2]) for v in todo}
        data = df if case["with_data"] else None
        keep = df.copy()
        steps = [{v: value[v]} for v in todo] if case["twice"] else [dict(value)]
        obj = bn
        store = pyro.get_param_store()
        store.clear()
        pyro.param("mine", torch.ones(2))
        sofar = []
        for i, q in enumerate(steps):
            obj = obj.do(q, data=data, epochs=1, inplace=case["inplace"], random_state=case["rs"], verbose=0)
            sofar.append((obj, obj.interventions, {k: v.clone() for k, v in obj.fitted_params.items()}))
        if not case["inplace"]:
            for o, iv, ps in sofar:
                expect(o.interventions == iv and equal_params(ps, o.fitted_params), "an intervention on a copy changed those of the original from %r to %r, or its parameters", iv, o.interventions)
        expect(list(store.keys()) == ["mine"] and torch.equal(pyro.param("mine"), torch.ones(2)), "the parameters %r are kept where others were", list(store.keys()))
        store.clear()
        obj.interventions.clear()
        pd.testing.assert_frame_equal(df, keep)
        expect(obj.interventions == value, "interventions %r instead of %r", obj.interventions, value)
        if case["inplace"]:
            expect(obj is bn, "an intervention in place returns another network")
        else:
            expect(obj is not bn and bn.interventions == {}, "the original has the interventions %r", bn.interventions)
            expect(equal_params(before, bn.fitted_params), "an intervention on a copy changed the parameters of the original")
            expect(first.equals(bn.sample(n_samples=30, random_state=3)), "an intervention on a copy changed the samples of the original")
        N = Net(case, obj)
        n = 300
        for tab in (None, table(case, n, case["seed"] + 1)):
            d = None
            if tab is not None:
                # what is given does not hide the intervention
                d = tab[[v for v, g in zip(names, case["given"]) if g] or names[:1]]
                keepd = d.copy()
            p0 = {k: v.clone() for k, v in obj.fitted_params.items()}
            s = obj.sample(d, random_state=case["rs"], **({} if d is not None else dict(n_samples=n)))
            if d is not None:
                pd.testing.assert_frame_equal(d, keepd)
            expect(equal_params(p0, obj.fitted_params), "sampling under an intervention changed the fitted parameters")
            for v, q in value.items():
                expect(all(z == q for z in s[v].tolist()), "the column %r of the samples under %r is %r", v, value, s[v].tolist()[:6])
            for v in names:
                if v not in value and (d is None or v not in d.columns):
                    N.check_draw(v, s, "sampling under an intervention")
        # predictions under the intervention
        kids = [v for v in names if v not in value and set(N.parents(v)) & set(value)]
        if kids:
            v = kids[case["c"] % len(kids)]
            tab = table(case, 8, case["seed"] + 4)
            got = obj.predict(tab, outcome=v, num_samples=250, proba=True, random_state=case["rs"])
            law = N.law(v, tab.assign(**value))
            near(N, v, got, law, 250, "prediction under an intervention")
            # effects on the child under the intervention, also those of what is intervened on
            x = N.parents(v)[case["target"] % len(N.parents(v))]
            t, c = (2.0, -1.0) if N.kind[x] is None else (N.classes(x)[-1], N.classes(x)[0])
            m = 250
            ite = obj.estimate(tab, x, v, treat=t, control=c, num_samples=m, random_state=case["rs"])
            a, b = [N.law(v, tab.assign(**dict(value, **{x: q}))) for q in (t, c)]
            if N.kind[v] is None:
                want, sd = (a[0] - b[0])[:, None], np.full((len(tab), 1), abs(a[1]) * np.sqrt(2 / m))
            else:
                want, sd = a - b, np.sqrt((a * (1 - a) + b * (1 - b)) / m)
            expect(ite.shape == want.shape and np.all(np.abs(ite.to_numpy(float) - want) <= 6.5 * sd + 8 / m),
                   "effects of %r on %r under %r are %r instead of %r", x, v, value, ite.values.tolist(), want.tolist())
            ctx.event("effects under an intervention")
        # fitted again: nothing is left of the intervention
        other = table(case, 25, case["seed"] + 9)
        for v, k in zip(names, case["kinds"]):
            if k is not None and isinstance(CLASSES[k][0], str) and case["seed"] % 2:
                other[v] = [z + "'" if i % 5 == 0 else z for i, z in enumerate(other[v].tolist())]
                ctx.event("fitted again on other classes")
        refit, fresh = obj.fit(other, epochs=2, random_state=case["rs"], inplace=case["inplace"]), fit(dict(case, epochs=2), other)
        expect(refit.interventions == {}, "fitted again it still has the interventions %r", refit.interventions)
        expect(equal_params(refit.fitted_params, fresh.fitted_params), "fitted again it has other parameters than a new one")
        expect(refit.sample(n_samples=20, random_state=3).equals(fresh.sample(n_samples=20, random_state=3)), "fitted again it draws otherwise than a new one")
        if not case["inplace"]:
            expect(refit is not obj and obj.interventions == value, "fitting a copy changed the interventions to %r", obj.interventions)


def near(N, v, got, law, m, what):
    if N.kind[v] is None:
        expect(list(got.columns) == [v], "%s: columns %r", what, list(got.columns))
        expect(np.all(np.abs(got[v].to_numpy(float) - law[0]) <= 6.5 * abs(law[1]) / np.sqrt(m) + 1e-6), "%s of %r: %r instead of %r", what, v, got[v].tolist(), law[0].tolist())
    else:
        expect(list(got.columns) == ["%s_%s" % (v, c) for c in N.classes(v)], "%s: columns %r", what, list(got.columns))
        expect(np.all(np.abs(got.to_numpy(float) - law) <= 6.5 * np.sqrt(law * (1 - law) / m) + 6 / m), "%s of %r: %r instead of %r", what, v, got.values.tolist(), law.tolist())


@check.sub("answers", networks(), quick=60, thorough=4000, shards=4)
def answers(case, ctx):
    logging.disable(logging.INFO)
    ctx.nontrivial(len(case["names"]) >= 3)
    names = case["names"]
    df = table(case, 25, case["seed"])
    with quiet():
        bn = fit(case, df)
        N = Net(case, bn)
        tab = table(case, 6, case["seed"] + 1)
        keep = tab.copy()
        v = names[case["target"] % len(names)]
        m = 300
        before = {k: q.clone() for k, q in bn.fitted_params.items()}
        data = tab if case["keep_outcome"] else tab.drop(columns=[v])
        if not N.parents(v) and case["inplace"]:
            data = data[[c for c in data.columns if c not in names or c == v]].assign(other=1)  # rows that tell nothing
        got = bn.predict(data, outcome=v, num_samples=m, proba=True, random_state=case["rs"])
        near(N, v, got, N.law(v, tab), m, "prediction")
        lab = bn.predict(data, outcome=[v], num_samples=m, random_state=case["rs"])
        if N.kind[v] is None:
            expect_close(lab[v].to_numpy(float), got[v].to_numpy(float), "the same prediction again")
        else:
            best = got.to_numpy().max(axis=1)
            for i, z in enumerate(lab[v].tolist()):
                expect(z in N.classes(v) and got.to_numpy()[i][N.classes(v).index(z)] == best[i], "row %d is predicted as %r with probabilities %r", i, z, got.iloc[i].tolist())
        # several outcomes, each without the others
        two = list(dict.fromkeys([v, names[case["cause"] % len(names)]]))
        got = bn.predict(tab if case["keep_outcome"] else tab.drop(columns=two[:1]), outcome=list(two), num_samples=m, proba=True, random_state=case["rs"])
        expect(len(got) == len(tab), "%d predictions of %d rows", len(got), len(tab))
        at = 0
        for u in two:
            k = 1 if N.kind[u] is None else len(N.classes(u))
            if not set(N.parents(u)) & set(two):
                near(N, u, got.iloc[:, at:at + k], N.law(u, tab), m, "prediction of several outcomes")
            at += k
        expect(at == got.shape[1], "predictions of %r in columns %r", two, list(got.columns))
        # effects
        kids = [w for w in names if N.parents(w)]
        y = kids[case["target"] % len(kids)]
        g = graph_of(case)
        xs = sorted(nx.ancestors(g, y))
        x = xs[case["cause"] % len(xs)]
        if N.kind[x] is None:
            t, c = [None, 2.0, -1.0, 0.5][case["t"] % 4], [None, 0.0, 3.0][case["c"] % 3]
            tt, cc = df[x].max() if t is None else t, df[x].min() if c is None else c
        else:
            cl = N.classes(x)
            t, c = ([None] + cl)[case["t"] % (len(cl) + 1)], ([None] + cl)[case["c"] % (len(cl) + 1)]
            tt, cc = cl[-1] if t is None else t, cl[0] if c is None else c
        cols = list(tab.columns)
        if x not in N.parents(y):  # what lies between is to be drawn
            cols = [q for q in cols if q not in nx.descendants(g, x)]
        if not case["keep_outcome"]:
            cols = [q for q in cols if q != y]
        d = tab[cols]
        keepd = d.copy()
        ite = bn.estimate(d, x if case["twice"] else [x], y, treat=t, control=c, num_samples=m, random_state=case["rs"])
        pd.testing.assert_frame_equal(d, keepd)
        expect(len(ite) == len(d), "%d effects for %d rows", len(ite), len(d))
        if x in N.parents(y):
            a, b = [N.law(y, tab.assign(**{x: q})) for q in (tt, cc)]
            if N.kind[y] is None:
                want, sd = (a[0] - b[0])[:, None], np.full((len(d), 1), abs(a[1]) * np.sqrt(2 / m))
            else:
                want, sd = a - b, np.sqrt((a * (1 - a) + b * (1 - b)) / m)
            expect(ite.shape == want.shape, "effects on %r: columns %r", y, list(ite.columns))
            expect(np.all(np.abs(ite.to_numpy(float) - want) <= 6.5 * sd + 8 / m), "effects of %r on %r are %r instead of %r", x, y, ite.values.tolist(), want.tolist())
            ctx.event("direct effect")
        elif N.kind[y] is None and all(N.kind[q] is None for q in nx.descendants(g, x)) and N.kind[x] is None:
            # linear all along the paths
            def slope(v):
                if v == x:
                    return 1.0
                return sum(float(w) * slope(u) for u, w in zip(N.parents(v), N.p[v + "__weight"].reshape(-1)))

            def var(v, seen=None):
                """variance of what is drawn (bounded by treating the paths as fully correlated)"""
                if v in d.columns and v != y or v == x:
                    return 0.0
                return abs(float(N.p[v + "__scale"])) + sum(abs(float(w)) * var(u) for u, w in zip(N.parents(v), N.p[v + "__weight"].reshape(-1)))
            want = slope(y) * (tt - cc)
            sd = var(y) * np.sqrt(2 / m)
            expect(np.all(np.abs(ite.to_numpy(float) - want) <= 6.5 * sd + 1e-6), "effects of %r on %r through others are %r instead of %r", x, y, ite.values.tolist(), want)
            ctx.event("indirect effect")
        torch.manual_seed(case["seed"] + 7)
        expect(bn.estimate(d, [x], y, treat=t, control=c, num_samples=3, random_state=case["rs"]).equals(bn.estimate(d, [x], [y], treat=t, control=c, num_samples=3, random_state=case["rs"])),
               "the effects differ although random_state is %r", case["rs"])
        # several causes at once, of several outcomes
        x = N.parents(y)[case["cause"] % len(N.parents(y))]
        ys = [y] + [w for w in kids if w not in (x, y) and w not in N.parents(y) and y not in N.parents(w)][:1]
        xs = [x] + [w for w in case["names"] if w != x and w not in ys][:1 + case["c"] % 2]
        if case["t"] % 2:
            xs, ys = xs[::-1], ys[::-1]
        span = {q: (df[q].min(), df[q].max()) if N.kind[q] is None else (N.classes(q)[0], N.classes(q)[-1]) for q in xs}
        mine = {q: (3.0, -0.5) if N.kind[q] is None else (N.classes(q)[0], N.classes(q)[1]) for q in xs}
        lo, hi = [{q: (span[q] if case[k] else mine[q])[i] for q in xs} for i, k in enumerate(("twice", "keep_outcome"))]
        ite = bn.estimate(tab, list(xs), list(ys), treat=None if case["keep_outcome"] else [hi[q] for q in xs], control=None if case["twice"] else tuple(lo[q] for q in xs), num_samples=m, random_state=case["rs"])
        at = 0
        for u in ys:
            k = 1 if N.kind[u] is None else len(N.classes(u))
            a, b = [N.law(u, tab.assign(**q)) for q in (hi, lo)]
            if N.kind[u] is None:
                want, sd = (a[0] - b[0])[:, None], np.full((len(tab), 1), abs(a[1]) * np.sqrt(2 / m))
            else:
                want, sd = a - b, np.sqrt((a * (1 - a) + b * (1 - b)) / m)
            expect(np.all(np.abs(ite.iloc[:, at:at + k].to_numpy(float) - want) <= 6.5 * sd + 8 / m), "effects of %r on %r among %r are %r instead of %r", xs, u, ys, ite.iloc[:, at:at + k].values.tolist(), want.tolist())
            at += k
        expect(at == ite.shape[1], "effects on %r in columns %r", ys, list(ite.columns))
        ctx.event("%d causes of %d outcomes" % (len(xs), len(ys)))
        pd.testing.assert_frame_equal(tab, keep)
        expect(equal_params(before, bn.fitted_params), "questions changed the fitted parameters")
