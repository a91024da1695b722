"""C08: causal discovery returns acyclic graphs over the data's columns, faithfully reported."""
import networkx as nx
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib.harness import Check, expect, expect_close
from ylearn.causal_discovery import (BaseDiscovery, CausalDiscovery, DagmaDiscovery, DyCausalDiscovery,
                                     DygolemCausalDiscovery, GCastleProxy, GolemDiscovery, PgmProxy)

check = Check("C08", "the matrix has an edge that is kept",
              ["learners run with few optimisation steps: the guarantees checked do not depend on convergence"])

LABELS = ["z", "b", "y", "a", "x10", "x2", "m"]
MANY = LABELS + ["c", "A", "y2", "x1", "Z"]
VALUES = [0, 0, 0, 0.5, 1, 2, 3, 0.25, -0.5, -1, -2, 0.75, 0.1, -1.3]


@st.composite
def matrix(draw, signed=True):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 12)))
    vals = VALUES if signed else [abs(v) for v in VALUES]
    dist = draw(st.booleans())
    m = [[0.0] * n for _ in range(n)]
    kind = draw(st.sampled_from(["any", "any", "ring"])) if n > 2 else "any"
    if kind == "ring":  # one long cycle and some chords
        o = draw(st.permutations(list(range(n))))
        for i, j in zip(o, o[1:] + o[:1]):
            m[i][j] = float(draw(st.sampled_from([v for v in vals if v])))
        for _ in range(draw(st.integers(0, 3))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            m[i][j] = float(draw(st.sampled_from(vals)))
    elif n <= 6:
        m = [[float(draw(st.sampled_from(vals))) for _ in range(n)] for _ in range(n)]
    else:
        for i, j, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(vals)),
                                     min_size=n, max_size=3 * n)):
            m[i][j] = float(v)
    if dist:  # all weights distinct in size
        m = [[v + np.sign(v) * (i * n + j) / 128 for j, v in enumerate(r)] for i, r in enumerate(m)]
    return dict(m=m, names=draw(st.permutations(MANY))[:n] if draw(st.booleans()) else None,
                frame=draw(st.booleans()), acyclic=draw(st.booleans()),
                order=draw(st.permutations(list(range(n)))), depth=draw(st.sampled_from([1, None, 2])),
                threshold=draw(st.sampled_from([None, 0.3, 0.6, 1.5, 0.1, 0.5, 1.0])))


def dag_part(m, order):
    m = m.copy()
    for i in order:
        for j in order:
            if order.index(i) >= order.index(j):
                m[i, j] = 0.0
    return m


def digraph(m):
    return nx.from_numpy_array((np.asarray(m) != 0).astype(int), create_using=nx.DiGraph)


@check.sub("convert", matrix(), quick=1500, thorough=30000)
def convert(case, ctx):
    m = np.array(case["m"])
    if case["acyclic"]:
        m = dag_part(m, case["order"])
    n = len(m)
    np.fill_diagonal(m, 0)
    names = case["names"]
    arg = m.copy()
    kw = {}
    if case["frame"]:
        cols = names or MANY[:n]
        arg = pd.DataFrame(m.copy(), columns=cols, index=cols)
        names = cols
    elif names:
        kw = dict(names=names)
    lab = list(names) if names else list(range(n))
    ctx.nontrivial((m != 0).any())
    before = arg.copy()

    def parents(mm, depth):
        g = digraph(mm).reverse()
        out = {}
        for i in range(n):
            dist = nx.single_source_shortest_path_length(g, i)
            out[lab[i]] = {lab[j] for j, k in dist.items() if j != i and (depth is None or k <= depth)}
        return out

    d = BaseDiscovery.matrix2dict(arg, depth=1, **kw)
    expect(list(d) == lab, "matrix2dict lists %s instead of %s", list(d), lab)
    expect({k: set(v) for k, v in d.items()} == parents(m, 1), "with depth 1, matrix2dict gives %s, the parents are %s",
           dict(d), parents(m, 1))
    expect(all(len(v) == len(set(v)) for v in d.values()), "matrix2dict repeats a parent")
    if case["threshold"] is not None:
        d, t = BaseDiscovery.matrix2dict(arg, depth=1, threshold=case["threshold"], **kw), case["threshold"]
        want = parents(np.where(np.abs(m) >= t, m, 0), 1)
        expect({k: set(v) for k, v in d.items()} == want, "above %s, matrix2dict gives %s, the parents are %s", t, dict(d), want)
    if case["acyclic"]:
        d = BaseDiscovery.matrix2dict(arg, **kw)
        lo, hi = parents(m, 1), parents(m, None)
        for k in lab:
            expect(lo[k] <= set(d[k]) <= hi[k], "matrix2dict of %s is %s: parents %s, ancestors %s", k, d[k], lo[k], hi[k])
    rows = BaseDiscovery.matrix2array(arg, **kw)
    df = BaseDiscovery.matrix2df(arg, **kw)
    expect(list(df.columns) == ["from", "to", "prob"], "matrix2df columns %s", list(df.columns))
    expect(df.values.tolist() == [list(r) for r in rows], "matrix2df and matrix2array differ")
    pairs = [frozenset(r[:2]) for r in rows]
    expect(len(set(pairs)) == len(pairs) and all(len(p) == 2 for p in pairs), "a pair is listed twice")
    got = {(r[0], r[1]): r[2] for r in rows if r[2] != 0}
    for i in range(n):
        for j in range(i + 1, n):
            a, b = m[i, j], m[j, i]
            if a == b == 0:
                expect((lab[i], lab[j]) not in got and (lab[j], lab[i]) not in got, "no edge between %s and %s", i, j)
            elif abs(a) != abs(b):
                e, v = ((lab[i], lab[j]), a) if abs(a) > abs(b) else ((lab[j], lab[i]), b)
                expect(got.get(e) == v, "the edge %s of weight %s is listed as %s", e, v, got)
    expect(before.equals(arg) if case["frame"] else np.array_equal(before, arg), "the matrix was changed")


@check.sub("trim", matrix(), quick=2500, thorough=50000, shards=2,
           rule="the matrix has a cycle")
def trim(case, ctx):
    m = np.array(case["m"])
    if case["acyclic"] and len(m) > 2:
        m2 = dag_part(m, case["order"])
        m2[case["order"][-1], case["order"][0]] = m[case["order"][-1], case["order"][0]]
        m = m2
    np.fill_diagonal(m, 0)
    g = digraph(m)
    cyclic = not nx.is_directed_acyclic_graph(g)
    ctx.nontrivial(cyclic)
    comp = {v: i for i, c in enumerate(nx.strongly_connected_components(g)) for v in c}
    for f in (BaseDiscovery.trim_cycle, CausalDiscovery._to_dag):
        r = np.asarray(f(m.copy()))
        expect(r.shape == m.shape, "shape")
        expect(nx.is_directed_acyclic_graph(digraph(r)), "%s left a cycle: %s", f.__name__, r.tolist())
        expect(((r == m) | (r == 0)).all(), "%s changed a weight: %s", f.__name__, r.tolist())
        for i, j in np.argwhere((m != 0) & (r == 0)):
            expect(comp[i] == comp[j], "%s removed %s -> %s, which is on no cycle", f.__name__, i, j)
        off = np.abs(m)
        if off.max() > 0 and (off == off.max()).sum() == 1:
            i, j = np.unravel_index(off.argmax(), m.shape)
            expect(r[i, j] == m[i, j], "%s removed the strongest edge %s -> %s", f.__name__, i, j)


@st.composite
def learn(draw):
    n = draw(st.sampled_from([3, 4, 2, 5]))
    which = draw(st.sampled_from(["notears", "notears_mlp", "golem", "golem_nv", "dagma", "pgm", "castle", "dy", "dygolem"]))
    w = [[draw(st.sampled_from([0, 0, 1.5, -1.5, 2, 0.8])) for _ in range(n)] for _ in range(n)]
    return dict(n=n, which=which, w=w, seed=draw(st.integers(0, 10 ** 6)), rows=draw(st.sampled_from([60, 36, 90])),
                order=draw(st.permutations(list(range(n)))), names=draw(st.permutations(LABELS))[:n],
                threshold=draw(st.sampled_from([0.01, 0.1, 0.3])), shift=draw(st.sampled_from([5.0, -20.0, 0.5])),
                rs=draw(st.integers(0, 50)), lag=draw(st.sampled_from([1, 2])))


def sample(case):
    rs = np.random.RandomState(case["seed"])
    n = case["n"]
    W = dag_part(np.array(case["w"], dtype=float), case["order"])
    X = rs.randn(case["rows"], n)
    for j in case["order"]:
        X[:, j] += X @ W[:, j]
    return X


def learner(case):
    k, rs = case["which"], case["rs"]
    th = dict(threshold=case["threshold"])
    if k == "notears":
        return CausalDiscovery(random_state=rs), dict(epoch=2, max_iter=12, **th)
    if k == "notears_mlp":
        return CausalDiscovery(hidden_layer_dim=[3], random_state=rs, scale="std"), dict(epoch=2, max_iter=12, **th)
    if k == "golem":
        return GolemDiscovery(random_state=rs, scale=None), dict(epoch=120, lr=0.02, **th)
    if k == "golem_nv":
        return GolemDiscovery(random_state=rs, equal_variances=False, scale="std"), dict(epoch=120, lr=0.02, **th)
    if k == "dagma":
        return DagmaDiscovery(random_state=rs, T=2, lr=0.003, warm_iter=200, max_iter=300), th
    if k == "pgm":
        return PgmProxy(random_state=rs), {}
    if k == "castle":
        return GCastleProxy("DirectLiNGAM", random_state=rs), {}
    if k == "dy":
        return DyCausalDiscovery(random_state=rs), dict(epoch=2, max_iter=12, step=4, order=case["lag"], **th)
    return DygolemCausalDiscovery(random_state=rs), dict(epoch=40, verbose=False, step=4, order=case["lag"], **th)


@check.sub("learners", learn(), quick=120, thorough=3000, shards=8, rule="the learned graph has an edge")
def learners(case, ctx):
    X = sample(case)
    dynamic = case["which"].startswith("dy")
    if dynamic:
        X = X[: len(X) // (4 + case["lag"]) * (4 + case["lag"])]
    names = case["names"]
    df = pd.DataFrame(X.copy(), columns=names)
    ctx.event(case["which"])
    l, kw = learner(case)
    first = l(X.copy(), **kw)
    again = l(X.copy(), **kw)
    fresh = learner(case)[0](X.copy(), **kw)
    X0 = X.copy()
    framed = l(df, **kw)
    l(X0, **kw)
    expect(np.array_equal(X0, X) and df.equals(pd.DataFrame(X, columns=names)), "the data was changed")
    if dynamic:
        for p, q in ((again, "the same object"), (fresh, "a fresh object"), (framed, "a data frame")):
            expect_close(p[1], first[1], f"inter-slice weights of {q}")
        expect(first[1].shape == (case["n"], case["n"], case["lag"]), "shape of the lagged weights %s", first[1].shape)
        first, again, fresh, framed = first[0], again[0], fresh[0], framed[0]
    else:
        expect(isinstance(framed, pd.DataFrame) and list(framed.columns) == list(names) and list(framed.index) == list(names),
               "the matrix is labelled %s / %s instead of %s", list(framed.index), list(framed.columns), names)
    first = np.asarray(first)
    expect(first.shape == (case["n"],) * 2, "shape %s", first.shape)
    if not np.isfinite(first).all():
        ctx.reject("the optimiser diverged; the library reports that as NaN weights")
    ctx.nontrivial((first != 0).any())
    expect_close(again, first, "a second call on the same object")
    expect_close(fresh, first, "a call on a fresh object with the same random_state")
    if case["which"] == "pgm":  # the PC orientation rules visit variables by label
        f = np.asarray(framed)
        expect_close((f + f.T) != 0, (first + first.T) != 0, "the skeleton for a data frame instead of an array")
    else:
        expect_close(np.asarray(framed), first, "a data frame instead of an array")
    expect(nx.is_directed_acyclic_graph(digraph(first)), "the learned graph has a cycle: %s", first.tolist())
    if "threshold" in kw:
        expect(((first == 0) | (np.abs(first) >= kw["threshold"])).all(), "edges below the threshold are kept: %s", first.tolist())
    if not dynamic:
        d = l(df, return_dict=True, **kw)
        g = digraph(framed)
        expect(list(d) == list(names), "the dictionary lists %s", list(d))
        for i, v in enumerate(names):
            lo = {names[j] for j in g.predecessors(i)}
            hi = {names[j] for j in nx.ancestors(g, i)}
            expect(lo <= set(d[v]) <= hi, "the dictionary gives %s for %s: parents %s, ancestors %s", d[v], v, lo, hi)
    if case["which"] in ("dagma", "notears", "notears_mlp", "golem_nv"):
        moved = learner(case)[0](X + case["shift"], **kw)
        expect_close(np.asarray(moved) != 0, first != 0, f"the graph learned after adding {case['shift']} to the data")


@st.composite
def strong(draw):
    n = 3
    return dict(w=[draw(st.sampled_from([1.6, -1.6, 2.0])) for _ in range(3)], skip=draw(st.integers(0, 3)),
                order=draw(st.permutations([0, 1, 2])), seed=draw(st.integers(0, 10 ** 6)), n=n)


@check.sub("recover", strong(), quick=16, thorough=200, shards=8,
           rule="every case: three variables with strong linear effects and equal noise")
def recover(case, ctx):
    rs = np.random.RandomState(case["seed"])
    o = case["order"]
    W = np.zeros((3, 3))
    for k, (i, j) in enumerate([(0, 1), (1, 2), (0, 2)]):
        if k != case["skip"]:
            W[o[i], o[j]] = case["w"][k]
    if case["skip"] == 3:
        W[o[0], o[2]] = abs(W[o[0], o[2]]) * np.sign(W[o[0], o[1]] * W[o[1], o[2]])  # no cancellation
    X = rs.randn(1500, 3)
    for j in o:
        X[:, j] += X @ W[:, j]
    got = DagmaDiscovery(random_state=0, T=4, lr=0.003, warm_iter=1500, max_iter=3000)(X + 3, threshold=0.3)
    expect(np.array_equal(got != 0, W != 0), "DAGMA learned %s, the truth is %s", got.tolist(), W.tolist())
    # two lags: slice k of the lagged weights is about k - order steps back
    a, b = (o[0], o[1]) if case["skip"] % 2 else (o[1], o[0])
    X = rs.randn(6, 200, 3)
    for t in range(2, 6):
        X[t, :, a] += 2.0 * X[t - 2, :, b]
        X[t, :, b] += 0
        X[t, :, o[2]] += 2.0 * X[t - 1, :, b]
    w, p = DyCausalDiscovery(random_state=0)(X.reshape(-1, 3), order=2, step=4, epoch=2, max_iter=200, lr=0.5)
    expect(abs(p[b, a, 0]) > 3 * abs(p[b, a, 1]) and abs(p[b, o[2], 1]) > 3 * abs(p[b, o[2], 0]),
           "two steps back acts %s -> %s and one step back %s -> %s, the lagged weights are %s", b, a, b, o[2], p.round(2).tolist())
