"""Shared generators.  All cases are plain JSON values."""
from hypothesis import strategies as st

# names chosen so that splitting a name into characters, or numbering latent
# variables U0, U1, ..., would be noticed
NAMES = ["X", "Y", "Z1", "Z2", "W", "age", "U0", "income", "Zx", "U1", "n"]


@st.composite
def admg(draw, min_nodes=2, max_nodes=6, arcs=True, names=None, max_arcs=5):
    """{nodes, edges, arcs, keys}: a random acyclic directed mixed graph.  The
    insertion order of the nodes is independent of a topological order."""
    n = max(min_nodes, min(max_nodes, draw(st.sampled_from([max_nodes, max_nodes - 1, max_nodes - 2, 3, 2, 1]))))
    pool = names or NAMES
    nodes = draw(st.permutations(pool[: max(n, min(len(pool), n + 3))]))[:n]
    density = draw(st.sampled_from([4, 3, 6]))  # of 10
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    edges = [[nodes[i], nodes[j]] for i, j in pairs if draw(st.integers(0, 9)) < density]
    out = dict(nodes=draw(st.permutations(nodes)), edges=draw(st.permutations(edges)), arcs=[])
    if arcs:
        adens = draw(st.sampled_from([3, 2, 4, 0]))
        cand = [[nodes[j], nodes[i]] if draw(st.booleans()) else [nodes[i], nodes[j]]
                for i, j in pairs if draw(st.integers(0, 9)) < adens]
        out["arcs"] = cand[:max_arcs]
    return out


MORE = NAMES + ["V10", "V2", "b", "Age", "x1"]


@st.composite
def large(draw, min_nodes=7, max_nodes=11, max_arcs=6):
    """a graph with long paths, many parents or many children of one node, or a sparse random one"""
    n = draw(st.integers(min_nodes, max_nodes))
    order = draw(st.permutations(MORE))[:n]
    kind = draw(st.sampled_from(["chain", "parents", "children", "sparse"]))
    p = draw(st.sampled_from([1, 0, 2]))  # of 10, further edges
    edges = []
    hub = n - 1 - draw(st.sampled_from([1, 1, 2, 0])) if kind == "parents" else draw(st.integers(0, 1))
    for i in range(n):
        for j in range(i + 1, n):
            if kind == "chain":
                always = j == i + 1
            elif kind == "parents":
                always = j == hub or (i, j) == (hub, hub + 1)
            elif kind == "children":
                always = i == hub
            else:
                always = draw(st.integers(0, 9)) < 2
            if always or draw(st.integers(0, 9)) < p:
                edges.append([order[i], order[j]])
    k = draw(st.integers(0, max_arcs))
    arcs = []
    for _ in range(k):
        i, j = draw(st.permutations(range(n)))[:2] if kind != "chain" or draw(st.booleans()) else (lambda a: (a, a + 1))(draw(st.integers(0, n - 2)))
        e = [order[i], order[j]]
        if e not in arcs and e[::-1] not in arcs:
            arcs.append(e)
    return dict(nodes=draw(st.permutations(order)), edges=draw(st.permutations(edges)), arcs=arcs)


def causation(case):
    pa = {v: [] for v in case["nodes"]}
    for a, b in case["edges"]:
        pa[b].append(a)
    return pa


@st.composite
def subset(draw, items, min_size=0, max_size=None):
    items = list(items)
    max_size = len(items) if max_size is None else min(max_size, len(items))
    k = draw(st.integers(min_size, max_size)) if max_size > min_size else min_size
    return draw(st.permutations(items))[:k]
