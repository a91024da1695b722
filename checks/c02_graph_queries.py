"""C02: questions asked of a causal graph are answered as graph theory defines them."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

from vlib.gens import admg, causation, large, subset
from vlib.graphref import ADMG
from vlib.harness import Check, expect
from ylearn.causal_model import CausalGraph

check = Check("C02", "the graph has at least two edges and a latent arc (d-separation: also three nodes)")


def build(case):
    g = ADMG(case["nodes"], [tuple(e) for e in case["edges"]], [tuple(a) for a in case["arcs"]])
    cg = CausalGraph(causation(case), latent_confounding_arcs=[tuple(a) for a in case["arcs"]])
    return g, cg


@st.composite
def structure(draw, graphs=admg(1, 7)):
    g = draw(graphs)
    return dict(graph=g, xs=draw(subset(g["nodes"], 1, 3)))


@check.sub("structure_large", structure(large(7, 14, 8)), quick=500, thorough=10000, shards=2)
def structure_large(case, ctx):
    """graphs of 7 to 11 nodes with long paths, many parents or many arcs"""
    decide_structure(case, ctx)


@check.sub("structure", structure(), quick=1500, thorough=40000, shards=3)
def structure_sub(case, ctx):
    decide_structure(case, ctx)


def decide_structure(case, ctx):
    g, cg = build(case["graph"])
    xs = case["xs"]
    ctx.nontrivial(len(g.edges()) >= 2 and g.arcs)
    expect(set(cg.ancestors(set(xs))) == g.an(xs), "ancestors(%s)=%s, expected %s", xs, cg.ancestors(set(xs)), g.an(xs))
    expect(set(cg.descendents(set(xs))) == g.de(xs), "descendents(%s)", xs)
    expect(set(cg.ancestors(xs[0])) == g.an([xs[0]]), "ancestors of a single name")
    expect(set(cg.descendents(xs[0])) == g.de([xs[0]]), "descendents of a single name")
    got = [frozenset(c) for c in cg.c_components]
    expect(len(got) == len(set(got)) and set(got) == g.ccomp(), "c_components %s, expected %s", got, g.ccomp())
    order = list(cg.topo_order)
    expect(sorted(order) == sorted(g.nodes), "topo_order %s is not a permutation of the nodes", order)
    expect(all(order.index(a) < order.index(b) for a, b in g.edges()), "topo_order %s breaks an edge", order)
    w = np.asarray(cg.to_adj_matrix())
    nodes = list(cg.dag.nodes)
    for i, a in enumerate(nodes):
        for j, b in enumerate(nodes):
            want = ((a, b) in g.edges()) + (frozenset((a, b)) in g.arcs)
            expect(w[i, j] == want, "adjacency entry %s -> %s is %s, expected %s", a, b, w[i, j], want)
    ex = cg.explicit_unob_var_dag
    lat = set(ex.nodes) - set(g.nodes)
    expect(len(lat) == len(g.arcs), "one unobserved variable per arc: %s for %s", lat, g.arcs)
    expect({frozenset(ex.successors(u)) for u in lat} == g.arcs, "the unobserved variables point at the ends of the arcs")
    expect(not any(list(ex.predecessors(u)) for u in lat), "unobserved variables are roots")
    expect({(a, b) for a, b in ex.edges() if a not in lat} == g.edges(), "explicit dag keeps the observed edges")
    expect(nx.is_directed_acyclic_graph(ex), "explicit dag is acyclic")
    for v in g.nodes:
        p = cg.parents(v, only_observed=False)
        obs = {x for x in p if x in g.nodes}
        expect(obs == g.pa[v] and len(p) - len(obs) == sum(v in a for a in g.arcs), "parents of %s with unobserved ones: %s", v, p)
    for fn, ref in ((cg.remove_incoming_edges, g.without_incoming), (cg.remove_outgoing_edges, g.without_outgoing)):
        h, r = fn(set(xs), new=True), ref(xs)
        expect({(a, b) for a, b in h.observed_dag.edges()} == r.edges()
               and {frozenset(a) for a in h.latent_confounding_arcs} == r.arcs, "mutilated graph for %s", xs)
    h, r = cg.build_sub_graph(set(xs)), g.sub(xs)
    expect(set(h.causation) == set(xs) and {frozenset(c) for c in h.c_components} == r.ccomp(), "c_components of the subgraph on %s", xs)


@st.composite
def dsep(draw, graphs=admg(2, 7)):
    g = draw(graphs)
    perm = draw(st.permutations(g["nodes"]))
    i = draw(st.integers(1, min(2, len(perm) - 1)))
    j = draw(st.integers(i + 1, min(i + 2, len(perm))))
    k = draw(st.integers(j, len(perm)))
    return dict(graph=g, x=perm[:i], y=perm[i:j], z=perm[j:k])


@check.sub("dsep_large", dsep(large(7, 14, 8)), quick=600, thorough=20000, shards=2)
def dsep_large(case, ctx):
    decide_dsep(case, ctx)


@check.sub("dsep", dsep(), quick=2000, thorough=80000, shards=3)
def dsep_sub(case, ctx):
    decide_dsep(case, ctx)


def decide_dsep(case, ctx):
    g, cg = build(case["graph"])
    x, y, z = set(case["x"]), set(case["y"]), set(case["z"])
    want = g.dsep(x, y, z)
    ctx.nontrivial(len(g.edges()) >= 2 and g.arcs and len(g.nodes) >= 3)
    ctx.event(f"separated={want} |z|={len(z)}")
    got = bool(cg.is_d_separated(x, y, z))
    expect(got == want, "is_d_separated(%s, %s, %s) is %s, expected %s", x, y, z, got, want)
    expect(bool(cg.is_d_separated(y, x, z)) == want, "d-separation is not symmetric")
