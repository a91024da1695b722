"""C01: any history of edits leaves one consistent causal graph."""
import copy

import networkx as nx
from hypothesis import strategies as st

from vlib.gens import admg, causation, large
from vlib.graphref import ADMG
from vlib.harness import Check, expect
from ylearn.causal_model import CausalGraph

check = Check(
    "C01",
    "the history has at least two effective edits, or one on a graph with an edge and an arc",
    ["edits name existing nodes and edges, observed edges keep the graph acyclic, no self loops"],
)

OPS = ["add_nodes", "add_edge", "add_arc", "add_edges", "add_arcs", "rm_nodes", "rm_edge",
       "rm_arc", "rm_edges", "rm_arcs", "sub", "rm_in", "rm_out", "readd_edge"]


@st.composite
def history(draw, graphs=admg(1, 5), top=29, picks=3, ops=8):
    g = draw(graphs)
    ops = draw(st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(OPS), new=st.booleans(), keep=st.booleans(),
        picks=st.lists(st.integers(0, top), min_size=1, max_size=picks))), min_size=1, max_size=ops))
    return dict(graph=g, ops=ops)


class Model:
    def __init__(self, case):
        self.nodes = list(case["nodes"])
        self.edges = {tuple(e) for e in case["edges"]}
        self.arcs = {frozenset(a) for a in case["arcs"]}

    def admg(self):
        return ADMG(self.nodes, self.edges, self.arcs)

    def drop(self, gone):
        gone = set(gone)
        self.nodes = [v for v in self.nodes if v not in gone]
        self.edges = {e for e in self.edges if not set(e) & gone}
        self.arcs = {a for a in self.arcs if not a & gone}


def agree(cg, m, what):
    expect(set(cg.causation.keys()) == set(m.nodes), "%s: nodes of causation %s, expected %s",
           what, sorted(cg.causation), sorted(m.nodes))
    expect(set(cg.ava_nodes) == set(m.nodes), "%s: ava_nodes", what)
    for v in m.nodes:
        got = list(cg.causation[v])
        want = sorted(a for a, b in m.edges if b == v)
        expect(sorted(got) == want, "%s: causation[%s]=%s, expected %s", what, v, got, want)
        expect(sorted(cg.parents(v)) == want, "%s: parents(%s)", what, v)
    expect(set(cg.dag.nodes) == set(m.nodes), "%s: dag nodes %s, expected %s",
           what, sorted(cg.dag.nodes), sorted(m.nodes))
    want = sorted([(a, b, "0") for a, b in m.edges]
                  + [(a, b, "n") for e in m.arcs for a, b in (sorted(e), sorted(e)[::-1])])
    got = sorted((a, b, str(k)) for a, b, k in cg.dag.edges(keys=True))
    expect(got == want, "%s: dag edges %s, expected %s", what, got, want)
    od = cg.observed_dag
    expect(set(od.nodes) == set(m.nodes), "%s: observed_dag nodes %s, expected %s",
           what, sorted(od.nodes), sorted(m.nodes))
    expect(sorted(od.edges()) == sorted(m.edges), "%s: observed_dag edges", what)
    arcs = [frozenset(a) for a in cg.latent_confounding_arcs]
    expect(len(arcs) == len(set(arcs)) and set(arcs) == m.arcs,
           "%s: latent arcs %s, expected %s", what, cg.latent_confounding_arcs, m.arcs)
    expect(bool(cg.is_dag) == m.admg().acyclic(), "%s: is_dag", what)
    expect(set(cg.prob.variables) == set(m.nodes), "%s: prob.variables", what)
    # answers follow the graph as it is now
    a = m.admg()
    for v in m.nodes[:2] + m.nodes[-1:]:
        expect(set(cg.ancestors({v})) == a.an([v]), "%s: ancestors of %s", what, v)
        expect(set(cg.descendents({v})) == a.de([v]), "%s: descendants of %s", what, v)
    expect({frozenset(c) for c in cg.c_components} == a.ccomp(), "%s: c_components", what)
    if len(m.nodes) > 1 and a.acyclic():
        x, y = m.nodes[0], m.nodes[-1]
        z = set(m.nodes[1:-1][:1])
        expect(bool(cg.is_d_separated({x}, {y}, z)) == a.dsep({x}, {y}, z), "%s: d-separation of %s and %s", what, x, y)


def acyclic_with(m, extra):
    return ADMG(m.nodes, set(m.edges) | set(extra), []).acyclic()


def apply(cg, m, op, ctx):
    """Apply one edit.  Returns (result graph, model of the result, effective)."""
    k, new, picks = op["op"], op["new"], op["picks"]
    m2 = copy.deepcopy(m)
    nodes = sorted(m.nodes)
    if not nodes and k != "add_nodes":
        return cg, m, False

    def pick(seq, i):
        return seq[picks[i % len(picks)] % len(seq)]

    def pair(i):
        a, b = nodes[i // len(nodes) % len(nodes)], nodes[i % len(nodes)]
        return None if a == b else (a, b)

    ret = None
    inplace = True
    if k == "add_nodes":
        names = [f"N{p % 6}" for p in picks] + ([nodes[0]] if nodes and op["keep"] else [])
        for v in names:
            if v not in m2.nodes:
                m2.nodes.append(v)
        ret, inplace = cg.add_nodes(names, new=new), not new
    elif k in ("add_edge", "readd_edge"):
        if k == "readd_edge" and m.edges:
            e = pick(sorted(m.edges), 0)
        else:
            e = pair(picks[0])
        if e is None or not acyclic_with(m, [e]):
            return cg, m, False
        m2.edges.add(e)
        cg.add_edge(e[0], e[1])
    elif k == "add_arc":
        e = pair(picks[0])
        if e is None:
            return cg, m, False
        m2.arcs.add(frozenset(e))
        cg.add_edge(e[0], e[1], observed=False)
    elif k == "add_edges":
        es = [e for e in map(pair, picks) if e]
        if not es or not acyclic_with(m, es):
            return cg, m, False
        m2.edges |= set(es)
        ret, inplace = cg.add_edges_from(es, new=new), not new
    elif k == "add_arcs":
        es = [e for e in map(pair, picks) if e]
        if not es:
            return cg, m, False
        m2.arcs |= {frozenset(e) for e in es}
        ret, inplace = cg.add_edges_from(es, new=new, observed=False), not new
    elif k == "rm_nodes":
        gone = sorted({pick(nodes, i) for i in range(len(picks))})
        m2.drop(gone)
        ret, inplace = cg.remove_nodes(gone, new=new), not new
    elif k in ("rm_edge", "rm_edges"):
        if not m.edges:
            return cg, m, False
        es = sorted({pick(sorted(m.edges), i) for i in range(len(picks))})
        if k == "rm_edge":
            m2.edges.discard(es[0])
            cg.remove_edge(es[0])
        else:
            m2.edges -= set(es)
            ret, inplace = cg.remove_edges_from(es, new=new), not new
    elif k in ("rm_arc", "rm_arcs"):
        if not m.arcs:
            return cg, m, False
        arcs = sorted(tuple(sorted(a)) for a in m.arcs)
        es = sorted({pick(arcs, i) for i in range(len(picks))})
        if op["keep"]:
            es = [e[::-1] for e in es]
        if k == "rm_arc":
            m2.arcs.discard(frozenset(es[0]))
            cg.remove_edge(es[0], observed=False)
        else:
            m2.arcs -= {frozenset(e) for e in es}
            ret, inplace = cg.remove_edges_from(es, new=new, observed=False), not new
    elif k == "sub":
        keep = {pick(nodes, i) for i in range(len(picks))}
        m2.drop(set(nodes) - keep)
        ret, inplace = cg.build_sub_graph(keep), False
    elif k == "rm_in":
        xs = {pick(nodes, i) for i in range(len(picks))}
        m2.edges = {e for e in m2.edges if e[1] not in xs}
        m2.arcs = {a for a in m2.arcs if not a & xs}
        ret, inplace = cg.remove_incoming_edges(xs, new=new), not new
    elif k == "rm_out":
        xs = {pick(nodes, i) for i in range(len(picks))}
        m2.edges = {e for e in m2.edges if e[0] not in xs}
        ret, inplace = cg.remove_outgoing_edges(xs, new=new), not new
    changed = (set(m2.nodes), m2.edges, m2.arcs) != (set(m.nodes), m.edges, m.arcs)
    ctx.event(f"{k}{'/new' if not inplace else ''}{'' if changed else '/noop'}")
    if inplace:
        return cg, m2, changed
    expect(isinstance(ret, CausalGraph), "%s(new=True) returned %r", k, ret)
    agree(cg, m, f"{k}(new=True) must leave its graph alone")
    agree(ret, m2, f"result of {k}(new=True)")
    # the new graph shares nothing with the old one
    if op["keep"]:
        ret.add_nodes(["extra_node"])
        ret.remove_nodes(["extra_node"])
        if ret.causation:
            v = sorted(ret.causation)[0]
            ret.add_nodes(["extra_node"])
            ret.add_edge("extra_node", v)
            ret.add_edge("extra_node", v, observed=False)
            agree(cg, m, f"editing the result of {k}(new=True) changed its source")
            ret.remove_nodes(["extra_node"])
        return cg, m, changed
    return ret, m2, changed


@check.sub("history_large", history(large(7, 12, 8), 143, 8, 12), quick=300, thorough=10000, shards=3)
def history_large(case, ctx):
    """graphs of 7 to 12 nodes, edits of up to 8 nodes or edges at once"""
    decide(case, ctx)


@check.sub("history", history(), quick=1600, thorough=60000, shards=4)
def history_sub(case, ctx):
    decide(case, ctx)


def decide(case, ctx):
    """model-based: a set of nodes, edges and arcs"""
    given = causation(case["graph"])
    before = copy.deepcopy(given)
    arcs = [tuple(a) for a in case["graph"]["arcs"]]
    m = Model(case["graph"])
    cg = CausalGraph(given, latent_confounding_arcs=arcs)
    agree(cg, m, "constructor")
    n = 0
    for op in case["ops"]:
        cg, m, changed = apply(cg, m, op, ctx)
        n += changed
        agree(cg, m, f"after {op['op']}")
    expect(given == before, "the dictionary given to the graph was changed: %s", given)
    expect(arcs == [tuple(a) for a in case["graph"]["arcs"]], "the list of arcs was changed")
    g = case["graph"]
    ctx.nontrivial(n >= 2 or (n == 1 and g["edges"] and g["arcs"]))


@check.sub("from_dag", admg(1, 6), quick=200, thorough=4000,
           rule="the graph has an edge and an arc")
def from_dag(case, ctx):
    """a graph can be built from a given networkx graph and from arcs of either kind of container"""
    ctx.nontrivial(bool(case["edges"] and case["arcs"]))
    dag = nx.MultiDiGraph()
    dag.add_nodes_from(case["nodes"])
    dag.add_edges_from([(a, b, 0) for a, b in case["edges"]])
    m = Model(case)
    cg = CausalGraph(causation(case), dag=dag, latent_confounding_arcs={tuple(a) for a in case["arcs"]})
    agree(cg, m, "built from a given dag")
    agree(CausalGraph(cg.causation, latent_confounding_arcs=cg.latent_confounding_arcs), m, "rebuilt")
