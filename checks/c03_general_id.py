"""C03: general identification is sound and complete on semi-Markovian graphs."""
import copy
from itertools import product

from hypothesis import strategies as st

from vlib.gens import admg, causation, large
from vlib.graphref import ADMG, SCM, Dist, canon_prob, eval_prob, names_used, parse_latex
from vlib.harness import Check, expect
from ylearn.causal_model import CausalGraph, CausalModel
from ylearn.causal_model.utils import IdentificationError

check = Check(
    "C03",
    "some treatment is an ancestor of some outcome and the graph has a latent arc",
    ["binary variables, one binary latent per arc, all probabilities bounded away from 0 and 1",
     "identifiability is decided by an independent implementation of Tian's C-component algorithm"],
)


@st.composite
def query(draw, max_nodes=6, graphs=None):
    g = draw(admg(2, max_nodes, max_arcs=6) if graphs is None else graphs)
    perm = draw(st.permutations(g["nodes"]))
    if draw(st.integers(0, 4)):
        # mostly ask about a cause of something rather than about unrelated nodes
        a = ADMG(g["nodes"], g["edges"], [])
        ys = sorted((v for v in perm), key=lambda v: -len(a.an([v])))
        y = ys[0]
        anc = [v for v in perm if v in a.an([y]) and v != y]
        kx = min(draw(st.sampled_from([1, 1, 1, 2])), max(len(anc), 1))
        x = anc[:kx] or [v for v in perm if v != y][:1]
        more = [v for v in perm if v not in x and v != y][:draw(st.sampled_from([0, 0, 0, 1, 2]))]
        return dict(graph=g, x=x, y=[y] + more, model=draw(st.integers(0, 10**6)),
                    how=draw(st.sampled_from(["id", "identify", "id_list", "auto"])),
                    bits=draw(st.integers(0, 2**len(perm) - 1)))
    kx = draw(st.sampled_from([1, 1, 1, 2, 3]))
    ky = draw(st.sampled_from([1, 1, 1, 2, 3]))
    kx = min(kx, len(perm) - 1)
    ky = min(ky, len(perm) - kx)
    return dict(graph=g, x=perm[:kx], y=perm[kx:kx + ky], model=draw(st.integers(0, 10**6)),
                how=draw(st.sampled_from(["id", "identify", "id_list", "auto"])),
                bits=draw(st.integers(0, 2**len(perm) - 1)))


def run(case, ctx):
    gc = case["graph"]
    g = ADMG(gc["nodes"], [tuple(e) for e in gc["edges"]], [tuple(a) for a in gc["arcs"]])
    cg = CausalGraph(causation(gc), latent_confounding_arcs=[tuple(a) for a in gc["arcs"]])
    cm = CausalModel(cg)
    x, y = set(case["x"]), set(case["y"])
    ax, ay = (sorted(x), sorted(y)) if case["how"] == "id_list" else (set(x), set(y))
    edges0 = sorted((a, b, str(k)) for a, b, k in cg.dag.edges(keys=True))
    caus0 = copy.deepcopy(dict(cg.causation))
    want = g.identifiable(y, x)
    try:
        if case["how"] == "identify":
            res = cm.identify(treatment=ax, outcome=ay, identify_method="general")
            expect(set(res) == {"ID"}, "identify('general') returned keys %s", set(res))
            p = res["ID"]
        elif case["how"] == "auto":
            res = cm.identify(treatment=ax, outcome=ay)
            expect(set(res) == {"ID", "backdoor", "frontdoor"}, "identify() returned keys %s", set(res))
            p = res["ID"]
            for name, method in (("backdoor", cm.get_backdoor_set), ("frontdoor", cm.get_frontdoor_set)):
                try:
                    r = method(set(x), set(y), "simple")
                except IdentificationError:
                    r = None
                expect((r is None) == (res[name] is None), "identify(): %s is %s instead of %s", name, res[name], r)
                if r is not None:
                    expect(set(res[name][0]) == set(r[0]) and canon_prob(res[name][1]) == canon_prob(r[1]),
                           "identify(): %s is %s instead of %s", name, res[name][0], r[0])
                    ctx.event("auto: " + name)
        else:
            p = cm.id(y=ay, x=ax)
        got = True
    except IdentificationError as e:
        p, got = None, False
        expect(str(e) and str(e) in repr(e), "the error does not say what happened: %r", str(e))
    related = bool(g.an(y) & x)
    ctx.nontrivial(related and g.arcs)
    ctx.event(f"identifiable={want}")
    ctx.event(f"|x|={len(x)} |y|={len(y)}")
    expect(set(ax) == x and set(ay) == y, "the sets given were changed")
    expect(edges0 == sorted((a, b, str(k)) for a, b, k in cg.dag.edges(keys=True))
           and caus0 == dict(cg.causation), "identification changed the graph")
    if want:
        expect(got, "P(%s|do(%s)) is identifiable but an IdentificationError was raised", y, x)
    else:
        expect(not got, "P(%s|do(%s)) is not identifiable but %s was returned", y, x, p and p.parse())
        return
    expect(parse_latex(p.parse()) == canon_prob(p), "the expression written down, %s, is not the one returned, %s",
           p.parse(), canon_prob(p))
    expect(names_used(p) <= set(g.nodes), "the expression uses names outside the graph: %s", names_used(p))
    m = SCM(g, case["model"])
    d = Dist(m.joint(), g.nodes)
    base = {v: case["bits"] >> i & 1 for i, v in enumerate(g.nodes)}
    if p.divisor or any(q.divisor for q in p.product):
        ctx.event("expression with a ratio")
    xs, ys = sorted(x), sorted(y)
    combos = list(product((0, 1), repeat=len(xs) + len(ys)))
    step = max(1, len(combos) // 8)
    for vals in combos[case["bits"] % step::step]:
        a = dict(base)
        a.update(zip(xs + ys, vals))
        true = Dist(m.joint({v: a[v] for v in xs}), g.nodes).p(set(ys), a)
        val = eval_prob(p, d, a)
        expect(abs(val - true) < 1e-8,
               "P(%s|do(%s)) at %s is %.9f but the expression %s gives %.9f",
               ys, xs, {v: a[v] for v in xs + ys}, true, p.parse(), val)


@check.sub("id", query(6), quick=1600, thorough=60000, shards=6)
def id_sub(case, ctx):
    """every answer is checked against truncated factorisation in a random model"""
    run(case, ctx)


@check.sub("id_large", query(graphs=large(7, 9, 4)), quick=500, thorough=12000, shards=6)
def id_large(case, ctx):
    """graphs of 7 to 9 nodes with long paths or many parents"""
    run(case, ctx)


@check.sub("id_small", query(4), quick=600, thorough=20000, shards=2)
def id_small(case, ctx):
    run(case, ctx)


# graphs on which each branch of the algorithm is known to be needed
HARD = [
    dict(nodes=["X", "Z1", "Z2", "Y"], edges=[["Z1", "Z2"], ["Z1", "Y"], ["Z2", "X"], ["X", "Y"]],
         arcs=[["Z1", "Z2"], ["Z2", "Y"]]),
    dict(nodes=["W1", "X", "Y1", "W2", "Y2"], edges=[["W1", "X"], ["X", "Y1"], ["W2", "Y2"]],
         arcs=[["W1", "Y1"], ["W1", "W2"], ["W2", "X"], ["W1", "Y2"]]),
    dict(nodes=["X", "M", "Y"], edges=[["X", "M"], ["M", "Y"]], arcs=[["X", "Y"]]),
    dict(nodes=["X", "Z1", "Z2", "Z3", "Y"],
         edges=[["Z2", "X"], ["X", "Z1"], ["Z2", "Z1"], ["Z2", "Z3"], ["Z1", "Y"], ["Z3", "Y"]],
         arcs=[["X", "Z2"], ["X", "Z3"], ["X", "Y"], ["Z2", "Y"]]),
    dict(nodes=["W", "R", "X", "Y"], edges=[["W", "R"], ["R", "X"], ["X", "Y"]],
         arcs=[["W", "X"], ["W", "Y"]]),
]


@st.composite
def perturbed(draw):
    h = draw(st.sampled_from(HARD))
    nodes, edges, arcs = list(h["nodes"]), [list(e) for e in h["edges"]], [list(a) for a in h["arcs"]]
    order = []
    left = {v: {a for a, b in edges if b == v} for v in nodes}
    while left:
        v = next(v for v in nodes if v in left and not (left[v] & set(left)))
        order.append(v)
        del left[v]
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(order) - 2))
        j = draw(st.integers(i + 1, len(order) - 1))
        e = [order[i], order[j]]
        kind = draw(st.sampled_from(["edge", "arc", "drop_arc"]))
        if kind == "edge" and e not in edges:
            edges.append(e)
        elif kind == "arc" and e not in arcs and e[::-1] not in arcs:
            arcs.append(e)
        elif kind == "drop_arc" and arcs:
            arcs.pop(i % len(arcs))
    perm = draw(st.permutations(nodes))
    ys = [v for v in perm if v.startswith("Y")]
    xs = [v for v in perm if v.startswith("X")] + [v for v in perm if v[0] in "ZWR"][:draw(st.sampled_from([0, 0, 1]))]
    return dict(graph=dict(nodes=perm, edges=edges, arcs=arcs), x=xs, y=ys[:draw(st.integers(1, len(ys)))],
                model=draw(st.integers(0, 10**6)), how="id", bits=draw(st.integers(0, 63)))


@check.sub("id_hard", perturbed(), quick=800, thorough=20000, shards=3)
def id_hard(case, ctx):
    """perturbations of graphs that need every branch of the algorithm"""
    run(case, ctx)
