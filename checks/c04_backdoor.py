"""C04: backdoor adjustment sets are exactly the valid ones."""
import copy
from itertools import combinations, product

from hypothesis import strategies as st

from vlib.gens import admg, causation, large, subset
from vlib.graphref import ADMG, SCM, Dist, canon_prob, eval_prob, parse_latex
from vlib.harness import Check, expect
from ylearn.causal_model import CausalGraph, CausalModel
from ylearn.causal_model.utils import IdentificationError

check = Check("C04", "some treatment has a parent or a latent arc, and is an ancestor of some outcome")


@st.composite
def query(draw, max_nodes=6, multi=True, graphs=None):
    g = draw(admg(2, max_nodes) if graphs is None else graphs)
    a = ADMG(g["nodes"], g["edges"], [])
    perm = draw(st.permutations(g["nodes"]))
    if draw(st.integers(0, 4)):
        y = max(perm, key=lambda v: len(a.an([v])))
        anc = [v for v in perm if v in a.an([y]) and v != y] or [v for v in perm if v != y]
        anc.sort(key=lambda v: -len(a.an([v])) if draw(st.booleans()) else 0)
        k = draw(st.sampled_from([1, 1, 1, 2])) if multi else 1
        xs, ys = anc[:k], [y]
    else:
        xs, ys = perm[:1], perm[1:2]
    rest = [v for v in perm if v not in xs + ys]
    if multi and rest and draw(st.integers(0, 5)) == 0:
        ys = ys + rest[:1]
        rest = rest[1:]
    return dict(graph=g, x=xs, y=ys, z=draw(subset(rest)), form=draw(st.sampled_from(["set", "list", "str"])),
                model=draw(st.integers(0, 10**6)), bits=draw(st.integers(0, 63)))


def build(gc):
    g = ADMG(gc["nodes"], [tuple(e) for e in gc["edges"]], [tuple(a) for a in gc["arcs"]])
    return g, CausalGraph(causation(gc), latent_confounding_arcs=[tuple(a) for a in gc["arcs"]])


def form(names, how):
    if how == "str" and len(names) == 1:
        return names[0]
    return set(names) if how == "set" else list(names)


def adjusted(d, ys, xs, zs, a):
    t = 0.0
    for vals in product((0, 1), repeat=len(zs)):
        b = dict(a)
        b.update(zip(zs, vals))
        t += d.cond(set(ys), set(xs) | set(zs), b) * (d.p(set(zs), b) if zs else 1.0)
    return t


@check.sub("sets", query(), quick=2400, thorough=60000, shards=6)
def sets(case, ctx):
    decide_sets(case, ctx)


@check.sub("sets_large", query(graphs=large(7, 9, 3)), quick=400, thorough=8000, shards=6)
def sets_large(case, ctx):
    """graphs of 7 to 9 nodes with long paths or many parents"""
    decide_sets(case, ctx)


def decide_sets(case, ctx):
    g, cg = build(case["graph"])
    cm = CausalModel(cg)
    x, y = case["x"], case["y"]
    ctx.nontrivial(any(g.pa[v] or any(v in a for a in g.arcs) for v in x) and g.an(y) & set(x))
    cand = [v for v in g.nodes if v not in x and v not in y]
    valid = {frozenset(z) for k in range(len(cand) + 1) for z in combinations(cand, k) if g.backdoor(z, x, y)}
    ctx.event("some valid set" if valid else "no valid set")
    fx, fy = form(x, case["form"]), form(y, case["form"])
    keep = copy.deepcopy((fx, fy))
    m = SCM(g, case["model"])
    d = Dist(m.joint(), g.nodes)
    a = {v: case["bits"] >> i & 1 for i, v in enumerate(g.nodes)}
    true = Dist(m.joint({v: a[v] for v in x}), g.nodes).p(set(y), a)

    def formula_ok(zs, prob, what):
        val = eval_prob(prob, d, a)
        expect(abs(val - true) < 1e-8, "%s: P(%s|do(%s)) is %.9f, the returned expression %s gives %.9f",
               what, y, x, true, prob.parse(), val)
        expect(parse_latex(prob.parse()) == canon_prob(prob), "%s: the expression written down, %s, is not the one returned", what, prob.parse())
        val = adjusted(d, y, x, sorted(zs), a)
        expect(abs(val - true) < 1e-8, "%s: adjusting for %s gives %.9f instead of %.9f", what, sorted(zs), val, true)

    def call(style):
        try:
            if case["bits"] % 2:
                return cm.identify(treatment=fx, outcome=fy, identify_method=("backdoor", style))["backdoor"]
            return cm.get_backdoor_set(fx, fy, adjust=style)
        except IdentificationError:
            return None

    pa = set().union(*(g.pa[v] for v in x)) - set(x)
    r = call("simple")
    if frozenset(pa) in valid:
        expect(r is not None, "simple: the parents %s are a valid set but nothing was returned", pa)
        names, prob = r
        expect(sorted(names) == sorted(pa), "simple: %s is not the parent set %s", names, pa)
        formula_ok(names, prob, "simple")
    elif r is not None:
        expect(frozenset(r[0]) in valid, "simple: %s is not a valid backdoor set for %s -> %s", r[0], x, y)
    r = call("minimal")
    expect((r is not None) == bool(valid), "minimal: returned %s, valid sets: %s", r and r[0], [sorted(z) for z in valid])
    if r is not None:
        best = min(len(z) for z in valid)
        for z in r[0]:
            expect(frozenset(z) in valid, "minimal: %s is not valid", z)
            expect(len(z) == best, "minimal: %s has more elements than the smallest valid set (%d)", z, best)
        expect(len(r[0]) >= 1, "minimal: empty list")
        formula_ok(r[0][0], r[1], "minimal")
    r = call("all")
    expect((r is not None) == bool(valid), "all: returned %s, valid sets: %s", r and r[0], [sorted(z) for z in valid])
    if r is not None:
        got = [frozenset(z) for z in r[0]]
        expect(len(got) == len(set(got)) and set(got) == valid, "all: returned %s, the valid sets are %s",
               sorted(map(sorted, got)), sorted(map(sorted, valid)))
        formula_ok(r[0][0], r[1], "all")
    expect((fx, fy) == keep, "the names given were changed")
    z = case["z"]
    for s in [[v] for v in cand] + [cand, sorted(pa - set(y)), z]:
        got = bool(cm.is_valid_backdoor_set(set(s), fx, fy))
        expect(got == (frozenset(s) in valid), "is_valid_backdoor_set(%s, %s, %s) is %s", s, x, y, got)
    if got and z:
        ctx.event("valid non-empty z")


@st.composite
def path_query(draw, graphs=admg(2, 6)):
    g = draw(graphs)
    perm = draw(st.permutations(g["nodes"]))
    return dict(graph=g, x=perm[0], y=perm[1])


@check.sub("paths", path_query(), quick=800, thorough=20000, shards=2,
           rule="there is a path with three or more nodes that enters the treatment")
def paths(case, ctx):
    """backdoor paths, colliders and connectedness, against path enumeration"""
    decide_paths(case, ctx)


@check.sub("paths_large", path_query(large(7, 9, 3)), quick=100, thorough=4000, shards=2,
           rule="there is a path with three or more nodes that enters the treatment")
def paths_large(case, ctx):
    decide_paths(case, ctx)


def decide_paths(case, ctx):
    g, cg = build(case["graph"])
    cm = CausalModel(cg)
    x, y = case["x"], case["y"]
    pa = g.explicit()
    nb = {v: set(pa[v]) for v in pa}
    for v, ps in pa.items():
        for p in ps:
            nb[p].add(v)
    ref = set()
    stack = [(x,)]
    while stack:
        p = stack.pop()
        if p[-1] == y:
            if len(p) > 2:
                ref.add(p)
            continue
        stack += [p + (u,) for u in nb[p[-1]] if u not in p]
    ex = cg.explicit_unob_var_dag

    def name(v):
        return v if v in g.nodes else ("latent", tuple(sorted(ex.successors(v))))

    back = {p for p in ref if p[1] in pa[x]}
    got = cm.get_backdoor_path(x, y)
    expect({tuple(map(name, p)) for p in got} == back, "get_backdoor_path(%s,%s): %s, expected %s", x, y, got, back)
    ctx.nontrivial(bool(back))
    inv = {name(v): v for v in ex.nodes}
    for p in sorted(ref, key=str)[:12]:
        want = any(p[i - 1] in pa[p[i]] and p[i + 1] in pa[p[i]] for i in range(1, len(p) - 1))
        q = [inv[v] for v in p]
        expect(bool(cm.has_collider(q)) == want, "has_collider(%s) should be %s", q, want)
        if p in back:
            expect(bool(cm.is_connected_backdoor_path(q)) == (not want), "is_connected_backdoor_path(%s) should be %s", q, not want)
            ctx.event(f"collider={want} len={len(p)}")
