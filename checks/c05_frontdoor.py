"""C05: frontdoor adjustment sets are valid, complete and carry the right expression."""
import copy
import re
from itertools import combinations

from hypothesis import strategies as st

from checks.c04_backdoor import build
from vlib.gens import admg, subset
from vlib.graphref import ADMG, SCM, Dist, canon_prob, eval_prob, parse_latex
from vlib.harness import Check, expect
from ylearn.causal_model import CausalModel
from ylearn.causal_model.utils import IdentificationError

check = Check("C05", "the treatment is an ancestor of the outcome and shares a latent arc with another node")


@st.composite
def long_query(draw):
    """x -> m1 -> ... -> mk -> y with a hidden common cause of x and y, and a few more edges and nodes"""
    n = draw(st.integers(7, 9))
    order = draw(st.permutations(["X", "Y", "Z1", "Z2", "age", "U0", "V10", "V2", "n", "Zx"]))[:n]
    i, j = draw(st.integers(0, 2)), n - 1 - draw(st.integers(0, 1))
    x, y = order[i], order[j]
    p = draw(st.sampled_from([0, 1, 2]))
    edges = [[order[a], order[b]] for a in range(n) for b in range(a + 1, n)
             if b == a + 1 and a >= i and b <= j or draw(st.integers(0, 19)) < p and (a, b) != (i, j)]
    arcs = [[x, y]]
    for _ in range(draw(st.integers(0, 2))):
        e = draw(st.permutations(order))[:2]
        if e not in arcs and e[::-1] not in arcs and draw(st.booleans()):
            arcs.append(e)
    g = dict(nodes=draw(st.permutations(order)), edges=draw(st.permutations(edges)), arcs=arcs)
    rest = [v for v in g["nodes"] if v not in (x, y)]
    return dict(graph=g, x=x, y=y, z=draw(subset(rest)), form=draw(st.sampled_from(["set", "str"])),
                model=draw(st.integers(0, 10**6)), bits=draw(st.integers(0, 63)))


@st.composite
def query(draw):
    if draw(st.booleans()):
        # around x -> m -> y with a hidden common cause of x and y
        names = draw(st.permutations(["X", "Y", "Z1", "Z2", "age", "U0"]))
        x, m, y = names[:3]
        more = names[3:3 + draw(st.integers(0, 2))]
        pos = draw(st.permutations(more))
        order = [x, m, y]
        for v in pos:
            order.insert(draw(st.integers(0, len(order))), v)
        edges, arcs = [[x, m], [m, y]], [[x, y]]
        n = len(order)
        for i in range(n):
            for j in range(i + 1, n):
                e = [order[i], order[j]]
                if e not in edges and draw(st.integers(0, 9)) < 3 and (e != [x, y] or draw(st.integers(0, 3)) == 0):
                    edges.append(e)
                if e not in arcs and e[::-1] not in arcs and draw(st.integers(0, 9)) < 1:
                    arcs.append(e)
        g = dict(nodes=draw(st.permutations(order)), edges=edges, arcs=arcs)
    else:
        g = draw(admg(3, 6))
        perm = draw(st.permutations(g["nodes"]))
        a = ADMG(g["nodes"], g["edges"], [])
        y = max(perm, key=lambda v: len(a.an([v])))
        anc = [v for v in perm if v in a.an([y]) and v != y] or [v for v in perm if v != y]
        x = anc[0]
    rest = [v for v in g["nodes"] if v not in (x, y)]
    return dict(graph=g, x=x, y=y, z=draw(subset(rest)), form=draw(st.sampled_from(["set", "str"])),
                model=draw(st.integers(0, 10**6)), bits=draw(st.integers(0, 63)))


@check.sub("sets", query(), quick=2400, thorough=60000, shards=6)
def sets(case, ctx):
    decide_sets(case, ctx)


@check.sub("sets_large", long_query(), quick=400, thorough=8000, shards=6)
def sets_large(case, ctx):
    """long chains of mediators in graphs of 7 to 9 nodes"""
    decide_sets(case, ctx)


def decide_sets(case, ctx):
    g, cg = build(case["graph"])
    cm = CausalModel(cg)
    x, y = case["x"], case["y"]
    ctx.nontrivial(x in g.an([y]) and any(x in a for a in g.arcs))
    cand = [v for v in g.nodes if v not in (x, y)]
    valid = {frozenset(z) for k in range(1, len(cand) + 1) for z in combinations(cand, k) if g.frontdoor(z, x, y)}
    mediators = {v for p in g.directed_paths(x, y) for v in p} - {x, y}
    inner = {z for z in valid if z <= mediators}
    # x has no directed path to y: the empty set intercepts all of them
    trivial = not g.directed_paths(x, y)
    ctx.event("some set" if inner else "no set")
    m = SCM(g, case["model"])
    d = Dist(m.joint(), g.nodes)
    a = {v: case["bits"] >> i & 1 for i, v in enumerate(g.nodes)}
    true = Dist(m.joint({x: a[x]}), g.nodes).p({y}, a)
    for z in sorted({frozenset(case["z"]), frozenset(mediators)}, key=sorted):
        if not z:
            continue
        got = bool(cm.is_frontdoor_set(set(z), x, y))
        expect(got == (z in valid), "is_frontdoor_set(%s, %s, %s) is %s, the criterion says %s", sorted(z), x, y, got, z in valid)
    fx, fy = ({x}, {y}) if case["form"] == "set" else (x, y)
    keep = copy.deepcopy((fx, fy))
    for style in ("simple", "minimal", "all"):
        try:
            if case["bits"] % 2:
                r = cm.identify(treatment=fx, outcome=fy, identify_method=("frontdoor", style))["frontdoor"]
            else:
                r = cm.get_frontdoor_set(fx, fy, adjust=style)
        except IdentificationError:
            r = None
        expect((fx, fy) == keep, "the names given were changed to %s, %s", fx, fy)
        if trivial:
            continue
        expect((r is not None) == bool(inner), "%s: returned %s, valid sets of mediators are %s", style, r and r[0], [sorted(z) for z in inner])
        if r is None:
            continue
        sets_ = r[0] if style == "all" else [r[0]]
        got = [frozenset(z) for z in sets_]
        for z in got:
            expect(z in inner, "%s: %s is not a frontdoor set for %s -> %s", style, sorted(z), x, y)
        if style == "all":
            expect(len(got) == len(set(got)) and set(got) == inner, "all: %s instead of %s", got, inner)
        elif style == "minimal":
            expect(len(got[0]) == min(map(len, inner)), "minimal: %s is not smallest among %s", got[0], inner)
        if all(re.fullmatch(r"\w+", v) for v in g.nodes):
            expect(parse_latex(r[1].parse()) == canon_prob(r[1]), "%s: the expression written down, %s, is not the one returned", style, r[1].parse())
        val = eval_prob(r[1], d, a)
        expect(abs(val - true) < 1e-8, "%s: P(%s|do(%s)) is %.9f, the expression %s gives %.9f", style, y, x, true, r[1].parse(), val)
