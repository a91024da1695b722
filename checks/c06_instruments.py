"""C06: reported instruments satisfy the instrument conditions, and none is missed."""
from hypothesis import strategies as st

from checks.c04_backdoor import build
from vlib.gens import admg, large, subset
from vlib.graphref import ADMG
from vlib.harness import Check, expect
from ylearn.causal_model import CausalModel

check = Check("C06", "the treatment has at least two parents, or one parent and a latent arc")


@st.composite
def query(draw, graphs=admg(2, 7)):
    g = draw(graphs)
    a = ADMG(g["nodes"], g["edges"], [])
    perm = draw(st.permutations(g["nodes"]))
    t = max(perm, key=lambda v: len(a.pa[v])) if draw(st.integers(0, 2)) else perm[0]
    rest = [v for v in perm if v != t]
    de = [v for v in rest if v in a.de([t])]
    y = (de or rest)[0] if draw(st.integers(0, 3)) else rest[0]
    arcs = [list(e) for e in g["arcs"]]
    if draw(st.booleans()) and [t, y] not in arcs and [y, t] not in arcs:
        arcs.append([t, y])
    g["arcs"] = arcs
    rest = [v for v in perm if v not in (t, y)]
    return dict(graph=g, t=t, y=y, z=draw(subset(sorted(a.pa[t] - {y}) or rest or [t], 1)))


@check.sub("iv", query(), quick=3000, thorough=80000, shards=4)
def iv(case, ctx):
    decide(case, ctx)


@check.sub("iv_large", query(large(7, 11, 4)), quick=800, thorough=20000, shards=2)
def iv_large(case, ctx):
    """graphs of 7 to 11 nodes with long paths or many parents"""
    decide(case, ctx)


def decide(case, ctx):
    g, cg = build(case["graph"])
    cm = CausalModel(cg)
    t, y = case["t"], case["y"]
    ctx.nontrivial(len(g.pa[t]) >= 2 or (g.pa[t] and any(t in a for a in g.arcs)))
    # a parent of the treatment, with no open path to the outcome once the
    # arrows into the treatment are gone
    cut = g.without_incoming([t])
    want = {z for z in g.pa[t] if z != y and cut.dsep({z}, {y}, set())}
    got = cm.get_iv(t, y)
    ctx.event(f"instruments={min(len(want), 3)}")
    expect(set(got or ()) == want, "get_iv(%s, %s) is %s, expected %s", t, y, got, want or None)
    if want:
        z = case["z"]
        ok = set(z) <= want
        expect(bool(cm.is_valid_iv(t, y, set(z))) == ok, "is_valid_iv(%s, %s, %s) should be %s", t, y, z, ok)
        for v in sorted(want):
            expect(bool(cm.is_valid_iv(t, y, v)), "is_valid_iv(%s, %s, %s) should hold", t, y, v)
        expect(bool(cm.is_valid_iv(t, y, want)), "the whole set of instruments is valid")
