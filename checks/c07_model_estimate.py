"""C07: CausalModel.estimate adjusts for a valid set of the asked treatment and outcome."""
import copy
from itertools import combinations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c04_backdoor import build
from vlib import estgen as eg
from vlib.gens import admg, large, subset
from vlib.graphref import ADMG
from vlib.harness import Check, expect
from ylearn.causal_model import CausalModel
from ylearn.causal_model.utils import IdentificationError
from ylearn.estimator_model import SLearner, TLearner

check = Check("C07", "the history estimates at least once for a confounded pair",
              ["outcome regressions are linear; pairs whose valid sets include the empty set are only identified, "
               "because the learners need a covariate"])


@st.composite
def history(draw, graphs=admg(3, 6, max_arcs=2)):
    g = draw(graphs)
    a = ADMG(g["nodes"], g["edges"], [])
    pairs = [(x, y) for y in g["nodes"] for x in a.an([y]) if x != y and a.pa[x]]
    pairs = sorted(pairs) or [(g["nodes"][0], g["nodes"][1])]
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        x, y = draw(st.sampled_from(pairs))
        rest = [v for v in g["nodes"] if v not in (x, y)]
        steps.append(dict(
            op=draw(st.sampled_from(["identify", "estimate", "estimate", "estimate_given", "identify_estimate"])),
            x=x, y=y, style=draw(st.sampled_from(["simple", "minimal", "all"])),
            explicit=draw(st.booleans()), role=draw(st.sampled_from(["adjustment", "covariate", "both"])),
            z=draw(subset(sorted(a.pa[x] - {y}) if draw(st.booleans()) else rest)),
            form=draw(st.sampled_from(["set", "list"])), model=draw(st.sampled_from(["S", "T"])),
            own=draw(st.booleans()), quantity=draw(st.sampled_from(["ATE", "ATE", None]))))
    if draw(st.booleans()):
        for s in steps[1:]:
            s["x"], s["y"] = (steps[0]["x"], steps[0]["y"]) if not s["explicit"] else (s["x"], s["y"])
    return dict(graph=g, steps=steps, seed=draw(st.integers(0, 10**6)), n=draw(st.integers(30, 60)))


def ref(df, model, x, y, z):
    z = sorted(z)
    Z = df[z].to_numpy(float)
    X, Y = df[x].to_numpy(float), df[y].to_numpy(float)
    one = np.ones((len(df), 1))
    if model == "S":
        beta = np.linalg.lstsq(np.hstack([one, X[:, None], Z]), Y, rcond=None)[0]
        return np.full(len(df), beta[1])
    eff = 0
    for t, s in ((1, 1), (0, -1)):
        m = X == t
        b = np.linalg.lstsq(np.hstack([one, Z])[m], Y[m], rcond=None)[0]
        eff = eff + s * (np.hstack([one, Z]) @ b)
    return eff


def same(est, rows, quantity):
    """the estimate is the average (or, without a quantity, the rows) of the effects"""
    est = np.ravel(est)
    want = np.array([rows.mean()]) if quantity == "ATE" else rows
    return est.shape == want.shape and np.abs(est - want).max() < 1e-6


@check.sub("history", history(), quick=1200, thorough=12000, shards=8)
def history_sub(case, ctx):
    decide(case, ctx)


@check.sub("history_large", history(large(7, 8, 2)), quick=120, thorough=2000, shards=4)
def history_large(case, ctx):
    """graphs of 7 and 8 nodes with long paths or many parents"""
    decide(case, ctx)


def decide(case, ctx):
    g, cg = build(case["graph"])
    rng = np.random.RandomState(case["seed"])
    df = pd.DataFrame(rng.randn(case["n"], len(g.nodes)), columns=g.nodes)
    mix = rng.randn(len(g.nodes), len(g.nodes)) * 0.7
    df = pd.DataFrame(df.to_numpy() @ (np.eye(len(g.nodes)) + mix), columns=g.nodes)
    first = df.copy()
    x0 = case["steps"][0]["x"]
    first[x0] = (first[x0] > float(np.median(first[x0]))).astype(int)
    cm = CausalModel(cg, first)
    cur = None  # the last identified pair
    estimated = False
    for s in case["steps"]:
        x, y = s["x"], s["y"]
        if s["op"].startswith("estimate") and not s["explicit"] and cur is not None:
            x, y = cur
        pa = frozenset(g.pa[x])
        cand = [v for v in g.nodes if v not in (x, y)]
        valid = {frozenset(z) for k in range(len(cand) + 1) for z in combinations(cand, k) if g.backdoor(z, [x], [y])}
        data = df.copy()
        med = float(np.median(data[x]))
        data[x] = (data[x] > med).astype(int)
        data[y] = df[y]
        make = (lambda: SLearner(model=eg.OLS())) if s["model"] == "S" else \
            (lambda: TLearner(model=eg.OLS()))
        if s["op"] == "identify":
            try:
                cm.identify({x} if s["form"] == "set" else [x], {y}, ("backdoor", s["style"]))
            except IdentificationError:
                pass
            cur = (x, y)
            continue
        if not valid or frozenset() in valid or pa not in valid:
            continue
        if s["op"] == "identify_estimate":
            model = make()
            res = cm.identify_estimate(data, y, x, model, quantity=s["quantity"],
                                       identify_method=("backdoor", s["style"]) if s["explicit"] else s["style"])
            want = {"simple": {pa}, "all": valid,
                    "minimal": {z for z in valid if len(z) == min(map(len, valid))}}[s["style"]]
            got = res["effects"]
            expect(not model._is_fitted and all(m is not model for m in res["est_models"]), "identify_estimate fitted the model it was given")
            refs = [ref(data, s["model"], x, y, z) for z in want]
            expect(len(res["est_models"]) == len(got), "identify_estimate: one effect per model")
            if s["style"] != "minimal":
                expect(len(got) == len(refs), "identify_estimate: %d effects for %d sets", len(got), len(refs))
            for e in got:
                expect(any(same(e, r, s["quantity"]) for r in refs), "identify_estimate(%s): %s is not the adjusted effect %s", s["style"], e, refs)
            if s["style"] == "all":
                for r in refs:
                    expect(any(same(e, r, s["quantity"]) for e in got), "identify_estimate(all): no effect for some valid set")
            cur_ok = estimated = True
            ctx.event("identify_estimate")
            continue
        explicit = s["explicit"] or cur is None
        kw = dict(treatment=x, outcome=y) if explicit else {}
        if explicit and s["form"] == "set":
            kw = dict(treatment={x}, outcome={y})
        if s["op"] == "estimate":
            given = None if s["own"] and x == x0 else data
            e = cm.estimate(make(), given, quantity=s["quantity"], **kw)
            refs = {tuple(sorted(z)): ref(data, s["model"], x, y, z) for z in valid}
            expect(any(same(e, r, s["quantity"]) for r in refs.values()),
                   "estimate for %s -> %s is %s, which no valid adjustment set gives: %s", x, y, e, refs)
            estimated = True
            ctx.event("estimate" + ("/explicit" if explicit else "/last identified"))
        else:
            z = frozenset(s["z"])
            if not z:
                continue
            zz = sorted(z)
            if s["role"] == "both" and len(zz) > 1:
                parts = dict(adjustment=zz[:1], covariate=zz[1:])
            else:
                parts = {"covariate" if s["role"] == "covariate" else "adjustment": zz}
            if s["form"] == "set":
                parts = {k: set(v) for k, v in parts.items()}
            keep = copy.deepcopy(parts)
            try:
                given = None if s["own"] and x == x0 else data
                e = cm.estimate(make(), given, quantity=s["quantity"], **kw, **parts)
            except AssertionError:
                expect(z not in valid, "the valid adjustment set %s was rejected", zz)
                ctx.event("invalid set rejected")
                continue
            expect(z in valid, "estimate accepted the invalid adjustment set %s for %s -> %s", zz, x, y)
            expect(same(e, ref(data, s["model"], x, y, z), s["quantity"]), "estimate with the given set %s: %s instead of %s",
                   zz, e, ref(data, s["model"], x, y, z))
            expect(parts == keep, "the sets given were changed")
            estimated = True
            ctx.event("estimate_given")
    want = df.copy()
    want[x0] = (want[x0] > float(np.median(want[x0]))).astype(int)
    expect(first.equals(want), "the table of the model was changed")
    ctx.nontrivial(estimated)
