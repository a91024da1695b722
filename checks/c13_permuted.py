"""C13: permuted learners give, for every pair of treatment values, the effects of a learner fitted for that pair."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsRegressor

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import (DoublyRobust, PermutedDoublyRobust, PermutedSLearner, PermutedTLearner,
                                    PermutedXLearner, SLearner, TLearner, XLearner)
from ylearn.estimator_model._permuted import PermutedLearner

check = Check("C13", "more than two treatment combinations, or a pair asked in the reverse order",
              ["base models are deterministic; every treatment combination (and class in it) is observed"])

REG = {"linear": lambda: eg.OLS(), "knn": lambda: KNeighborsRegressor(n_neighbors=2, algorithm="brute")}
CLS = {"logit": lambda: LogisticRegression(C=0.8, tol=1e-9, max_iter=3000), "nb": lambda: GaussianNB(var_smoothing=0.2)}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["S", "T", "X", "DR"]))
    mode = draw(st.sampled_from(["reg", "proba", "label"] if kind in "ST" else ["reg", "proba"] if kind == "X" else ["reg"]))
    cl = mode != "reg"
    s = draw(eg.spec(max_treat=2, cats=True, three=True, classes=cl, max_y=1 if cl else 2, n=(20, 30), wide=not cl))
    s["missing"] = False
    if kind == "DR":
        s["nv"] = max(1, s["nv"])
    if mode == "label":
        s["classes"] = [0, 1]
    eg.trim(s, 8)
    model = draw(st.sampled_from(sorted(CLS if cl else REG)))
    if model == "knn":
        s["wdtype"] = None
    qs = [dict(op=draw(st.sampled_from(["estimate", "estimate", "nji", "swap"])), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)),
               dt=draw(st.sampled_from([0, 0, 1])), dc=draw(st.sampled_from([0, 0, 1])), data=draw(st.sampled_from(["train", "new", "one", "full", "alike"])),
               form=draw(st.sampled_from(["scalar", "list", "tuple"])), target=draw(st.sampled_from([None, 0, 1, 2])),
               seed=draw(st.integers(0, 10**6)), n=draw(st.integers(2, 8)), quantity=draw(st.sampled_from([None, "ATE"]))) for _ in range(draw(st.integers(1, 4)))]
    return dict(kind=kind, mode=mode, model=model, spec=s, queries=qs, generic=draw(st.booleans()),
                n_jobs=draw(st.sampled_from([None, 0, 1])), refit=draw(st.sampled_from([None, None, 7])))


def build(case, permuted):
    kind, mode = case["kind"], case["mode"]
    make = (REG if mode == "reg" else CLS)[case["model"]]
    kw = dict(categories=eg.categories(case["spec"]))
    if mode != "reg":
        kw.update(is_discrete_outcome=True, proba_output=mode == "proba")
        if kind == "X":
            kw["final_proba_model"] = eg.OLS()
    if kind == "DR":
        a = (LogisticRegression(C=0.5, tol=1e-9, max_iter=3000), make(), make())
        return PermutedDoublyRobust(*a, **kw) if permuted and not case["generic"] else PermutedLearner(DoublyRobust(*a, **kw)) if permuted else DoublyRobust(*a, **kw)
    plain = {"S": SLearner, "T": TLearner, "X": XLearner}[kind]
    if not permuted:
        return plain(make(), **kw)
    if case["generic"]:
        return PermutedLearner(plain(make(), **kw))
    if mode == "proba":
        kw.pop("proba_output")  # the default of the permuted learners
    return {"S": PermutedSLearner, "T": PermutedTLearner, "X": PermutedXLearner}[kind](make(), **kw)


@check.sub("pairs", cases(), quick=400, thorough=8000, shards=8)
def pairs(case, ctx):
    s, mode = case["spec"], case["mode"]
    x, y, w, v = eg.names(s)
    cs = eg.combos(dict(s, cats=None))  # in their own order
    L = build(case, True)
    args = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    ya, xa = eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"])
    if case["refit"]:
        L.fit(eg.frame(s, per_group=4, seed=case["refit"]), ya, xa, n_jobs=case["n_jobs"], **args)
    df = eg.frame(s, per_group=4)
    before = df.copy()
    L.fit(df, ya, xa, n_jobs=case["n_jobs"], **args)
    expect(df.equals(before), "fit changed the data")
    tol = dict(rtol=1e-4, atol=1e-5)
    cl = sorted(s["classes"]) if mode == "proba" else None
    fresh = {}

    def effect(t, c, data, target):
        if t == c:
            return np.zeros((len(df if data is None else data), 1 if cl else len(y)))
        if (t, c) not in fresh:
            fresh[t, c] = build(case, False).fit(df, ya, xa, treat=list(t), control=list(c), **args)
        kw = dict(target_outcome=cl[-1] if target is None else target) if cl else {}
        e = np.asarray(fresh[t, c].estimate(data, **kw), float)
        return e.reshape(len(e), -1)

    interesting = len(cs) > 2
    for q in case["queries"]:
        t = cs[q["t"] % len(cs)]
        c = [g for g in cs if g != t][q["c"] % (len(cs) - 1)]
        data = {"train": None, "full": df, "alike": eg.alike(df, q["seed"]), "one": eg.new_rows(s, 1, q["seed"]), "new": eg.new_rows(s, q["n"], q["seed"])}[q["data"]]
        target = None if q["target"] is None or not cl else cl[q["target"] % len(cl)]
        kw = {} if target is None else dict(target_outcome=target)
        tag = "%s %s, %s data" % (case["kind"], mode, q["data"])
        if q["op"] == "nji":
            if q["dc"] and s["cats"] is None:
                c = cs[0]
            else:
                kw["control"] = eg.wrap_label(c, q["form"])
            got = L.effect_nji(data, n_jobs=case["n_jobs"], **kw)
            want = np.stack([effect(g, c, data, target) for g in cs], axis=2)
            expect_close(got, want, "%s: effect_nji against %s" % (tag, c), **tol)
            interesting |= c != cs[0]
            continue
        if q["dt"] and c != cs[-1] and s["cats"] is None:
            t = cs[-1]
        else:
            kw["treat"] = eg.wrap_label(t, q["form"])
        if q["dc"] and t != cs[0] and s["cats"] is None:
            c = cs[0]
        else:
            kw["control"] = eg.wrap_label(c, q["form"])
        want = effect(t, c, data, target)
        got = np.asarray(L.estimate(data, **kw), float)
        expect(got.shape[:1] == want.shape[:1] and got.size == want.size, "%s: effects of shape %s, wanted %s", tag, got.shape, want.shape)
        expect_close(got.reshape(want.shape), want, "%s: effect of %s against %s" % (tag, t, c), **tol)
        interesting |= cs.index(t) < cs.index(c)
        if q["op"] == "swap":
            back = np.asarray(L.estimate(data, treat=list(c), control=list(t), **({} if target is None else dict(target_outcome=target))), float)
            expect_close(back, -got, "%s: the reversed effect" % tag, **tol)
        if q["quantity"]:
            e = np.asarray(L.estimate(data, quantity="ATE", **kw), float)
            expect_close(e.ravel(), want.mean(axis=0), tag + ": ATE", **tol)
    ctx.nontrivial(interesting)
    ctx.event(case["kind"] + " " + mode)
