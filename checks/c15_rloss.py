"""C15: RLoss scores an estimator by the residuals which its effects leave unexplained."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression
from sklearn.model_selection import KFold
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsRegressor
from sklearn.preprocessing import StandardScaler

from checks.c10_double_ml import frame
from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import DoubleML, DoublyRobust, SLearner, TLearner, XLearner
from ylearn.estimator_model.effect_score import RLoss

check = Check("C15", "the tested estimator names its columns otherwise than the loss, the treatment is not 0/1, or the loss is cross fitted",
              ["nuisance models are deterministic; the tested estimator needs no column which the loss was not given; "
               "combined discrete treatments, whose values all occur in both datasets"])
YM = {"linear": lambda: eg.OLS(), "knn": lambda: KNeighborsRegressor(n_neighbors=3, algorithm="brute")}
XC = {"logit": lambda: LogisticRegression(C=0.5, tol=1e-9, max_iter=3000), "nb": lambda: GaussianNB(var_smoothing=0.2)}


TRANS = {"none": lambda: None, "scale": lambda: StandardScaler()}


@st.composite
def cases(draw):
    cont = draw(st.sampled_from([False, False, True]))
    s = draw(eg.spec(max_treat=2, cats=True, three=True, n=(24, 40), min_v=1, big=15, wide=True))
    s["missing"] = False
    eg.trim(s, 8)
    ests = [dict(kind=draw(st.sampled_from(["D"] if cont else ["S", "T", "X", "D", "DR"])), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)),
                 roles=draw(st.sampled_from(["same", "reversed", "swapped", "covariates", "adjustments", "fewer"])), str_names=draw(st.booleans()),
                 explicit=draw(st.booleans()), form=draw(st.sampled_from(["scalar", "list", "array"]))) for _ in range(draw(st.integers(1, 3)))]
    xm, ym = draw(st.sampled_from(sorted(YM if cont else XC))), draw(st.sampled_from(sorted(YM)))
    if "knn" in (xm, ym):
        s["wdtype"] = None
    return dict(cont=cont, spec=s, ests=ests, cf=draw(st.sampled_from([1, 2, 3, 5])), xm=xm, ym=ym, tw=draw(st.sampled_from(["none", "scale"])),
                tv=draw(st.sampled_from(["none", "scale"])), seed=draw(st.integers(0, 10**6)), again=draw(st.booleans()))


@check.sub("score", cases(), quick=400, thorough=8000, shards=8)
def score(case, ctx):
    s, cont = case["spec"], case["cont"]
    x, y, w, v = eg.names(s)
    train = frame(s, cont)
    val = frame(dict(s, seed=case["seed"]), cont)
    mx = (YM if cont else XC)[case["xm"]]
    # the estimators get the same transformer objects
    tw, tv = TRANS[case["tw"]](), TRANS[case["tv"]]()
    loss = RLoss(x_model=mx(), y_model=YM[case["ym"]](), cf_fold=case["cf"], adjustment_transformer=tw, covariate_transformer=tv, is_discrete_treatment=not cont, categories=eg.categories(s))
    a = dict(adjustment=eg.arg(w, s["str_names"]), covariate=eg.arg(v, s["str_names"]))
    if not cont:
        for d in (train, val):
            ids = np.stack([eg.mask(d, x, g) for g in eg.combos(s)], axis=1).argmax(axis=1)
            if case["cf"] > 1 and any(len(set(ids[tr])) < len(eg.combos(s)) for tr, _ in KFold(case["cf"]).split(ids)):
                ctx.reject("a fold without some treatment")
    if case["again"]:
        loss.fit(train, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), **a)
    loss.fit(val, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), **a)
    n = len(val)
    Z = val[v].to_numpy(float)
    Z = TRANS[case["tv"]]().fit_transform(Z) if tv is not None else Z
    if w:
        W = val[w].to_numpy(float)
        Z = np.hstack([Z, TRANS[case["tw"]]().fit_transform(W) if tw is not None else W])
    Y = val[y].to_numpy(float)
    groups = eg.combos(s)
    if cont:
        X = val[x].to_numpy(float)
        target = X[:, 0] if X.shape[1] == 1 else X
    else:
        X = np.stack([eg.mask(val, x, g) for g in groups], axis=1).astype(float)
        target = X.argmax(axis=1)
    xr, yr = X.copy(), Y.copy()
    for tr, te in ([(np.arange(n),) * 2] if case["cf"] == 1 else KFold(case["cf"]).split(Z)):
        m = mx().fit(Z[tr], target[tr])
        xr[te] -= (m.predict(Z[te]) if cont else m.predict_proba(Z[te])).reshape(len(te), -1)
        yr[te] -= YM[case["ym"]]().fit(Z[tr], Y[tr][:, 0] if Y.shape[1] == 1 else Y[tr]).predict(Z[te]).reshape(len(te), -1)
    interesting = case["cf"] > 1
    for e in case["ests"]:
        ws, vs = list(w), list(v)
        if e["roles"] == "reversed":
            ws, vs = ws[::-1], vs[::-1]
        elif e["roles"] == "swapped" and w:
            ws, vs = vs, ws
        elif e["roles"] == "covariates":
            ws, vs = [], ws + vs
        elif e["roles"] == "adjustments" and e["kind"] in "STX":
            ws, vs = vs + ws, []
        elif e["roles"] == "fewer":
            ws, vs = [], vs[-1:]
        interesting |= (ws, vs) != (w, v) and len(w + v) > 1
        t = groups[e["t"] % len(groups)]
        c = [g for g in groups if g != t][e["c"] % (len(groups) - 1)]
        cols = dict(adjustment=eg.arg(ws, e["str_names"]), covariate=eg.arg(vs, e["str_names"]))
        ya, xa = eg.arg(y, e["str_names"]), eg.arg(x, e["str_names"])
        tc = dict(treat=eg.wrap_label(t, e["form"]), control=eg.wrap_label(c, e["form"]))
        skw, ekw = {}, {}
        if e["kind"] == "D":
            est = DoubleML(x_model=mx(), y_model=eg.OLS(), is_discrete_treatment=not cont, categories=eg.categories(s),
                           adjustment_transformer=tw, covariate_transformer=tv).fit(train, ya, xa, **cols)
            if not cont:
                skw = ekw = tc
            elif e["explicit"]:
                skw = ekw = dict(treat=2.0, control=-1.0)
        elif e["kind"] == "DR":
            est = DoublyRobust(x_model=mx(), y_model=eg.OLS(), yx_model=eg.OLS(), categories=eg.categories(s)).fit(train, ya, xa, **cols, **tc)
            if e["explicit"]:
                skw = dict(treat=tc["treat"])
        else:
            est = {"S": SLearner, "T": TLearner, "X": XLearner}[e["kind"]](eg.OLS(), categories=eg.categories(s)).fit(train, ya, xa, **cols, **tc)
        if e["kind"] == "D" and tv is not None:
            # an estimator of its own says what the effects are
            own = DoubleML(x_model=mx(), y_model=eg.OLS(), is_discrete_treatment=not cont, categories=eg.categories(s), adjustment_transformer=TRANS[case["tw"]](),
                           covariate_transformer=TRANS[case["tv"]]()).fit(train, ya, xa, **cols)
        else:
            own = est
        if case["again"]:
            loss.fit(val, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), **a)
        tau = np.asarray(own.estimate(val[w + v], **ekw), float).reshape(n, len(y), -1)
        if cont:
            want = ((yr - (tau * xr[:, None, :]).sum(axis=2)) ** 2).mean(axis=0)
        else:
            interesting |= len(groups) > 2 or list(groups[0]) != [0]
            want = ((yr - tau[:, :, 0] * xr[:, [groups.index(t)]]) ** 2).mean(axis=0)
        got = loss.score(est, **skw)
        expect_close(np.ravel(got), want, "score of %s (%s)" % (e["kind"], e["roles"]), rtol=1e-4, atol=1e-6)
        again = loss.score(est, **skw)
        expect_close(np.ravel(again), np.ravel(got), "scoring twice", rtol=1e-12)
    ctx.nontrivial(interesting)
    ctx.event("continuous" if cont else "discrete")
