"""C14: the approximation bounds are the documented ones and contain the true effect under their assumption."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsRegressor

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import ApproxBound

check = Check("C14", "labels other than 0/1, several treatment values, covariates, or a refit",
              ["one outcome; the asked treatment values are observed; default outcome range only for two treatment values"])
YM = {"linear": lambda: eg.OLS(), "ridge": lambda: Ridge(alpha=0.7), "knn": lambda: KNeighborsRegressor(n_neighbors=3, algorithm="brute")}
XM = {"logit": lambda: LogisticRegression(C=0.5, tol=1e-9, max_iter=3000), "nb": lambda: GaussianNB(var_smoothing=0.2)}
ASSUMPS = [None, "no-assump", "non-negative", "non-positive", "optimal"]


@st.composite
def history(draw):
    steps = []
    cov = draw(st.sampled_from(["none", "cont", "cont", "disc"]))
    given_p = draw(st.sampled_from([False, False, True]))
    for i in range(draw(st.integers(1, 2))):
        s = draw(eg.spec(max_treat=1 if given_p else 2, cats=True, three=not given_p, max_y=1, n=(20, 36), min_v=1, big=7, wide=cov == "cont"))
        s["missing"] = s["missing"] and cov == "none"
        if given_p and steps:
            s["levels"] = steps[0]["spec"]["levels"]
        eg.align(s, steps[0]["spec"] if steps else None)
        steps.append(dict(op="fit", spec=s))
        for _ in range(draw(st.integers(1, 3))):
            steps.append(dict(op="estimate", data=draw(st.sampled_from(["train", "new", "full", "alike"])), seed=draw(st.integers(0, 10**6)),
                              n=draw(st.one_of(*[st.integers(12, 20)] * 12, st.sampled_from([130, 1030]))), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)), default=draw(st.booleans()),
                              form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])), assump=draw(st.sampled_from(ASSUMPS)),
                              up=draw(st.sampled_from([None, 0.0, 1.5, "zero"])), lo=draw(st.sampled_from([None, 0.0, 2.5, "zero"]))))
    ym = draw(st.sampled_from(sorted(YM)))
    for f in steps:
        if f["op"] == "fit" and ym == "knn":
            f["spec"]["wdtype"] = None
    return dict(cov=cov, given_p=given_p, steps=steps, ym=ym, xm=draw(st.sampled_from(sorted(XM))))


def close(got, want, tag):
    got = np.broadcast_to(np.ravel(np.asarray(got, float)), want.shape) if np.size(got) in (1, want.size) else np.asarray(got, float)
    expect_close(got, want, tag, rtol=1e-4, atol=1e-5)


@check.sub("documented", history(), quick=400, thorough=10000, shards=6)
def documented(case, ctx):
    cov = case["cov"]
    s0 = case["steps"][0]["spec"]
    ym, xm = YM[case["ym"]], XM[case["xm"]]
    prob = None
    if case["given_p"]:
        k0 = len(eg.combos(s0))
        prob = np.random.RandomState(s0["seed"]).dirichlet(np.ones(k0) * 3)
    L = ApproxBound(y_model=ym(), x_model=xm() if cov != "none" and prob is None else None, x_prob=None if prob is None else prob.copy(), categories=eg.categories(s0))
    deep, fits = False, 0
    for step in case["steps"]:
        if step["op"] == "fit":
            s = step["spec"]
            fits += 1

            def make(n=None, seed=None):
                d = eg.frame(s, per_group=5, n=n, seed=seed)
                if cov == "disc":
                    for c in v:
                        d[c] = np.where(d[c] > 0, "hi", "lo") if c == v[0] else (d[c] > 0.3).astype(int).astype(str)
                return d
            x, y, w, v = eg.names(s)
            df = make()
            before = df.copy()
            L.fit(df, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), covariate=eg.arg(v, s["str_names"]) if cov != "none" else None,
                  is_discrete_covariate=cov == "disc")
            expect(df.equals(before), "fit changed the data")
            groups = eg.combos(s)
            cats = {c: sorted(set(df[c])) for c in v}

            def feats(d):
                if cov == "none":
                    return np.zeros((len(d), 0))
                if cov == "cont":
                    return d[v].to_numpy(float)
                return np.stack([(d[c] == q).to_numpy(float) for c in v for q in cats[c]], axis=1)
            H = np.stack([eg.mask(df, x, g) for g in groups], axis=1).astype(float)
            ymodel = ym().fit(np.hstack([H, feats(df)]), df[y[0]].to_numpy())
            if cov != "none" and prob is None:
                xmodel = xm().fit(feats(df), H.argmax(axis=1))
            continue
        data = {"train": None, "full": df, "alike": eg.alike(df, step["seed"])}.get(step["data"])
        if step["data"] == "new":
            data = make(n=max(step["n"], 4 * len(groups)), seed=step["seed"])
            if cov == "disc" and any(set(data[c]) - set(cats[c]) for c in v):
                data = df
        on = df if data is None else data
        seen = [g for g in groups if eg.mask(on, x, g).any() and eg.mask(df, x, g).any()]
        t = seen[step["t"] % len(seen)]
        c = [g for g in seen if g != t][step["c"] % (len(seen) - 1)]
        kw = {}
        if step["default"] and len(groups) == 2:
            t, c = groups[1], groups[0]
        else:
            kw = dict(treat=eg.wrap_label(t, step["form"]), control=eg.wrap_label(c, step["form"]))
        it, ic = groups.index(t), groups.index(c)
        F = feats(on)
        n = 1 if cov == "none" else len(on)
        F = F[:n]
        if prob is not None:
            P = np.tile(prob, (n, 1))
        elif cov == "none":
            P = H.mean(axis=0)[None, :]
        else:
            P = xmodel.predict_proba(F)
        yt, yc = (ymodel.predict(np.hstack([np.tile(np.eye(len(groups))[i], (n, 1)), F])) for i in (it, ic))
        pt, pc = P[:, it], P[:, ic]
        obs = on[y[0]][eg.mask(on, x, t) | eg.mask(on, x, c)]
        up, lo = obs.max(), obs.min()
        if step["up"] is not None or len(groups) > 2:
            kw["y_upper"] = up = 0.0 if step["up"] == "zero" else float(up + (step["up"] or 0))
        if step["lo"] is not None or len(groups) > 2:
            kw["y_lower"] = lo = 0 if step["lo"] == "zero" else float(lo - (step["lo"] or 0))
        a, b = lo, up
        upper = pt * yt + (1 - pt) * b - (1 - pc) * a - pc * yc
        lower = pt * yt + (1 - pt) * a - (1 - pc) * b - pc * yc
        assump = None if step["assump"] == "optimal" and len(groups) > 2 else step["assump"]
        got = L.estimate(data, assump=assump, **kw)
        tag = "%s covariates, %s data, %s" % (cov, step["data"], assump)
        expect(len(got) == 2, "%s: not a pair", tag)
        zero = np.zeros_like(upper)
        if assump == "optimal":
            want = ((pc * a - pc * yc, pt * yt - pt * a), (pt * yt + pc * a - yc, yt - pt * a - pc * yc))
            for i in (0, 1):
                close(got[i][0], want[i][0], tag + ": lower bound %d" % (i + 1))
                close(got[i][1], want[i][1], tag + ": upper bound %d" % (i + 1))
        else:
            wl, wu = {None: (lower, upper), "no-assump": (lower, upper), "non-negative": (zero, upper), "non-positive": (lower, zero)}[assump]
            close(got[0], wl, tag + ": lower bound")
            close(got[1], wu, tag + ": upper bound")
        deep |= len(groups) > 2 or list(groups[0]) != [0] or cov != "none" or fits > 1
    ctx.nontrivial(deep)
    ctx.event(cov)


@st.composite
def worlds(draw):
    k = draw(st.integers(2, 3))
    n = draw(st.integers(6, 20))
    kind = draw(st.sampled_from(["no-assump", "non-negative", "non-positive", "optimal"]))
    lev = draw(st.sampled_from([l for l in eg.LABELS + eg.LABELS3 if len(l) == (2 if kind == "optimal" else k)]))
    Y = [[draw(st.integers(-5, 5)) for _ in lev] for _ in range(n)]
    T = [draw(st.integers(0, len(lev) - 1)) for _ in range(n)]
    adverse = draw(st.sampled_from([0, 1, -1]))
    return dict(kind=kind, levels=lev, Y=Y, T=T, adverse=adverse, t=draw(st.integers(0, 9)), c=draw(st.integers(0, 9)), wide=draw(st.sampled_from([0, 0, 2])))


@check.sub("sound", worlds(), quick=400, thorough=10000, shards=4)
def sound(case, ctx):
    lev = sorted(case["levels"])
    Y, T = np.array(case["Y"], float), np.array(case["T"])
    k = len(lev)
    t = case["t"] % k
    c = [i for i in range(k) if i != t][case["c"] % (k - 1)]
    kind = case["kind"]
    if kind in ("non-negative", "non-positive"):
        lo, hi = Y[:, [t, c]].min(axis=1), Y[:, [t, c]].max(axis=1)
        Y[:, t], Y[:, c] = (hi, lo) if kind == "non-negative" else (lo, hi)
    if kind == "optimal":
        T = Y.argmax(axis=1)
    elif case["adverse"]:
        T = (case["adverse"] * Y).argmax(axis=1)
    if (T == t).sum() == 0 or (T == c).sum() == 0 or len(set(T)) < k:
        ctx.reject("some treatment value is never taken")
    df = pd.DataFrame(dict(x=[lev[i] for i in T], y=Y[np.arange(len(Y)), T]))
    L = ApproxBound(y_model=eg.OLS()).fit(df, "y", "x")
    true = (Y[:, t] - Y[:, c]).mean()
    b = L.estimate(treat=lev[t], control=lev[c], y_upper=Y.max() + case["wide"], y_lower=Y.min() - case["wide"], assump=kind)
    # the second documented bound for optimal treatments does not follow from the assumption (it needs the outcome
    # under treatment to be no better among the untreated), only its formula is checked above
    lo, hi = (float(np.ravel(e)[0]) for e in (b[0] if kind == "optimal" else b))
    expect(lo - 1e-9 <= true <= hi + 1e-9, "%s bounds [%.6f, %.6f] miss the true effect %.6f", kind, lo, hi, true)
    ctx.nontrivial(case["adverse"] != 0 or kind == "optimal")
    ctx.event(kind)
