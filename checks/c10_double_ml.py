"""C10: DoubleML regresses residuals on residuals, and reports the effects of the asked treatment values."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.model_selection import KFold
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsRegressor
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import DoubleML

check = Check("C10", "the history estimates at least twice, cross fits, or asks for other treatment values than the defaults",
              ["nuisance models are deterministic and do not depend on the order of their features; "
               "every fold contains every treatment and outcome class; final models are linear"])

XREG = {"linear": lambda: LinearRegression(), "knn": lambda: KNeighborsRegressor(n_neighbors=4, algorithm="brute")}
XCLS = {"logit": lambda: LogisticRegression(C=0.6, tol=1e-9, max_iter=3000), "nb": lambda: GaussianNB(var_smoothing=0.1)}
TRANS = {"none": lambda: None, "scale": lambda: StandardScaler(), "poly": lambda: PolynomialFeatures(2, include_bias=False)}
FINAL = {"default": lambda: None, "ridge": lambda: Ridge(alpha=0.5)}


def frame(s, cont, seed=None):
    df = eg.frame(s, per_group=6)
    if cont:
        rng = np.random.RandomState(s["seed"] + 1)
        x, y, w, v = eg.names(s)
        for i, c in enumerate(x):
            df[c] = (df[(w + v)[i % len(w + v)]] * 0.6 + rng.randn(len(df))).round(3)
            for yy in [] if s["classes"] else y:
                df[yy] = df[yy] + (1 + i) * df[c] * (1 + 0.5 * df[(w + v)[-1]])
    return df


class Ref:
    def __init__(self, case, df, s, cont, proba):
        self.s, self.cont = s, cont
        x, y, w, v = eg.names(s)
        self.v = v
        n = len(df)
        tw, self.tv = TRANS[case["tw"]](), TRANS[case["tv"]]()
        W = [np.zeros((n, 0))]
        if w:
            W.append(df[w].to_numpy(float) if tw is None else tw.fit_transform(df[w].to_numpy(float)))
        V = np.zeros((n, 0))
        if v:
            V = df[v].to_numpy(float) if self.tv is None else self.tv.fit_transform(df[v].to_numpy(float))
            W.append(V)
        Z = np.hstack(W[::-1])
        Y = df[y].to_numpy()
        self.combos = eg.combos(s)
        if cont:
            X = df[x].to_numpy(float)
            ids = X[:, 0] if X.shape[1] == 1 else X
        else:
            X = np.stack([eg.mask(df, x, g) for g in self.combos], axis=1).astype(float)
            ids = X.argmax(axis=1)
        classes = sorted(s["classes"]) if proba else None
        Yt = Y[:, 0] if Y.shape[1] == 1 else Y
        Yr = np.stack([Y[:, 0] == c for c in classes], axis=1).astype(float) if proba else Y.astype(float)
        xh, yh = np.zeros_like(X), np.zeros_like(Yr)
        cf = case["cf"]
        folds = [(np.arange(n),) * 2] if cf == 1 else KFold(cf).split(Z)
        mx, my = (XREG if cont else XCLS)[case["xm"]], (XCLS if proba else XREG)[case["ym"]]
        self.ok = True
        for tr, te in folds:
            if (not cont and len(set(ids[tr])) < len(self.combos)) or (proba and len(set(Yt[tr])) < len(classes)):
                self.ok = False
                return
            a, b = mx().fit(Z[tr], ids[tr]), my().fit(Z[tr], Yt[tr])
            xh[te] = (a.predict(Z[te]) if cont else a.predict_proba(Z[te])).reshape(len(te), -1)
            yh[te] = (b.predict_proba(Z[te]) if proba else b.predict(Z[te])).reshape(len(te), -1)
        V1 = np.hstack([V, np.ones((n, 1))])
        R = X - xh
        if not cont:
            R = R[:, 1:]  # least squares: the effects do not depend on the reference level
        self.xd, self.yd, self.vd = R.shape[1], Yr.shape[1], V1.shape[1]
        D = np.stack([R[:, i] * V1[:, j] for j in range(self.vd) for i in range(self.xd)], axis=1)
        sv = np.linalg.svd(D - D.mean(axis=0), compute_uv=False)
        rank_gap = sv[(sv > 1e-9 * sv[0])].min() / sv[0]
        self.ok = rank_gap > 1e-5
        m = FINAL[case["final"]]() or LinearRegression()
        self.beta = m.fit(D, Yr - yh).coef_.reshape(self.yd, self.vd, self.xd)

    def slopes(self, df):
        s = self.slopes_(df)
        return s if self.cont else np.concatenate([np.zeros((len(df), self.yd, 1)), s], axis=2)

    def slopes_(self, df):
        """(n, outcomes, treatments)"""
        n = len(df)
        V = np.zeros((n, 0))
        if self.v:
            V = df[self.v].to_numpy(float)
            V = V if self.tv is None else self.tv.transform(V)
        return np.einsum("nv,yvx->nyx", np.hstack([V, np.ones((n, 1))]), self.beta)


@st.composite
def history(draw):
    mode = draw(st.sampled_from(["discrete", "continuous", "discrete", "proba"]))
    proba = mode == "proba"
    cont = mode == "continuous" or (proba and draw(st.booleans()))
    steps, first = [], None
    for _ in range(draw(st.integers(1, 2))):
        s = draw(eg.spec(max_treat=2, cats=True, many=True, three=True, classes=proba, max_y=1 if proba else 2, n=(24, 40), big=20, wide=True, min_v=draw(st.sampled_from([1, 1, 0]))))
        s["missing"] = False
        eg.trim(s, 8)
        eg.align(s, first)
        first = first or s
        steps.append(dict(op="fit", spec=s))
        for _ in range(draw(st.integers(1, 4))):
            steps.append(dict(op=draw(st.sampled_from(["estimate", "estimate", "estimate", "nji"])),
                              data=draw(st.sampled_from(["train", "new", "one", "full", "alike"])), n=draw(eg.rows()),
                              seed=draw(st.integers(0, 10**6)), quantity=draw(st.sampled_from([None, "CATE", "ATE"])),
                              target=draw(st.sampled_from([None, 0, 1, 2])), t=draw(st.integers(0, 99)), c=draw(st.integers(0, 99)),
                              set_t=draw(st.booleans()), set_c=draw(st.booleans()),
                              form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])),
                              tform=draw(st.sampled_from(["scalar", "column", "matrix", "series"])),
                              cform=draw(st.sampled_from(["scalar", "column", "matrix", "series"])),
                              reuse=draw(st.booleans())))
    xm, ym = draw(st.sampled_from(sorted(XREG if cont else XCLS))), draw(st.sampled_from(sorted(XCLS if proba else XREG)))
    tw, tv = draw(st.sampled_from(["none", "none", "scale", "poly"])), draw(st.sampled_from(["none", "none", "scale", "poly"]))
    for f in steps:
        if f["op"] == "fit" and ("knn" in (xm, ym) or "poly" in (tw, tv)):
            f["spec"]["wdtype"] = None  # ties, or collinear powers
    final = draw(st.sampled_from(sorted(FINAL))) if cont else "default"
    return dict(cont=cont, proba=proba, cf=draw(st.sampled_from([1, 1, 2, 3, 5])), xm=xm, ym=ym, final=final,
                tw=tw, tv=tv, steps=steps)


def value(form, which, n, xd, seed):
    rng = np.random.RandomState(seed)
    if form == "scalar":
        a = float(rng.randint(-3, 4) + (0.5 if which else 0))
        return a, np.full((n, xd), a)
    if form == "series" and xd == 1:
        a = rng.randn(n).round(2)
        return pd.Series(a), a[:, None]
    if form == "column" and xd == 1:
        a = rng.randn(n).round(2)
        return a, a[:, None]
    a = rng.randn(n, xd).round(2)
    return a, a


@check.sub("history", history(), quick=700, thorough=15000, shards=8)
def history_sub(case, ctx):
    cont, proba = case["cont"], case["proba"]
    # these objects are shared by the estimators made below
    final, trans_w, trans_v = FINAL[case["final"]](), TRANS[case["tw"]](), TRANS[case["tv"]]()
    mk = lambda: DoubleML(x_model=(XREG if cont else XCLS)[case["xm"]](), y_model=(XCLS if proba else XREG)[case["ym"]](), yx_model=final,
                          cf_fold=case["cf"], adjustment_transformer=trans_w, covariate_transformer=trans_v,
                          is_discrete_treatment=not cont, is_discrete_outcome=proba, proba_output=proba, categories=eg.categories(case["steps"][0]["spec"]))
    L = mk()
    n_est = other = 0
    prev = None
    for step in case["steps"]:
        if step["op"] == "fit":
            s = step["spec"]
            df = frame(s, cont)
            x, y, w, v = eg.names(s)
            ref = Ref(case, df, s, cont, proba)
            if not ref.ok:
                ctx.reject("a fold lacks a class, or the residuals are nearly collinear")
            before = df.copy()
            if prev is not None:
                # an estimator of its own, sharing the final model given by the caller
                L2 = mk()
                L, keep = L2 if s["seed"] % 2 else L, L
            else:
                keep = None
            L.fit(df, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]),
                  covariate=eg.arg(v, s["str_names"]))
            expect(df.equals(before), "fit changed the data")
            if keep is not None and keep is not L:
                expect_close(np.asarray(keep.estimate(), float), prev, "fitting another estimator changed the effects of this one", rtol=1e-7, atol=1e-9)
            prev = np.asarray(L.estimate(), float)
            continue
        data = {"train": None, "full": df, "alike": eg.alike(df, step["seed"]), "one": eg.new_rows(s, 1, step["seed"]), "new": eg.new_rows(s, step["n"], step["seed"])}[step["data"]]
        on = df if data is None else data
        n = len(on)
        f = ref.slopes(on)
        scale = 1 + np.abs(f).max()
        n_est += 1
        tag = "%s treatment, %s data" % ("continuous" if cont else "discrete", step["data"])
        kw, eff = {}, None
        if not cont:
            cs = ref.combos
            if len(x) == 3:  # the order of the combinations is only known for two treatments
                step = dict(step, op="estimate", set_t=True, set_c=True)
            t, c = cs[step["t"] % len(cs)], cs[step["c"] % len(cs)]
            it, ic = 1, 0
            if step["set_t"]:
                kw["treat"], it = eg.wrap_label(t, step["form"]), cs.index(t)
            if step["set_c"]:
                kw["control"], ic = eg.wrap_label(c, step["form"]), cs.index(c)
            eff = f[:, :, it] - f[:, :, ic]
            if step["op"] == "nji":
                kw.pop("treat", None)
                got = L.effect_nji(data, **kw)
                expect_close(got, f - f[:, :, [ic]], tag + ": effect_nji", rtol=1e-4, atol=1e-5 * scale)
                continue
            eff = eff[:, :, None]
        else:
            if step["op"] == "nji":
                expect_close(L.effect_nji(data), f, tag + ": effect_nji", rtol=1e-4, atol=1e-5 * scale)
                continue
            tv, cv = np.ones((n, ref.xd)), np.zeros((n, ref.xd))
            if step["set_t"]:
                kw["treat"], tv = value(step["tform"], 0, n, ref.xd, step["seed"])
            if step["set_c"]:
                kw["control"], cv = value(step["cform"], 1, n, ref.xd, step["seed"] + 1)
            eff = f * (tv - cv)[:, None, :]
        other += bool(kw) or case["cf"] > 1
        if proba and step["target"] is not None:
            cl = sorted(s["classes"])
            i = step["target"] % len(cl)
            kw["target_outcome"] = cl[i]
            eff = eff[:, [i], :]
        scale = 1 + np.abs(eff).max()
        got = np.asarray(L.estimate(data, **kw), float)
        expect(got.shape[:1] == (n,) and got.size == eff.size, "%s: effects of shape %s, wanted %s up to axes of length 1", tag, got.shape, eff.shape)
        expect_close(got.reshape(eff.shape), eff, "%s: effects (%s)" % (tag, sorted(kw)), rtol=1e-4, atol=1e-5 * scale)
        q = step["quantity"]
        if q == "ATE" or (q == "CATE" and v):
            g = np.asarray(L.estimate(data, quantity=q, **kw), float)
            expect(g.size == eff[0].size, "%s: %s of shape %s", tag, q, g.shape)
            expect_close(g.ravel(), eff.mean(axis=0).ravel(), "%s: %s" % (tag, q), rtol=1e-4, atol=1e-5 * scale)
    ctx.nontrivial(n_est >= 2 or other)
    ctx.event("%s cf=%d" % ("cont" if cont else "disc", case["cf"]))
