"""C11: the doubly robust estimator corrects the outcome regressions by the weighted residuals."""
import numpy as np
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.model_selection import KFold
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsRegressor

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import DoublyRobust

check = Check("C11", "the history estimates at least twice, cross fits, or asks for another treatment than the fitted one",
              ["nuisance models are deterministic and do not depend on the order of their features; every fold contains every "
               "treatment; estimated propensities of the taken treatments are at least 0.002"])

YM = {"linear": lambda: eg.OLS(), "ridge": lambda: Ridge(alpha=0.7), "knn": lambda: KNeighborsRegressor(n_neighbors=3, algorithm="brute")}
XM = {"logit": lambda: LogisticRegression(C=0.5, tol=1e-9, max_iter=3000), "nb": lambda: GaussianNB(var_smoothing=0.2),
      "sharp": lambda: GaussianNB(var_smoothing=0.01)}


class Ref:
    def __init__(self, case, df, s, control):
        x, y, w, v = eg.names(s)
        self.v, self.n = v, len(df)
        Z = df[v + w].to_numpy(float)
        Y = df[y].to_numpy(float)
        self.groups = eg.combos(s)
        H = np.stack([eg.mask(df, x, g) for g in self.groups], axis=1).astype(float)
        ids = H.argmax(axis=1)
        k, n, ny = len(self.groups), len(df), Y.shape[1]
        folds = [(np.arange(n),) * 2] if case["cf"] == 1 else KFold(case["cf"]).split(Z)
        P, Q = np.zeros((n, k)), np.zeros((n, ny, k))
        self.ok = True
        for tr, te in folds:
            if len(set(ids[tr])) < k:
                self.ok = False
                return
            P[te] = XM[case["xm"]]().fit(Z[tr], ids[tr]).predict_proba(Z[te])
            ym = YM[case["ym"]]().fit(np.hstack([H, Z])[tr], Y[tr][:, 0] if ny == 1 else Y[tr])
            for i in range(k):
                Q[te, :, i] = ym.predict(np.hstack([np.tile(np.eye(k)[i], (len(te), 1)), Z[te]])).reshape(len(te), ny)
        self.ok = P[np.arange(n), ids].min() > 0.002
        D = Q + (Y[:, :, None] - Q) * H[:, None, :] / (P[:, None, :] + 1e-5)
        D = D - D[:, :, [control]]
        self.D, self.models, self.ny, self.k = D, None, ny, k
        if v:
            self.models = [YM[case["fm"]]().fit(df[v].to_numpy(float), D[:, 0, i] if ny == 1 else D[:, :, i]) for i in range(k)]

    def effects(self, df):
        if self.models is None:
            return self.D
        V = df[self.v].to_numpy(float)
        return np.stack([m.predict(V).reshape(len(V), self.ny) for m in self.models], axis=2)


@st.composite
def history(draw):
    steps, first = [], None
    for _ in range(draw(st.integers(1, 2))):
        s = draw(eg.spec(max_treat=2, cats=True, many=True, three=True, n=(24, 40), big=20, wide=True, min_v=draw(st.sampled_from([1, 1, 0]))))
        s["missing"] = False
        eg.trim(s, 8)
        eg.align(s, first)
        first = first or s
        steps.append(dict(op="fit", spec=s, t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)), default=draw(st.booleans()),
                          form=draw(st.sampled_from(["scalar", "list", "tuple", "array"]))))
        for _ in range(draw(st.integers(1, 4))):
            steps.append(dict(op=draw(st.sampled_from(["estimate", "estimate", "estimate", "all", "nji"])),
                              data=draw(st.sampled_from(["train", "new", "one", "full", "alike"])), n=draw(eg.rows()),
                              seed=draw(st.integers(0, 10**6)), quantity=draw(st.sampled_from([None, "CATE", "ATE"])),
                              t=draw(st.integers(0, 99)), set_t=draw(st.booleans()),
                              form=draw(st.sampled_from(["scalar", "list", "tuple", "array"]))))
    ym, fm = draw(st.sampled_from(sorted(YM))), draw(st.sampled_from(sorted(YM)))
    for f in steps:
        if f["op"] == "fit" and "knn" in (ym, fm):
            f["spec"]["wdtype"] = None
    return dict(cf=draw(st.sampled_from([1, 1, 2, 3, 5])), xm=draw(st.sampled_from(sorted(XM))), ym=ym, fm=fm, steps=steps)


@check.sub("history", history(), quick=600, thorough=12000, shards=8)
def history_sub(case, ctx):
    L = DoublyRobust(x_model=XM[case["xm"]](), y_model=YM[case["ym"]](), yx_model=YM[case["fm"]](), cf_fold=case["cf"], categories=eg.categories(case["steps"][0]["spec"]))
    n_est = other = 0
    for step in case["steps"]:
        if step["op"] == "fit":
            s = step["spec"]
            df = eg.frame(s, per_group=6)
            x, y, w, v = eg.names(s)
            cs = eg.combos(s)
            it = step["t"] % len(cs)
            ic = [i for i in range(len(cs)) if i != it][step["c"] % (len(cs) - 1)]
            kw = {}
            if step["default"] and len(cs) == 2:
                it, ic = 1, 0
            else:
                kw = dict(treat=eg.wrap_label(cs[it], step["form"]), control=eg.wrap_label(cs[ic], step["form"]))
            ref = Ref(case, df, s, ic)
            if not ref.ok:
                ctx.reject("tiny propensities, or a fold without some treatment")
            before = df.copy()
            L.fit(df, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]),
                  covariate=eg.arg(v, s["str_names"]), **kw)
            expect(df.equals(before), "fit changed the data")
            continue
        if len(x) == 3:  # the order of the combinations is only known for two treatments
            step = dict(step, op="estimate")
        kind = step["data"] if v else "train"
        data = {"train": None, "full": df, "alike": eg.alike(df, step["seed"]), "one": eg.new_rows(s, 1, step["seed"]), "new": eg.new_rows(s, step["n"], step["seed"])}[kind]
        on = df if data is None else data
        n = len(on)
        want = ref.effects(on)
        tol = dict(rtol=1e-5, atol=1e-6 * (1 + np.abs(ref.D).max()))
        n_est += 1
        tag = "%s data, %d treatments" % (kind, ref.k)
        if step["op"] == "nji":
            e, z = want[:, :, [it]], np.zeros((n, ref.ny, 1))
            expect_close(L.effect_nji(data), np.concatenate([z, e] if it > ic else [e, z], axis=2), tag + ": effect_nji", **tol)
            continue
        kw = {}
        if step["op"] == "all":
            kw["all_tr_effects"] = True
        else:
            i = it
            if step["set_t"]:
                i = step["t"] % len(cs)
                kw["treat"] = eg.wrap_label(cs[i], step["form"])
            want = want[:, :, i]
        other += bool(kw) or case["cf"] > 1
        got = np.asarray(L.estimate(data, **kw), float)
        expect_close(got, want, "%s: effects (%s)" % (tag, sorted(kw)), **tol)
        q = step["quantity"]
        if q == "ATE" or (q == "CATE" and v):
            expect_close(L.estimate(data, quantity=q, **kw), want.mean(axis=0), "%s: %s" % (tag, q), **tol)
    ctx.nontrivial(n_est >= 2 or other)
    ctx.event("cf=%d treatments=%d" % (case["cf"], ref.k))
