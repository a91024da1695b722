"""C09: S, T and X learners compute the differences of the fitted group regressions."""
import numpy as np
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import SLearner, TLearner, XLearner

check = Check("C09", "the history estimates at least twice, or on other data than it was fitted on",
              ["base models are deterministic and do not depend on the order of their features; "
               "every used group has rows, and rows of every class for classifiers"])

REG = {"linear": lambda: eg.OLS(), "ridge": lambda: Ridge(alpha=0.7),
       "knn": lambda: KNeighborsRegressor(n_neighbors=2, algorithm="brute")}
CLS = {"logit": lambda: LogisticRegression(C=0.8, tol=1e-8, max_iter=2000), "nb": lambda: GaussianNB(),
       "knn": lambda: KNeighborsClassifier(n_neighbors=3, algorithm="brute")}
LEARNER = {"S": SLearner, "T": TLearner, "X": XLearner}


class Ref:
    """the learners of the books, on plain arrays; effects have the shape (n, outcomes or classes, treats)"""

    def __init__(self, kind, make, final, df, s, pairs, proba):
        self.kind, self.s, self.proba = kind, s, proba
        x, y, w, v = eg.names(s)
        self.wv = w + v
        Z = df[self.wv].to_numpy(float)
        Y = df[y].to_numpy()
        Yf = Y[:, 0] if Y.shape[1] == 1 else Y
        self.k = len(s["classes"]) if proba else len(y)
        self.pairs = pairs
        if kind == "S":
            groups = eg.combos(s)
            H = np.stack([eg.mask(df, x, g) for g in groups], axis=1).astype(float)
            self.groups = groups
            self.model = make().fit(np.hstack([H, Z]), Yf)
            return
        fit = lambda g: make().fit(Z[eg.mask(df, x, g)], Yf[eg.mask(df, x, g)])
        self.mu = {g: fit(g) for p in pairs for g in p}
        if kind == "X":
            cl = np.array(sorted(s["classes"])) if proba else None
            tgt = (lambda m: (Y[m] == cl[None, :]).astype(float)) if proba else (lambda m: Yf[m])
            self.tau = {}
            for t, c in pairs:
                mt, mc = eg.mask(df, x, t), eg.mask(df, x, c)
                dt = tgt(mt) - self.out(self.mu[c], Z[mt])
                dc = self.out(self.mu[t], Z[mc]) - tgt(mc)
                self.tau[t, c] = (final().fit(Z[mt], dt), final().fit(Z[mc], dc))

    def out(self, model, Z):
        return model.predict_proba(Z) if self.proba else model.predict(Z)

    def effects(self, df, rho=0.5, sides=False):
        Z = df[self.wv].to_numpy(float)
        n = len(Z)
        res = []
        for t, c in self.pairs:
            if self.kind == "S":
                yt, yc = (self.out(self.model, np.hstack([np.tile([float(g == h) for h in self.groups], (n, 1)), Z])) for g in (t, c))
                e = yt - yc
            elif self.kind == "T":
                e = self.out(self.mu[t], Z) - self.out(self.mu[c], Z)
            else:
                a, b = (m.predict(Z) for m in self.tau[t, c])
                e = 0.5 * a + 0.5 * b if not sides else (a if sides == 1 else b)
            res.append(np.asarray(e).reshape(n, self.k))
        return np.stack(res, axis=2)


@st.composite
def history(draw, classes=False):
    kind = draw(st.sampled_from(["S", "T", "X"]))
    steps = []
    combined = draw(st.sampled_from([True, True, False]))
    same = draw(st.booleans())
    first = None
    for i in range(draw(st.integers(1, 3))):
        s = draw(eg.spec(max_treat=1 if (not combined and kind == "S") else 2, classes=classes, max_y=1 if classes else 2, cats=True, many=True, three=combined, big=20, wide=not classes))
        if not combined:
            s["missing"] = False
        if first and same:
            s["levels"] = first["levels"]
        eg.align(s, first)
        first = first or s
        f = dict(op="fit", spec=s, combined=combined, t=draw(st.integers(0, 99)), c=draw(st.integers(0, 98)),
                 form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])), default=draw(st.booleans()))
        steps.append(f)
        for _ in range(draw(st.integers(1, 3))):
            steps.append(dict(op=draw(st.sampled_from(["estimate", "estimate", "nji"])),
                              data=draw(st.sampled_from(["train", "new", "one", "full", "alike"])), n=draw(eg.rows()),
                              seed=draw(st.integers(0, 10**6)), quantity=draw(st.sampled_from([None, "CATE", "ATE"])),
                              target=draw(st.sampled_from([None, 0, 1, 2])), rho=draw(st.sampled_from([None, 0.0, 1.0, 0.25]))))
    model = draw(st.sampled_from(sorted(CLS if classes else REG)))
    for f in steps:
        if f["op"] == "fit" and model == "knn":
            f["spec"]["wdtype"] = None
    return dict(kind=kind, model=model, steps=steps, proba=draw(st.sampled_from([True, True, False])) if classes else False)


def run(case, ctx, classes):
    kind = case["kind"]
    make = (CLS if classes else REG)[case["model"]]
    proba = case["proba"]
    numeric = all(not isinstance(c, str) for s in case["steps"] if s["op"] == "fit" for c in s["spec"]["classes"] or [])
    if classes and not proba and not (numeric and kind != "X"):
        ctx.reject("differences of labels need numbers")
    final = make
    kw = {}
    if classes:
        kw = dict(is_discrete_outcome=True, proba_output=proba)
        if kind == "X":
            final = eg.OLS
            kw["final_proba_model"] = eg.OLS()
    base = make()
    L = LEARNER[kind](model=base, categories=eg.categories(case["steps"][0]["spec"]), **kw)
    n_est, other = 0, False
    for step in case["steps"]:
        if step["op"] == "fit":
            s = step["spec"]
            df = eg.frame(s, per_group=4)
            x, y, w, v = eg.names(s)
            groups = [g for g in eg.combos(s) if eg.mask(df, x, g).any()]
            fkw = {}
            if step["combined"]:
                t = groups[step["t"] % len(groups)]
                rest = [g for g in groups if g != t]
                c = rest[step["c"] % len(rest)]
                if step["default"] and len(x) == 1 and len(groups) == 2:
                    t, c = groups[1], groups[0]
                else:
                    fkw = dict(treat=eg.wrap_label(t, step["form"]), control=eg.wrap_label(c, step["form"]))
                pairs = [(t, c)]
            else:
                pairs = [(g, groups[0]) for g in groups[1:]]
            before = df.copy()
            L.fit(df, eg.arg(y, s["str_names"]), eg.arg(x, s["str_names"]), adjustment=eg.arg(w, s["str_names"]),
                  covariate=eg.arg(v, s["str_names"]), combined_treatment=step["combined"], **fkw)
            expect(df.equals(before), "fit changed the data")
            expect(not hasattr(base, "n_features_in_"), "fit fitted the model object of the caller")
            ref = Ref(kind, make, final, df, s, pairs, proba)
            k, m = ref.k, len(pairs)
            continue
        data = {"train": None, "full": df, "alike": eg.alike(df, step["seed"]), "one": eg.new_rows(s, 1, step["seed"]), "new": eg.new_rows(s, step["n"], step["seed"])}[step["data"]]
        on = df if data is None else data
        n = len(on)
        n_est += 1
        other |= step["data"] in ("one", "new", "alike")
        atol = 1e-5 if case["model"] == "logit" else 1e-7
        label = "%sLearner, %s data" % (kind, step["data"])
        if step["op"] == "nji":
            got = L.effect_nji(data)
            want = np.concatenate([np.zeros((n, k, 1)), ref.effects(on)], axis=2)
            expect_close(got, want, label + ": effect_nji", rtol=1e-5, atol=atol)
            continue
        want = ref.effects(on)
        ekw = {}
        if proba and step["target"] is not None:
            i = step["target"] % k
            cl = sorted(s["classes"])
            ekw["target_outcome"] = cl[i]
            want = want[:, i:i + 1, :]
        got = np.asarray(L.estimate(data, **ekw), dtype=float)
        expect(got.shape[:1] == (n,) and got.size == want.size, "%s: effects of shape %s, wanted %s up to axes of length 1", label, got.shape, want.shape)
        expect_close(got.reshape(want.shape), want, label + ": effects", rtol=1e-5, atol=atol)
        if step["quantity"]:
            q = np.asarray(L.estimate(data, quantity=step["quantity"], **ekw), dtype=float)
            expect(q.size == want[0].size, "%s: %s of shape %s", label, step["quantity"], q.shape)
            expect_close(q.ravel(), want.mean(axis=0).ravel(), label + ": " + step["quantity"], rtol=1e-5, atol=atol)
        if kind == "X" and step["rho"] is not None:
            sides = [ref.effects(on, sides=1), ref.effects(on, sides=2)]
            if ekw:
                sides = [e[:, i:i + 1, :] for e in sides]
            g = {r: np.asarray(L.estimate(data, rho=r, **ekw), float).reshape(want.shape) for r in (0.0, 1.0, step["rho"])}
            ok = any(np.allclose(g[0.0], a, atol=atol, rtol=1e-5) and np.allclose(g[1.0], b, atol=atol, rtol=1e-5) for a, b in (sides, sides[::-1]))
            expect(ok, "%s: the extreme weights do not give the two imputed effects", label)
            r = step["rho"]
            expect_close(g[r], (1 - r) * g[0.0] + r * g[1.0], label + ": weight %s" % r, rtol=1e-5, atol=10 * atol)
    ctx.nontrivial(n_est >= 2 or other)
    ctx.event("%s %s" % (kind, case["model"]))


@check.sub("regression", history(), quick=600, thorough=12000, shards=6)
def regression(case, ctx):
    run(case, ctx, False)


@check.sub("classification", history(classes=True), quick=300, thorough=6000, shards=4)
def classification(case, ctx):
    run(case, ctx, True)
