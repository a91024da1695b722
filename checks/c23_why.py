"""C23: Why answers what its estimators answer on the encoded table, in the terms of the user's own labels."""
from itertools import product

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import LogisticRegression

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn import Why
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
from ylearn.estimator_model import DoubleML, SLearner, TLearner, XLearner
from ylearn.estimator_model import PermutedSLearner, PermutedTLearner, PermutedXLearner
from ylearn.uplift import UpliftModel

check = Check("C23", "labels which are not 0, 1, 2... or covariates which need encoding or imputing, and effects which differ between rows",
              ["the estimators themselves are those of C09 to C12; the table they get is encoded by the check's own code",
               "labels which were not in the training data are outside the domain"])

INT2, INT3 = [[0, 1], [1, 2], [3, 7], [-1, 4], [False, True]], [[0, 1, 2], [5, 2, 9], [-1, 0, 3]]
STR2, STR3 = [["no", "yes"], ["b", "a"], ["10", "9"]], [["lo", "mid", "hi"], ["c", "a", "b"]]
CATS = ["u", "v", "W", ""]


@st.composite
def tables(draw, cont=False):
    k = draw(st.sampled_from([1, 2, 3] if cont else [1, 1, 2, 2, 3]))
    kinds = draw(st.lists(st.sampled_from(["num", "num", "cat", "bool", "int", "kat", "nat"]), min_size=1, max_size=4))
    return dict(cont=cont, k=k, levels=[draw(st.sampled_from(INT2 + STR2 + ([] if k == 3 or (k == 2 and i) else INT3 + STR3))) for i in range(k)], kinds=["num"] + kinds,
                w=draw(st.lists(st.booleans(), min_size=5, max_size=5)), holes=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), n=draw(st.integers(60, 80)), m=draw(st.integers(4, 12)),
                index=draw(st.sampled_from(eg.INDEXES)), extra=draw(st.booleans()), order=draw(st.integers(0, 99)), roles=draw(st.sampled_from(["given", "given", "given", "default"])),
                classes=draw(st.sampled_from([None, None, ["n", "y"], [1, 2], [0, 1], ["c", "a", "b"], [7, 2, 4]])), infer=draw(st.booleans()), style=draw(st.sampled_from(["list", "comma"])), catx=draw(st.integers(0, 3)) == 0)


def build(s):
    """training and test frames, roles"""
    rng = np.random.RandomState(s["seed"])
    N = s["n"] + s["m"]
    x = [f"x{i}" for i in range(s["k"])]
    cols = {}
    cov = [f"v{i}" for i in range(len(s["kinds"]))]
    lin = np.zeros(N)
    for c, kind in zip(cov, s["kinds"]):
        if kind in ("cat", "kat"):
            q = rng.randint(0, len(CATS), N)
            cols[c] = np.array(CATS, object)[q]
            lin += 0.4 * q
        elif kind == "bool":
            q = rng.rand(N) < 0.5
            cols[c] = q
            lin += 0.5 * q
        elif kind == "nat":
            cols[c] = np.array([3, 10, -2])[rng.randint(0, 3, N)]
            lin += 0.2 * cols[c]
        elif kind == "int":
            cols[c] = rng.randint(-5, 30, N)
            lin += 0.05 * cols[c]
        else:
            cols[c] = rng.randn(N)
            lin += 0.8 * cols[c]
        if s["holes"] and kind in ("cat", "num", "kat"):
            o = cols[c].astype(object)
            o[rng.choice(N, 4, replace=False)] = np.nan
            cols[c] = o if kind != "num" else o.astype(float)
    base = lin * 0.7
    if s["cont"]:
        for c in x:
            cols[c] = 0.5 * lin + rng.randn(N)
            base = base + cols[c] * (1 + 0.4 * lin)
    else:
        groups = list(product(*[range(len(l)) for l in s["levels"]]))
        g = [groups[i % len(groups)] for i in range(N)]
        perm = rng.permutation(s["n"])
        g = [g[i] for i in perm] + [groups[i] for i in rng.randint(0, len(groups), s["m"])]
        for j, c in enumerate(x):
            code = np.array([q[j] for q in g])
            cols[c] = np.array(sorted(s["levels"][j]), dtype=object if isinstance(s["levels"][j][0], str) else type(s["levels"][j][0]))[code]
            base = base + code * (1.2 + 0.9 * lin * (j + 1))
    base = base + 0.3 * rng.randn(N)
    if s["classes"]:
        cl = sorted(s["classes"])
        b = base + 1.5 * rng.randn(N)
        code = np.digitize(b, np.quantile(b, np.arange(1, len(cl)) / len(cl)))
        seen = {}
        for i, q in enumerate([] if s["cont"] else g[:s["n"]]):  # every class in every group
            if seen.setdefault(q, 0) < len(cl):
                code[i] = seen[q]
                seen[q] += 1
        cols["out"] = np.array(cl, dtype=object if isinstance(cl[0], str) else int)[code]
    else:
        cols["out"] = base
    if s["extra"] and s["roles"] == "given":
        cols["unused"] = np.array(["t"] * N, object)
    df = pd.DataFrame(cols)
    for c, kind in zip(cov, s["kinds"]):
        if kind in ("kat", "nat"):
            df[c] = df[c].astype("category")
    if s.get("catx"):
        for c in ([] if s["cont"] else x) + (["out"] if s["classes"] else []):
            # sklearn's LabelEncoder makes floats of categories that are bools
            df[c] = df[c] if df[c].dtype == bool else df[c].astype("category")
    names = list(df.columns)
    df = df[[names[i] for i in np.random.RandomState(s["order"]).permutation(len(names))]]
    df.index = eg.index_of(s["index"], N, rng)
    train, test = df.iloc[:s["n"]], df.iloc[s["n"]:]
    if s["roles"] == "given":
        w = [c for c, f in zip(cov[1:], s["w"]) if f]
        v = [c for c in cov if c not in w]
    else:
        w, v = None, [c for c in df.columns if c not in x + ["out"]]
    return train, test, x, w or None, v


def encoder(train, s, x, columns):
    maps = {}
    for c in columns:
        col = train[c]
        if col.dtype == object or col.dtype == bool or isinstance(col.dtype, pd.CategoricalDtype):
            lv = sorted({"" if v != v else v for v in col.tolist()})
            maps[c] = lambda q, lv=lv: np.array([lv.index(z) if z in lv else len(lv) for z in ["" if v != v else v for v in q.tolist()]], float)
        else:
            mean = float(np.nanmean(col.to_numpy(float)))
            maps[c] = lambda q, mean=mean: np.where(np.isnan(q.to_numpy(float)), mean, q.to_numpy(float))

    def apply(df):
        out = df.copy()
        for c in columns:
            out[c] = maps[c](df[c])
        if not s["cont"]:
            for c, lv in zip(x, s["levels"]):
                if c in df:
                    out[c] = [sorted(lv).index(z) for z in df[c].tolist()]
        if s["classes"] and "out" in df:
            out["out"] = [sorted(s["classes"]).index(z) for z in df["out"].tolist()]
        return out
    return apply


def name_arg(cols, style):
    if cols is None:
        return None
    return list(cols) if style == "list" else tuple(cols) if style == "tuple" else ",".join(cols)


def estimator(kind, s):
    base = LogisticRegression(C=0.7, max_iter=400) if s["classes"] else eg.OLS()
    opts = dict(is_discrete_outcome=True, proba_output=True) if s["classes"] else {}
    if kind == "dml":
        return DoubleML(eg.OLS() if s["cont"] else LogisticRegression(C=0.7), base, is_discrete_treatment=not s["cont"], **opts)
    return {"t": TLearner, "s": SLearner, "x": XLearner, "pt": PermutedTLearner, "ps": PermutedSLearner, "px": PermutedXLearner}[kind](base, **opts)


class Case:
    """a fitted Why and reference estimators on the table encoded here"""

    def __init__(self, s, kind, cost=None, treatments=None):
        train, self.test, x, w, v = build(s)
        self.s, self.x, self.w, self.v, self.train = s, x, w, v, train
        self.enc = encoder(train, s, x, (w or []) + v)
        est = estimator(kind, s)
        opts = {} if s["infer"] else dict(discrete_outcome=s["classes"] is not None, discrete_treatment=not s["cont"])
        self.why = Why(estimator=est, fn_cost=cost, effect_name="gain", random_state=3, **opts)
        before = train.copy()
        kw = dict(adjustment=name_arg(w, s["style"]), covariate=name_arg(v, s["style"])) if s["roles"] == "given" else {}
        expect(self.why.fit(train, "out", treatment=name_arg(x, s["style"]), **kw) is self.why, "fit does not return the object")
        expect(train.equals(before), "fit changes the table")
        W = self.why
        expect(list(W.treatment_) == x and list(W.covariate_) == v and list(W.adjustment_ or []) == (w or []) and not W.instrument_ and W.outcome_ == "out", "the roles are %r, %r, %r, %r", W.treatment_, W.covariate_, W.adjustment_, W.instrument_)
        expect(list(W.feature_names_in_) == list(train.columns), "the columns seen are %r", W.feature_names_in_)
        self.ref, self.kind, self.data = {}, kind[-1], self.enc(train)

    def codes(self, key, labels):
        keys = key if isinstance(key, tuple) else (key,)
        return tuple(sorted(self.s["levels"][self.x.index(c)]).index(l) for c, l in zip(keys, labels))

    def effect(self, key, data, t, c, target=None):
        """t, c: tuples of labels"""
        kw = {}
        if self.s["classes"]:
            cl = sorted(self.s["classes"])
            kw["target_outcome"] = cl.index(cl[-1] if target is None else target)
        tc, cc = self.codes(key, t), self.codes(key, c)
        if (key, tc, cc) not in self.ref:
            # a plain learner fitted for this pair
            self.ref[key, tc, cc] = estimator(self.kind, self.s).fit(self.data, "out", list(key) if isinstance(key, tuple) else key, adjustment=self.w, covariate=self.v, treat=tc if isinstance(key, tuple) else tc[0],
                                                                     control=cc if isinstance(key, tuple) else cc[0])
        return np.asarray(self.ref[key, tc, cc].estimate(data=None if data is None else self.enc(data), **kw), float).ravel()


def interesting(s):
    plain = all(l == list(range(len(l))) for l in s["levels"]) and not s["classes"]
    return not plain or s["holes"] or bool({"cat", "bool", "kat", "nat"} & set(s["kinds"]))


def pay(row):
    return row["gain"] * 2 - 0.25 * (1 if row["v0"] != row["v0"] else float(row["v0"]))


def costed(case, test, e):
    return np.array([2 * q - 0.25 * (1 if z != z else z) for q, z in zip(e, test["v0"].tolist())]) if case else e


@st.composite
def discrete(draw):
    s = draw(tables())
    kinds = ["t", "s", "x", "pt", "ps", "px"] if not s["classes"] else ["t", "s", "pt", "ps"]
    return dict(table=s, kind=draw(st.sampled_from(kinds)), cost=draw(st.integers(0, 3)) == 0, use=draw(st.sampled_from(["all", "first", "last", "str", "back"])), data=draw(st.sampled_from(["test", "test", "bare", "train", "blank"])),
                t=draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)), c=draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)), give_t=draw(st.booleans()), give_c=draw(st.booleans()),
                combine=draw(st.booleans()), detail=draw(st.booleans()), target=draw(st.integers(0, 5)), give_target=draw(st.booleans()), policy=draw(st.booleans()), depth=draw(st.sampled_from([1, 2, 3])))


def ask(case, C, pair=False):
    """the treatments asked for, treat and control labels, target; pair: at most two together"""
    s = case["table"]
    use = C.x if case["use"] == "all" else [C.x[0]] if case["use"] == "first" else C.x[::-1] if case["use"] == "back" else [C.x[-1]]
    if pair:
        use = use[:2]
    lv = [sorted(s["levels"][C.x.index(c)]) for c in use]
    c = [l[i % len(l)] for l, i in zip(lv, case["c"])]
    ctl = c if case["give_c"] else [l[0] for l in lv]
    t = [[q for q in l if q != k][i % (len(l) - 1)] for l, k, i in zip(lv, ctl, case["t"])]
    target = sorted(s["classes"])[case["target"] % len(s["classes"])] if s["classes"] and case["give_target"] else None
    return use, lv, t, ctl, target


def scalar(v, n):
    return v[0] if n == 1 else list(v)


@check.sub("discrete", discrete(), quick=120, thorough=6000, shards=8)
def discrete_effects(case, ctx):
    s = case["table"]
    cost = pay if case["cost"] and case["data"] != "train" and s["kinds"][0] == "num" else None
    C = Case(s, case["kind"], cost)
    W = C.why
    ctx.nontrivial(interesting(s))
    use, lv, t, ctl, target = ask(case, C, case["combine"])
    kw = {}
    if case["use"] != "all" or len(use) < len(C.x):
        kw["treatment"] = use[0] if case["use"] == "str" else list(use)
    if case["give_c"]:
        kw["control"] = scalar(ctl, len(use))
    if case["give_t"]:
        kw["treat"] = scalar(t, len(use))
    if target is not None:
        kw["target_outcome"] = target
    data = None if case["data"] == "train" else C.test.drop(columns=C.x + ["out"]) if case["data"] == "bare" else C.test
    if case["data"] == "blank" and not s["classes"]:
        data = C.test.assign(out=np.nan)  # not known yet
    keep = None if data is None else data.copy()
    combined = case["combine"]
    want = []
    if combined:
        key = use[0] if len(use) == 1 else tuple(use)
        for combo in ([tuple(t)] if case["give_t"] else product(*lv)):
            if tuple(combo) != tuple(ctl):
                label = (use[0], f"{combo[0]} vs {ctl[0]}") if len(use) == 1 else (f"{list(use)}", f"{[q for q in combo]} vs {[q for q in ctl]}")
                want.append((label, key, tuple(combo), tuple(ctl)))
    else:
        for i, c in enumerate(use):
            for a in ([t[i]] if case["give_t"] else lv[i]):
                if a != ctl[i]:
                    want.append(((c, f"{a} vs {ctl[i]}"), c, (a,), (ctl[i],)))
    E = [costed(cost, data, C.effect(key, data, a, b, target)) for _, key, a, b in want]
    r = W.causal_effect(data, combine_treatment=combined, return_detail=case["detail"], **kw)
    ite = W.causal_effect(data, combine_treatment=combined, quantity="ITE", **kw)
    expect(data is None or data.equals(keep), "causal_effect changes the test rows")
    same = len(use) == 1 or len({type(l[0]) for l in lv}) == 1 or not combined
    labels = [w[0] for w in want]
    if same:
        expect([tuple(map(str, q)) for q in r.index] == labels, "the effects are named %r instead of %r", list(r.index), labels)
        expect([tuple(map(str, q)) for q in ite.columns] == labels, "the individual effects are named %r instead of %r", list(ite.columns), labels)
    expect(len(r) == len(want) and ite.shape[1] == len(want), "%d effects instead of %d", len(r), len(want))
    for i, e in enumerate(E):
        row = r.iloc[i]
        what = f"effect {labels[i]}"
        for name, v in (("mean", e.mean()), ("min", e.min()), ("max", e.max()), ("std", e.std())):
            expect_close(float(row[name]), v, f"{what} {name}", rtol=1e-6, atol=1e-7)
        if case["detail"]:
            expect_close(np.asarray(row["detail"], float), e, f"{what} detail", rtol=1e-6, atol=1e-7)
        expect_close(ite.iloc[:, i].to_numpy(float), e, f"{what} for each row", rtol=1e-6, atol=1e-7)


@check.sub("rows", discrete(), quick=80, thorough=4000, shards=8)
def rows(case, ctx):
    s = case["table"]
    C = Case(s, case["kind"])
    W = C.why
    ctx.nontrivial(interesting(s))
    case = dict(case, use="all")
    use, lv, t, ctl, target = ask(case, C)
    kw = {}
    if case["give_c"]:
        kw["control"] = scalar(ctl, len(use))
    if target is not None:
        kw["target_outcome"] = target
    T = C.test
    keep = T.copy()
    r = W.individual_causal_effect(T, **kw)
    expect(T.equals(keep), "individual_causal_effect changes the test rows")
    got = {}
    for i, v in zip(r.index, np.asarray(r, float).ravel()):
        got.setdefault(tuple(i), []).append(float(v))  # rows of equal labels in the order of the table
    expect(len(r) == len(T) * len(use), "%d effects for %d rows and %d treatments", len(r), len(T), len(use))
    for j, c in enumerate(use):
        full = {a: C.effect(c, T, (a,), (ctl[j],), target) if a != ctl[j] else np.zeros(len(T)) for a in lv[j]}
        for i, (ri, a) in enumerate(zip(T.index, T[c].tolist())):
            k = (ri, c, f"{a} vs {ctl[j]}")
            expect(got.get(k), "no effect %r among %r", k, list(got)[:6])
            expect_close(got[k].pop(0), full[a][i], f"individual effect {k}", rtol=1e-6, atol=1e-7)


@check.sub("whatif", discrete(), quick=72, thorough=4000, shards=8)
def whatif(case, ctx):
    s = dict(case["table"], classes=None)
    cost = pay if case["cost"] else None
    C = Case(s, case["kind"], cost)
    ctx.nontrivial(interesting(s))
    T = C.test
    keep = T.copy()
    c = C.x[-1] if case["use"] == "last" else C.x[0]
    lv = sorted(s["levels"][C.x.index(c)])
    rng = np.random.RandomState(s["seed"] + 5)
    new = [lv[i] for i in rng.randint(0, len(lv), len(T))]
    arr = np.array(new, dtype=object if isinstance(lv[0], str) else int)
    y = C.why.whatif(T, pd.Series(arr, index=T.index) if case["give_t"] else arr, treatment=c if case["use"] != "all" else None)
    expect(T.equals(keep), "whatif changes the test rows")
    eff = np.zeros(len(T))
    for i, (a, b) in enumerate(zip(new, T[c].tolist())):
        if a != b:
            eff[i] = C.effect(c, T, (a,), (b,))[i]
    eff = costed(cost, T, eff)
    expect(y.index.equals(T.index), "the answers have the row labels %r", list(y.index))
    expect_close(y, T["out"].to_numpy(float) + eff, "counterfactual outcomes", rtol=1e-6, atol=1e-7)


@check.sub("policy", discrete(), quick=64, thorough=3000, shards=8)
def policy(case, ctx):
    s = case["table"]
    cost = pay if case["cost"] else None
    C = Case(s, case["kind"], cost)
    ctx.nontrivial(interesting(s))
    use, lv, t, ctl, target = ask(case, C, True)
    kw = {} if case["use"] == "all" else dict(treatment=use[0] if case["use"] == "str" else list(use))
    if case["give_c"]:
        kw["control"] = scalar(ctl, len(use))
    if target is not None:
        kw["target_outcome"] = target
    T = C.test if case["data"] != "train" else C.train
    keep = T.copy()
    key = use[0] if len(use) == 1 else tuple(use)
    combos = list(product(*lv))
    E = np.column_stack([C.effect(key, T, q, tuple(ctl), target) if tuple(q) != tuple(ctl) else np.zeros(len(T)) for q in combos])
    if cost:
        E = np.column_stack([costed(cost, T, E[:, i]) for i in range(E.shape[1])])
    P = C.why.policy_interpreter(T, max_depth=case["depth"], random_state=5, **kw)
    expect(T.equals(keep), "policy_interpreter changes the test rows")
    R = PolicyInterpreter(max_depth=case["depth"], random_state=5)
    names = ["_".join(map(str, q)) for q in combos]
    enc = C.enc(T)
    R.fit(enc, covariate=C.v, est_model=None, effect_array=E, treatment_names=names)
    for D in (C.test, C.train):
        got, want = np.asarray(P.predict(D)), np.asarray(R.predict(C.enc(D)))
        expect_close(got, want, "the values of the policy on some rows", rtol=1e-5, atol=1e-6)
        expect(np.array_equal(np.asarray(P.decide(D)), np.asarray(R.decide(C.enc(D)))), "the policy decides %r instead of %r", np.asarray(P.decide(D)).ravel().tolist(), np.asarray(R.decide(C.enc(D))).ravel().tolist())


@check.sub("uplift", discrete(), quick=120, thorough=3000, shards=8)
def uplift(case, ctx):
    s = case["table"]
    C = Case(s, case["kind"])
    ctx.nontrivial(interesting(s))
    case = dict(case, use="first" if s["k"] == 1 else case["use"] if case["use"] not in ("all", "back") else "last", give_t=case["give_t"] or case["give_c"])
    use, lv, t, ctl, target = ask(case, C)
    if not case["give_t"]:
        t = [lv[0][-1]]
    kw = {} if s["k"] == 1 and case["detail"] else dict(treatment=use[0])
    if case["give_c"]:
        kw["control"] = ctl[0]
    if case["give_t"]:
        kw["treat"] = t[0]
    if target is not None:
        kw["target_outcome"] = target
    T = C.train
    np.random.seed(8)  # the random ranking which the Qini score is relative to
    um = C.why.uplift_model(T, **kw)
    rows_ = T[use[0]].isin([t[0], ctl[0]])
    D = T[rows_]
    y = D["out"].tolist()
    if s["classes"]:
        goal = sorted(s["classes"])[-1] if target is None else target
        y = [int(q == goal) for q in y]
    lift = pd.DataFrame({str(t[0]): C.effect(use[0], D, tuple(t), tuple(ctl), target), "x": (D[use[0]] == t[0]).astype(int).to_numpy(), "y": np.asarray(y, float)})
    np.random.seed(8)
    R = UpliftModel().fit(lift, random=None)
    for what, got, want in (("gain", um.get_gain(), R.get_gain()), ("Qini", um.get_qini(), R.get_qini()), ("lift", um.get_cumlift(), R.get_cumlift())):
        expect(list(map(str, got.columns)) == list(map(str, want.columns)), "%s curves %r", what, list(got.columns))
        expect_close(got.to_numpy(float), want.to_numpy(float), f"{what} curve", rtol=1e-6, atol=1e-6)
    expect_close(np.asarray(um.auuc_score(), float), np.asarray(R.auuc_score(), float), "uplift score", rtol=1e-5, atol=1e-6)
    expect_close(np.asarray(um.qini_score(), float), np.asarray(R.qini_score(), float), "Qini score", rtol=1e-5, atol=1e-6)
    if s["k"] == 1:
        kw.pop("treatment", None)
        for name, want in (("auuc", R.auuc_score()), ("qini", R.qini_score())):
            np.random.seed(8)
            expect_close(C.why.score(T, scorer=name, **kw), float(np.mean(want)), f"score {name}", rtol=1e-5, atol=1e-6)


@st.composite
def continuous(draw):
    return dict(table=draw(tables(cont=True)), cost=draw(st.integers(0, 3)) == 0, use=draw(st.sampled_from(["all", "first", "str"])), t=draw(st.sampled_from([None, 1.0, -2.5, "rows"])), c=draw(st.sampled_from([None, 0.5, 2.0, "rows"])),
                detail=draw(st.booleans()), train=draw(st.booleans()), target=draw(st.sampled_from([None, 0, 1, 2])), depth=draw(st.sampled_from([1, 2])))


@check.sub("continuous", continuous(), quick=96, thorough=3000, shards=8)
def continuous_effects(case, ctx):
    s = case["table"]
    cost = pay if case["cost"] and not case["train"] else None
    np.random.seed(3)
    C = Case(s, "dml", cost)
    W = C.why
    ctx.nontrivial(interesting(s))
    T = C.test
    data = None if case["train"] else T
    use = C.x if case["use"] == "all" else [C.x[0]]
    goal, one = {}, {}
    if s["classes"]:
        cl = sorted(s["classes"])
        target = None if case["target"] is None else cl[case["target"] % len(cl)]
        goal = {} if target is None else dict(target_outcome=target)
        one = dict(target_outcome=len(cl) - 1 if target is None else cl.index(target))
    n = s["n"] if data is None else len(T)
    rng = np.random.RandomState(s["seed"] + 9)
    t, c = case["t"], case["c"]
    if len(use) > 1 and (t == "rows" or c == "rows"):
        t, c = 1.5 if t == "rows" else t, -0.5 if c == "rows" else c
    tv = rng.randn(n) if t == "rows" else t
    cv = rng.randn(n) if c == "rows" else c
    kw = {} if case["use"] == "all" else dict(treatment=use[0] if case["use"] == "str" else list(use))
    if t is not None:
        kw["treat"] = tv if len(use) == 1 else [tv] * len(use)
    if c is not None:
        kw["control"] = cv if len(use) == 1 else [cv] * len(use)
    r = W.causal_effect(data, return_detail=case["detail"], **kw, **goal)
    ite = W.causal_effect(data, quantity="ITE", **kw, **goal)
    expect(list(r.index) == use and list(ite.columns) == use, "effects of %r, %r instead of %r", list(r.index), list(ite.columns), use)
    a = 1.0 if t is None else np.asarray(tv)
    b = 0.0 if c is None else np.asarray(cv)
    enc = C.enc(C.train if data is None else T)
    ref = {q: estimator("dml", s).fit(C.data, "out", q, adjustment=C.w, covariate=C.v) for q in C.x}
    for q in use:
        est = ref[q]
        unit = np.asarray(est.estimate(data=enc, treat=1.0, control=0.0, **one), float).ravel()
        e = costed(cost, T, unit * (a - b))
        for name, v in (("mean", e.mean()), ("min", e.min()), ("max", e.max()), ("std", e.std())):
            expect_close(float(r.loc[q, name]), v, f"effect of {q}: {name}", rtol=1e-6, atol=1e-7)
        if case["detail"]:
            expect_close(np.asarray(r.loc[q, "detail"], float), e, f"effect of {q}: detail", rtol=1e-6, atol=1e-7)
        expect_close(ite[q].to_numpy(float), e, f"effect of {q} for each row", rtol=1e-6, atol=1e-7)
    # rows
    unit = {q: np.asarray(ref[q].estimate(data=C.enc(T), treat=1.0, control=0.0, **one), float).ravel() for q in C.x}
    k = {} if c is None or c == "rows" else dict(control=cv if len(C.x) == 1 else [cv] * len(C.x))
    ind = W.individual_causal_effect(T, **k, **goal)
    expect(list(ind.columns) == C.x and ind.index.equals(T.index), "individual effects %r x %r", list(ind.index), list(ind.columns))
    for q in C.x:
        expect_close(ind[q].to_numpy(float), unit[q] * (T[q].to_numpy(float) - (0 if not k else cv)), f"individual effect of {q}", rtol=1e-6, atol=1e-7)
    # the policy: which treatment is best raised by one
    keep = T.copy()
    which = C.x[:2] if case["use"] == "all" else use
    U = np.column_stack([costed(cost, T, unit[q]) for q in which])
    P = W.policy_interpreter(T, max_depth=case["depth"], random_state=5, **({} if case["use"] == "all" else dict(treatment=kw["treatment"])), **goal)
    expect(T.equals(keep), "policy_interpreter changes the test rows")
    R = PolicyInterpreter(max_depth=case["depth"], random_state=5).fit(C.enc(T), covariate=C.v, est_model=None, effect_array=U, treatment_names=which)
    expect_close(np.asarray(P.predict(T)), np.asarray(R.predict(C.enc(T))), "the values of the policy", rtol=1e-5, atol=1e-6)
    expect(np.array_equal(np.asarray(P.decide(C.train)), np.asarray(R.decide(C.enc(C.train)))), "the policy decides %r instead of %r", np.asarray(P.decide(C.train)).ravel().tolist(), np.asarray(R.decide(C.enc(C.train))).ravel().tolist())
    if s["classes"]:
        return
    new = rng.randn(len(T))
    q = use[-1]
    y = W.whatif(T, pd.Series(new, index=T.index) if case["detail"] else new, treatment=None if q == C.x[0] and case["use"] == "all" else q)
    e = costed(cost if case["cost"] else None, T, unit[q] * (new - T[q].to_numpy(float)))
    expect(y.index.equals(T.index), "the answers have the row labels %r", list(y.index))
    expect_close(y, T["out"].to_numpy(float) + e, "counterfactual outcomes", rtol=1e-6, atol=1e-7)


@st.composite
def graphs(draw):
    n = draw(st.integers(4, 8))
    edges = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(1, 60), st.booleans()), min_size=n - 1, max_size=3 * n, unique_by=lambda e: (min(e[:2]), max(e[:2]))))
    return dict(n=n, edges=edges, sign=draw(st.booleans()), order=draw(st.integers(0, 99)), y=draw(st.sampled_from([-1, -1, -1, -2, 1])), kinds=draw(st.lists(st.sampled_from(["num", "num", "cat", "str"]), min_size=n, max_size=n)),
                method=draw(st.sampled_from([None, "dfs", "straight", "simple", "minimal", "all"])), given=draw(st.sampled_from([0, 0, 1, 1, 2])), pick=draw(st.lists(st.integers(0, 9), min_size=2, max_size=2)), limit=draw(st.sampled_from([None, 1, 2, 3])),
                frame=draw(st.booleans()), discrete=draw(st.sampled_from([None, None, True, False])), learner=draw(st.sampled_from([True, True, True, False])), seed=draw(st.integers(0, 10**6)), style=draw(st.sampled_from(["list", "comma"])))


def anc(par, v):
    out, todo = set(), [v]
    while todo:
        for p in par[todo.pop()]:
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


@check.sub("identify", graphs(), quick=300, thorough=10000, shards=4)
def identify(case, ctx):
    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    names = [f"c{i}" for i in range(n)]
    yi = case["y"] % n
    out = names[yi]
    weight = {}
    for i, (a, b, q, neg) in enumerate(case["edges"]):
        a, b = min(a, b), max(a, b)
        if a != b:
            weight[names[a], names[b]] = (q / 10 + i * 0.003) * (-1 if neg and case["sign"] else 1)
    par = {v: [a for a in names if (a, v) in weight] for v in names}
    kinds = {v: k for v, k in zip(names, case["kinds"])}
    kinds[out] = "num"
    cols = {}
    for v in names:
        cols[v] = rng.randn(40) if kinds[v] == "num" else rng.randint(0, 3, 40) if kinds[v] == "cat" else np.array(["p", "q", "r"], object)[rng.randint(0, 3, 40)]
    order = [names[i] for i in np.random.RandomState(case["order"]).permutation(n)]
    df = pd.DataFrame(cols)[order]
    discrete = {v: kinds[v] != "num" for v in names}
    seen = []

    def learner(X):
        seen.append(list(X.columns))
        expect(set(X.columns) == set(names), "the learner gets the columns %r", list(X.columns))
        expect(all(X[c].dtype.kind in "if" for c in X.columns), "the learner gets columns which are not numbers")
        for v in names:
            if kinds[v] != "str":
                expect_close(X[v].to_numpy(float), df[v].to_numpy(float), f"the values of column {v} which the learner gets", rtol=1e-12, atol=1e-12)
        M = pd.DataFrame(0.0, index=list(X.columns), columns=list(X.columns))
        for (a, b), q in weight.items():
            M.loc[a, b] = q
        return M if case["frame"] else M.to_numpy()

    method = case["method"] if case["method"] in (None, "dfs", "straight") else ("backdoor", case["method"])
    use = case["learner"]
    causes = sorted(par[out], key=lambda v: -abs(weight[v, out]))
    others = [v for v in names if v != out]
    given = [others[i % len(others)] for i in case["pick"][:case["given"]]]
    given = list(dict.fromkeys(given))
    limit = case["limit"]
    cap = limit if limit is not None else min(int(np.ceil(n * 0.1)), 5)
    want_kind = case["discrete"]
    if not given and use and causes and want_kind is not None and not [v for v in causes if discrete[v] == want_kind]:
        ctx.reject()  # no treatment of the kind asked for
    if not given and (not use or not causes) and want_kind is not None and not [v for v in others if discrete[v] == want_kind]:
        ctx.reject()
    if given:
        treatment = given
    elif use and causes:
        kind = discrete[causes[0]] if want_kind is None else want_kind
        treatment = [v for v in causes if discrete[v] == kind][:cap]
    else:
        treatment = None
    if isinstance(method, tuple) and use:
        if treatment is None or len(treatment) > 1 or out in anc(par, treatment[0]):
            method = None
    W = Why(discrete_treatment=want_kind, random_state=1, **(dict(identifier=learner, identifier_options={} if method is None else dict(method=method)) if use else {}))
    keep = df.copy()
    got = W.identify(df, out, treatment=None if not given else name_arg(given, case["style"]), treatment_count_limit=limit)
    expect(df.equals(keep), "identify changes the table")
    x, w, v, z = got
    what = f"roles {got!r} in the graph {sorted(weight)!r} with outcome {out}"
    if treatment is None:
        expect(0 < len(x) <= cap and out not in x and len(set(x)) == len(x) and set(x) <= set(names), "wrong treatments in %s (at most %d)", what, cap)
        expect(len({discrete[q] for q in x}) == 1 and (want_kind is None or discrete[x[0]] == want_kind), "treatments of different kinds in %s", what)
    else:
        expect(list(x) == treatment, "the treatments should be %r in the %s", treatment, what)
    expect(w is None, "adjustment in the %s", what)
    expect(W.discrete_treatment == (want_kind if want_kind is not None else discrete[x[0]]), "the treatments are taken as %s in the %s", W.discrete_treatment, what)
    rest = [q for q in df.columns if q != out and q not in x]
    if not use:
        ctx.nontrivial(treatment is None or len(x) > 1)
        expect(list(v) == rest and z is None, "covariates and instruments of the default are wrong: %s", what)
        return
    ctx.nontrivial(any(p not in x + [out] for q in x for p in par[q]) or any(a not in x and a not in par[out] for a in anc(par, out)))
    expect(len(seen) == 1, "the learner was called %d times", len(seen))
    targets = set(x) | {out}
    if method in (None, "dfs", "straight"):
        iv = (set().union(*[anc(par, q) for q in x]) - anc(par, out)) - targets
        cov = anc(par, out) - targets - iv
    else:
        # what has no other way to the outcome than through the treatment
        X = x[0]
        cut = {q: [] if q == X else par[q] for q in names}
        iv = {q for q in par[X] if not ((anc(cut, q) | {q}) & (anc(cut, out) | {out}))}
        ctx.event("model")
        if method[1] == "simple":
            cov = set(par[X]) - targets - iv
        else:
            cov = set(v) if v is not None else set()
            none = {q: [p for p in par[q] if p != X] for q in names}
            if cov != set(rest) - iv:
                import networkx as nx
                g = nx.DiGraph()
                g.add_nodes_from(names)
                g.add_edges_from((p, q) for q in names for p in none[q])
                expect(nx.is_d_separator(g, {X}, {out}, cov) if hasattr(nx, "is_d_separator") else nx.d_separated(g, {X}, {out}, cov), "the covariates leave a back door open: %s", what)
                expect(not any(X in anc(par, q) for q in cov), "covariates which the treatment affects: %s", what)
    if not cov:
        cov = set(rest) - iv
    expect(sorted(z or []) == sorted(iv), "the instruments should be %r in the %s", sorted(iv), what)
    expect(sorted(v) == sorted(cov) and len(set(v)) == len(v), "the covariates should be %r in the %s", sorted(cov), what)
    g = W.causal_graph()
    edges = {(p, q) for q, ps in g.causation.items() for p in ps}
    expect(edges == set(weight), "the causal graph has the edges %r instead of %r", sorted(edges), sorted(weight))


@check.sub("graph", discrete(), quick=24, thorough=400, shards=4)
def shown_graph(case, ctx):
    C = Case(case["table"], "t")
    ctx.nontrivial(bool(C.w))
    g = C.why.causal_graph()
    edges = {(p.split("(")[0], q.split("(")[0]) for q, ps in g.causation.items() for p in ps}
    want = {("Treatments", "Outcome"), ("Covariates", "Outcome"), ("Covariates", "Treatments")} | ({("Adjustments", "Outcome"), ("Adjustments", "Treatments")} if C.w else set())
    expect(edges == want, "the causal graph has the edges %r instead of %r", sorted(edges), sorted(want))
