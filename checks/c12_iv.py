"""C12: nonparametric two stage least squares against a plain two stage reference, and recovery of known effects."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.linear_model import Ridge

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model import NP2SLS

check = Check("C12", "several treatments or instruments, degrees above 1, discrete instruments, or a refit",
              ["polynomial bases (the only ones supported); designs without nearly dependent columns; data to estimate on contain the treatment"])


def poly(X, degree):
    cols, d = [np.ones(len(X))], X.shape[1]
    idx = [()]
    for _ in range(degree):
        idx = [i + (j,) for i in idx for j in range(i[-1] if i else 0, d)]
        cols += [X[:, i].prod(axis=1) for i in idx]
    return np.stack(cols, axis=1)


def kron(a, b):
    return a if b is None else (a[:, :, None] * b[:, None, :]).reshape(len(a), -1)


def hcat(*parts):
    return np.concatenate([p for p in parts if p is not None], axis=1)


def degenerate(A):
    """nearly dependent columns, whose coefficients depend on rounding"""
    A = A - A.mean(axis=0)
    A = A[:, np.abs(A).max(axis=0) > 1e-10]
    s = np.linalg.svd(A, compute_uv=False)
    r = s / max(s.max(), 1e-300)
    return ((r > 1e-13) & (r < 1e-5)).any()


class Ref:
    def __init__(self, deg, xm, ym):
        self.deg, self.xm, self.ym = deg, xm(), ym()

    def fit(self, y, x, z, w, v):
        one = np.ones((len(y), 1))
        V = None if v is None else poly(v, self.deg[2])
        A = hcat(kron(poly(z, self.deg[1]), V), w, one)
        X = poly(x, self.deg[0])
        self.bad = degenerate(A)
        xh = self.xm.fit(A, X).predict(A)
        B = hcat(kron(xh, V), w, one)
        self.bad |= degenerate(B)
        self.ym.fit(B, y)
        return self

    def predict(self, x, w, v):
        V = None if v is None else poly(v, self.deg[2])
        return self.ym.predict(hcat(kron(poly(x, self.deg[0]), V), w, np.ones((len(x), 1)))).reshape(len(x), -1)


@st.composite
def history(draw):
    steps = []
    disc = draw(st.sampled_from([False, False, False, True]))
    for i in range(draw(st.integers(1, 2))):
        steps.append(dict(op="fit", nx=draw(st.integers(1, 2)), nz=draw(st.integers(1, 2)), nw=draw(st.integers(0, 2)), nv=draw(st.integers(0, 2)),
                          ny=draw(st.integers(1, 2)), n=draw(st.integers(30, 60)), seed=draw(st.integers(0, 10**6)), index=draw(st.sampled_from(eg.INDEXES)),
                          deg=[draw(st.integers(1, 2)), draw(st.integers(1, 2)), draw(st.integers(1, 2))], aslist=draw(st.booleans()),
                          dz=draw(st.sampled_from([False, False, True])), str_names=draw(st.booleans()),
                          labels=[draw(st.sampled_from([[0, 1], [1, 2], ["n", "y"], ["c", "a", "b"], [3, 0, 7], [False, True]])) for _ in range(2)],
                          dtype=draw(st.sampled_from([None, None, "category"]))))
        for _ in range(draw(st.integers(1, 4))):
            steps.append(dict(op=draw(st.sampled_from(["effect", "effect", "CF", "nji"])), data=draw(st.sampled_from(["train", "full", "new", "one", "alike"])),
                              seed=draw(st.integers(0, 10**6)), n=draw(st.integers(1, 6)), q=draw(st.sampled_from([None, "ATE", "CATE"])),
                              form=draw(st.sampled_from(["default", "value", "rows"])), t=[draw(st.integers(-6, 6)) / 2 for _ in range(2)],
                              c=[draw(st.integers(-6, 6)) / 2 for _ in range(2)]))
    return dict(disc=disc, steps=steps, model=draw(st.sampled_from(["ols", "ols", "ridge"])))


@check.sub("two_stages", history(), quick=220, thorough=6000, shards=8)
def two_stages(case, ctx):
    M = {"ols": eg.OLS, "ridge": lambda: Ridge(alpha=0.5)}[case["model"]]
    disc = case["disc"]
    L = NP2SLS(x_model=M(), y_model=M(), is_discrete_treatment=disc)
    tol = dict(rtol=1e-4, atol=1e-5)
    deep, fits = False, 0
    for s in case["steps"]:
        if s["op"] == "fit":
            fits += 1
            f = s

            def make(n, seed):
                rng = np.random.RandomState(seed)
                d = {}
                u = rng.randn(n)
                for j in range(f["nz"]):
                    d["z%d" % j] = rng.randn(n) if not f["dz"] else np.array(["p", "q", "r"])[rng.randint(0, 3 - j, n)]
                for j in range(f["nw"]):
                    d["w%d" % j] = rng.randn(n)
                for j in range(f["nv"]):
                    d["v%d" % j] = rng.randn(n)
                zz = sum((d["z%d" % j] if not f["dz"] else (d["z%d" % j] == "p") * 2.0) for j in range(f["nz"]))
                for j in range(f["nx"]):
                    x = zz * (1 + j) + u + rng.randn(n) * 0.7
                    if disc:
                        k = len(f["labels"][j])
                        x = np.array(f["labels"][j], dtype=object)[np.clip(np.floor(x * 0.8 + k / 2), 0, k - 1).astype(int)]
                        x = np.array(list(x))
                    d["x%d" % j] = x
                xs = [np.unique(d["x%d" % j], return_inverse=True)[1] if disc else d["x%d" % j] for j in range(f["nx"])]
                for j in range(f["ny"]):
                    d["y%d" % j] = (j + 1) * sum(xs) + u + rng.randn(n) * 0.3 + sum(d["v%d" % i] for i in range(f["nv"]))
                df = pd.DataFrame(d)
                if disc and f["dtype"]:
                    for j in range(f["nx"]):
                        df["x%d" % j] = df["x%d" % j].astype(f["dtype"])
                df = df[list(rng.permutation(df.columns))]
                df.index = eg.index_of(f["index"], n, rng)
                return df
            df = make(f["n"], f["seed"])
            cols = {k: ["%s%d" % (k, j) for j in range(f["n" + k])] for k in "xyzwv"}
            cats = {c: sorted(set(df[c])) for c in cols["x"]}
            if disc and any(len(q) < 2 for q in cats.values()):
                ctx.reject("a constant treatment")

            def X(d):
                if not disc:
                    return d[cols["x"]].to_numpy(float)
                return np.stack([[cats[c].index(e) for e in d[c]] for c in cols["x"]], axis=1).astype(float)

            def opt(d, k):
                return d[cols[k]].to_numpy(float) if cols[k] else None
            if f["dz"]:
                Z = np.stack([(df[c] == q).to_numpy(float) for c in cols["z"] for q in sorted(set(df[c]))], axis=1)
            else:
                Z = df[cols["z"]].to_numpy(float)
            ref = Ref(f["deg"], M, M).fit(df[cols["y"]].to_numpy(float), X(df), Z, opt(df, "w"), opt(df, "v"))
            if ref.bad:
                ctx.reject("nearly dependent columns")
            basis = [["Poly", i] if f["aslist"] else ("Poly", i) for i in f["deg"]]
            before = df.copy()
            L.fit(df, eg.arg(cols["y"], f["str_names"]), eg.arg(cols["x"], f["str_names"]), eg.arg(cols["z"], f["str_names"]),
                  is_discrete_instrument=f["dz"], treatment_basis=basis[0], instrument_basis=basis[1], covar_basis=basis[2],
                  adjustment=eg.arg(cols["w"], f["str_names"]), covariate=eg.arg(cols["v"], f["str_names"]))
            expect(df.equals(before), "fit changed the data")
            deep |= max(f["deg"]) > 1 or f["nx"] > 1 or f["nz"] > 1 or f["dz"] or fits > 1
            continue
        data = {"train": None, "full": df, "alike": eg.alike(df, s["seed"])}.get(s["data"])
        if s["data"] in ("new", "one"):
            data = make(1 if s["data"] == "one" else s["n"], s["seed"])
            if disc and any(set(data[c]) - set(cats[c]) for c in cols["x"]):
                data = df.iloc[:3]
        on = df if data is None else data
        n, nx = len(on), f["nx"]
        W, V = opt(on, "w"), opt(on, "v")
        tag = "%s on %s data" % (s["op"], s["data"])
        if s["op"] == "CF":
            got = np.asarray(L.estimate(data, quantity="CF")).reshape(n, -1)
            expect_close(got, ref.predict(X(on), W, V), tag, **tol)
            continue
        if s["op"] == "nji":
            got = L.effect_nji(data)
            if disc:
                grid = [[]]
                for c in cols["x"]:
                    grid = [g + [i] for g in grid for i in range(len(cats[c]))]
            else:
                grid = [[0] * nx, [1] * nx]
            P = np.stack([ref.predict(np.tile(np.array(g, float), (n, 1)), W, V) for g in grid], axis=2)
            expect_close(got, P - P[:, :, :1], tag, **tol)
            continue
        kw = {}
        tx, cx = np.ones((n, nx)), np.zeros((n, nx))
        if disc:
            rng = np.random.RandomState(s["seed"])
            ids = np.stack([rng.randint(0, len(cats[c]), 2) for c in cols["x"]], axis=1)
            tx, cx = np.tile(ids[0], (n, 1)).astype(float), np.tile(ids[1], (n, 1)).astype(float)
            kw = dict(zip(("treat", "control"), ([cats[c][i] for c, i in zip(cols["x"], r)] for r in ids)))
            if nx == 1 and s["form"] == "value":
                kw = {k: v[0] for k, v in kw.items()}
            elif s["form"] == "rows":
                # a value for every row
                ids = [np.stack([rng.randint(0, len(cats[c]), n) for c in cols["x"]], axis=1) for _ in range(2)]
                tx, cx = ids[0].astype(float), ids[1].astype(float)
                rows = [[[cats[c][i] for c, i in zip(cols["x"], r)] for r in k] for k in ids]
                mixed = len({isinstance(i, str) for i in rows[0][0]}) > 1
                kw = dict(zip(("treat", "control"), (np.array(r, dtype=object if mixed else None) for r in rows)))
        elif s["form"] == "value":
            tx, cx = np.tile(s["t"][:nx], (n, 1)), np.tile(s["c"][:nx], (n, 1))
            kw = dict(treat=s["t"][0] if nx == 1 else s["t"], control=s["c"][0] if nx == 1 else np.array(s["c"]))
        elif s["form"] == "rows":
            rng = np.random.RandomState(s["seed"])
            tx, cx = rng.randn(n, nx), rng.randn(n, nx)
            kw = dict(treat=tx, control=cx)
        want = ref.predict(tx, W, V) - ref.predict(cx, W, V)
        q = s["q"] if s["q"] != "CATE" or cols["v"] else None
        got = np.asarray(L.estimate(data, quantity=q, **kw))
        if q is not None:
            expect_close(got.reshape(-1), want.mean(axis=0), tag + " " + q, **tol)
        else:
            expect(len(got) == n, "%s: %d effects for %d rows", tag, len(got), n)
            expect_close(got.reshape(n, -1), want, tag, **tol)
    ctx.nontrivial(deep)
    ctx.event("discrete" if disc else "continuous")


@st.composite
def linear_iv(draw):
    return dict(b=draw(st.integers(-5, 5)), g=draw(st.integers(-3, 3)), conf=draw(st.integers(-5, 5)), n=draw(st.integers(12, 60)),
                seed=draw(st.integers(0, 10**6)), nw=draw(st.integers(0, 2)), basis=draw(st.sampled_from([1, 1, 2])))


@check.sub("exogeneity", linear_iv(), quick=160, thorough=5000, shards=4)
def exogeneity(case, ctx):
    """When the hidden confounder is exactly uncorrelated with the instrument in the sample, the effect is recovered exactly,
    however strongly the confounder biases the regression of the outcome on the treatment."""
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    z = rng.randn(n)
    W = rng.randn(n, case["nw"])
    Zb = poly(z[:, None], case["basis"])
    A = np.concatenate([Zb, W], axis=1)
    u = rng.randn(n)
    u = u - A @ np.linalg.lstsq(A, u, rcond=None)[0]
    x = 1.5 * z + u + W.sum(axis=1)
    y = case["b"] * x + case["conf"] * u + case["g"] * W.sum(axis=1) + 2
    df = pd.DataFrame(dict(z=z, x=x, y=y))
    w = ["w%d" % i for i in range(case["nw"])]
    for i, c in enumerate(w):
        df[c] = W[:, i]
    L = NP2SLS(x_model=eg.OLS(), y_model=eg.OLS()).fit(df, "y", "x", "z", treatment_basis=("Poly", 1), instrument_basis=("Poly", case["basis"]), covar_basis=("Poly", 1), adjustment=w or None)
    expect_close(np.ravel(L.estimate(quantity="ATE", treat=3, control=1)), [2.0 * case["b"]], "average effect", rtol=1e-6, atol=1e-6)
    expect_close(np.ravel(L.estimate()), np.full(n, float(case["b"])), "unit effect", rtol=1e-6, atol=1e-6)
    ctx.nontrivial(case["conf"] != 0 and case["b"] != 0)
