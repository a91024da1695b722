"""C22: synthetic data sets obey the structural model and the true effects they come with."""
import networkx as nx
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats

from vlib.harness import Check, expect, expect_close
from ylearn.exp_dataset import exp_data as ed
from ylearn.exp_dataset import gen

check = Check("C22", "a graph with at least three edges (structural models) or a data set with confounders (effects)",
              ["the distribution of the noise is only checked through its support, mean and standard deviation (six standard errors)"])


def acyclic(W):
    return nx.is_directed_acyclic_graph(nx.from_numpy_array((np.asarray(W) != 0).astype(int), create_using=nx.DiGraph))


@st.composite
def weights(draw):
    d = draw(st.integers(2, 6)) if draw(st.integers(0, 3)) else draw(st.integers(7, 11))
    perm = draw(st.permutations(range(d)))
    W = np.zeros((d, d))
    for i in range(d):
        for j in range(i):
            if draw(st.booleans()):
                W[perm[j], perm[i]] = draw(st.sampled_from([-1.5, -0.7, 0.4, 1.0, 1.3]))
    return W.tolist()


@st.composite
def linear(draw):
    W = draw(weights())
    d = len(W)
    return dict(W=W, seed=draw(st.integers(0, 10**6)), sem=draw(st.sampled_from(["gauss", "exp", "gumbel", "uniform", "logistic", "poisson"])), n=draw(st.sampled_from([1, 2, 120, 800])),
                scale=draw(st.sampled_from(["none", "scalar", "vector"])), scales=draw(st.lists(st.sampled_from([1e-9, 0.02, 0.3, 1.0, 2.0, 6.0]), min_size=d, max_size=d)), inf=draw(st.integers(0, 9)) == 0)


CDF = {"gauss": stats.norm.cdf, "exp": stats.expon.cdf, "gumbel": stats.gumbel_r.cdf, "uniform": stats.uniform(-1, 2).cdf}


def moment(z, mean, sd, what):
    n = len(z)
    expect(abs(z.mean() - mean) <= 6 * sd / np.sqrt(n) + 1e-9, "%s: the mean of the noise is %r instead of %r", what, z.mean(), mean)


@check.sub("linear", linear(), quick=300, thorough=10000, shards=2)
def linear_sem(case, ctx):
    W, n, sem = np.array(case["W"]), case["n"], case["sem"]
    d = len(W)
    if sem == "poisson":
        W = W / 3 if d <= 3 else -np.abs(W)  # counts explode along long chains
    sc = {"none": None, "scalar": case["scales"][0], "vector": np.array(case["scales"])}[case["scale"]]
    S = np.ones(d) if sc is None else np.broadcast_to(sc, d)
    ctx.nontrivial((W != 0).sum() >= 3)
    keep = W.copy()
    if case["inf"]:
        X = gen.simulate_linear_sem(W, np.inf, "gauss", noise_scale=sc)
        inv = np.linalg.inv(np.eye(d) - W)
        expect_close(X.T @ X / d, inv.T @ np.diag(S ** 2) @ inv, "population covariance", rtol=1e-8, atol=1e-9)
        return
    np.random.seed(case["seed"])
    X = gen.simulate_linear_sem(W, n, sem, noise_scale=sc)
    np.random.seed(case["seed"])
    expect(np.array_equal(X, gen.simulate_linear_sem(W, n, sem, noise_scale=sc)), "the same seed gives other data")
    expect(np.array_equal(W, keep), "the weights are changed")
    expect(X.shape == (n, d), "shape %r", X.shape)
    L = X @ W
    for j in range(d):
        z, s, what = X[:, j] - L[:, j], S[j], f"{sem} variable {j} of {case['W']}"
        if sem == "logistic":
            expect(set(X[:, j]) <= {0.0, 1.0}, "%s is not binary", what)
            p = 1 / (1 + np.exp(-L[:, j]))
            expect(abs((X[:, j] - p).sum()) <= 6 * np.sqrt((p * (1 - p)).sum()) + 2, "%s: %r ones where %r are expected", what, X[:, j].sum(), p.sum())
            if n > 100 and (W[:, j] != 0).any():
                c = L[:, j] - L[:, j].mean()
                expect(abs(((X[:, j] - p) * c).sum()) <= 6 * np.sqrt((p * (1 - p) * c ** 2).sum()) + 2 * np.abs(c).max(), "%s does not follow its parents", what)
        elif sem == "poisson":
            m = np.exp(L[:, j])
            expect(np.all(X[:, j] >= 0) and np.all(X[:, j] == np.round(X[:, j])), "%s is not a count", what)
            expect(abs((X[:, j] - m).sum()) <= 6 * np.sqrt(m.sum()) + 12, "%s: %r counts where %r are expected", what, X[:, j].sum(), m.sum())
        else:
            if s == 1e-9:
                expect_close(z, np.zeros(n), f"{what} (no noise)", rtol=0, atol=1e-6)
                continue
            lo, mean, sd = {"gauss": (-np.inf, 0, 1), "exp": (0, 1, 1), "gumbel": (-np.inf, 0.5772156649, np.pi / np.sqrt(6)), "uniform": (-1, 0, 3 ** -0.5)}[sem]
            expect(z.min() >= lo * s - 1e-9, "%s: noise %r below its support", what, z.min())
            if sem == "uniform":
                expect(z.max() <= s + 1e-9, "%s: noise %r above its support", what, z.max())
            if n > 100:
                moment(z, mean * s, sd * s, what)
                u = np.sort(CDF[sem](z / s))
                ks = max((np.arange(1, n + 1) / n - u).max(), (u - np.arange(n) / n).max())
                expect(ks < 3.3 / np.sqrt(n), "%s: the noise is %r away from its distribution", what, ks)
                expect(n < 500 or 0.7 < z.std() / (sd * s) < 1.4, "%s: the noise has standard deviation %r instead of %r", what, z.std(), sd * s)
                for k in np.flatnonzero(W[:, j]):
                    if X[:, k].std() > 1e-6:
                        r = np.corrcoef(z, X[:, k])[0, 1]
                        expect(abs(r) < 6.5 / np.sqrt(n), "%s: the noise has correlation %r with the cause %d", what, r, k)


@st.composite
def graphs(draw):
    d = draw(st.integers(2, 9))
    return dict(d=d, edges=draw(st.integers(0, d * (d - 1) // 2)), kind=draw(st.sampled_from(["ER", "SF", "BP"])), seed=draw(st.integers(0, 10**6)),
                ranges=draw(st.sampled_from([None, [(-2.0, -1.0), (3.0, 4.0)], [(0.5, 0.6)]])), sem=draw(st.sampled_from(["mlp", "mim", "gp", "gp-add"])), scale=draw(st.sampled_from(["none", "vector", "scalar"])))


@check.sub("graph", graphs(), quick=250, thorough=10000)
def graph(case, ctx):
    d, s0 = case["d"], case["edges"]
    if case["kind"] == "BP":
        d = max(d, 5)
        top = int(0.2 * d)
        s0 = min(s0, top * (d - top))
    if case["kind"] == "SF" and s0 < d:
        s0 = d
    gen.set_random_seed(case["seed"])
    B = gen.simulate_dag(d, s0, case["kind"])
    expect(B.shape == (d, d) and set(np.unique(B)) <= {0, 1}, "the graph is %r", B)
    expect(acyclic(B) and gen.is_dag(B), "the graph has a cycle: %r", B.tolist())
    m = int(B.sum())
    ctx.nontrivial(m >= 3)
    if case["kind"] != "SF":
        expect(m == s0, "%d edges instead of %d", m, s0)
    else:
        expect(m > 0, "no edge")
    if case["kind"] == "BP":
        expect(not np.any((B.sum(0) > 0) & (B.sum(1) > 0)), "a node of a bipartite graph is cause and effect: %r", B.tolist())
    gen.set_random_seed(case["seed"] + 1)
    rg = case["ranges"]
    W = gen.simulate_parameter(B) if rg is None else gen.simulate_parameter(B, w_ranges=rg)
    rg = rg or [(-2.0, -0.5), (0.5, 2.0)]
    expect(np.array_equal(W != 0, B != 0), "the weights are not those of the graph's edges")
    expect(all(any(a <= w <= b for a, b in rg) for w in W[W != 0]), "weights %r outside %r", W[W != 0].tolist(), rg)
    if d <= 6:
        scale = {"none": None, "vector": np.full(d, 1e-6), "scalar": 1e-6}[case["scale"]]
        gen.set_random_seed(case["seed"] + 2)
        X = gen.simulate_nonlinear_sem(B, 25, case["sem"], noise_scale=scale)
        expect(X.shape == (25, d) and np.all(np.isfinite(X)), "nonlinear data %r", X.shape)
        if scale is not None:
            for j in range(d):
                roots = B[:, j].sum() == 0
                expect(not roots or np.abs(X[:, j]).max() < 1e-4, "a variable without causes and without noise varies by %r", np.abs(X[:, j]).max())


@st.composite
def causes(draw):
    k = draw(st.integers(1, 7))
    lows = draw(st.permutations([-9, -6, -3, 1, 4, 7]))[:draw(st.integers(1, 5))]
    return dict(k=k, which=draw(st.integers(0, k - 1)), perm=draw(st.permutations(range(k + 1))), sem=draw(st.sampled_from(["mlp", "mim", "gp", "gp-add"])), seed=draw(st.integers(0, 10**6)),
                ranges=[(float(a), a + draw(st.sampled_from([0.25, 1.0, 2.0]))) for a in lows], dims=draw(st.integers(14, 20)))


@check.sub("causes", causes(), quick=150, thorough=6000)
def each_cause(case, ctx):
    # one effect of k causes of which a single one varies: the effect varies with it, and not without it
    k, at = case["k"], case["perm"]
    B = np.zeros((k + 1, k + 1))
    for i in range(k):
        B[at[i], at[k]] = 1
    scale = np.full(k + 1, 1e-9)
    gen.set_random_seed(case["seed"])
    still = gen.simulate_nonlinear_sem(B, 30, case["sem"], noise_scale=scale)[:, at[k]]
    scale[at[case["which"]]] = 1.0
    moved = gen.simulate_nonlinear_sem(B, 30, case["sem"], noise_scale=scale)[:, at[k]]
    expect(still.std() < 1e-2, "%s: an effect whose causes stand still varies by %r", case["sem"], still.std())
    if case["sem"] == "mim":
        expect(np.abs(moved).max() <= 3 + 1e-6, "the tangent, cosine and sine of the causes come to %r", np.abs(moved).max())
    expect(moved.std() > 1e-3, "%s: an effect does not vary with its cause number %d of %d", case["sem"], case["which"], k)
    ctx.nontrivial(k > 1 and len(case["ranges"]) > 1)
    # every range of weights has its share
    d, rg = case["dims"], case["ranges"]
    full = np.tril(np.ones((d, d)), -1)
    W = gen.simulate_parameter(full, w_ranges=rg)
    w = W[full != 0]
    m = len(w)
    for lo, hi in rg:
        mine = w[(w >= lo) & (w <= hi)]
        q = 1 / len(rg)
        expect(abs(len(mine) - m * q) <= 6.5 * np.sqrt(m * q * (1 - q)), "%d of %d weights lie in %r, one of the ranges %r", len(mine), m, (lo, hi), rg)
        if len(mine) > 4:
            expect(abs(mine.mean() - (lo + hi) / 2) < 6.5 * (hi - lo) / np.sqrt(12 * len(mine)), "the weights within %r have the mean %r", (lo, hi), mine.mean())


@check.sub("cycle", weights(), quick=60, thorough=2000)
def cycle(case, ctx):
    W = np.array(case)
    i, j = np.nonzero(W)
    if len(i) == 0:
        ctx.reject("no edge")
    ctx.nontrivial(len(i) >= 3)
    W[j[0], i[0]] = 0.5
    expect(not gen.is_dag(W), "a cyclic matrix passes for acyclic: %r", W.tolist())
    try:
        gen.simulate_linear_sem(W, 5, "gauss")
    except ValueError:
        return
    expect(False, "data are simulated from the cyclic matrix %r", W.tolist())


@st.composite
def dynamic(draw):
    order = draw(st.integers(1, 3))
    return dict(n=draw(st.integers(1, 8)), d=draw(st.integers(3, 6)), order=order, step=draw(st.integers(order, 6)), seed=draw(st.integers(0, 10**6)), sem=draw(st.sampled_from(["gauss", "exp", "gumbel", "uniform"])), vector=draw(st.booleans()),
                scales=draw(st.lists(st.sampled_from([0.02, 0.3, 1.0, 5.0]), min_size=6, max_size=6)), weights=draw(st.sampled_from([(1.0, 0.3, 0.5, 1.5), (2.0, 0.1, 0.2, 3.0), (0.5, 1.0, 4.0, 1.0)])))


@check.sub("dynamic", dynamic(), quick=150, thorough=5000)
def dynamics(case, ctx):
    n, d, order, step = (case[k] for k in ("n", "d", "order", "step"))
    gen.set_random_seed(case["seed"])
    X, B, A = gen.dygen(n=n, d=d, step=step, order=order, noise_scale=1e-10)
    expect(B.shape == (d, d) and acyclic(B), "the graph within a time step has a cycle")
    expect(A.shape == (d, d, order), "lag weights %r", A.shape)
    expect(X.shape == ((step + order) * n, d), "%r rows", X.shape)
    X = X.reshape(step + order, n, d)
    ctx.nontrivial((B != 0).sum() >= 3 and np.abs(A).sum() > 0)
    # no noise: only roundoff grows; a seeded start makes the history visible
    gen.set_random_seed(case["seed"] + 1)
    lag = np.random.randn(order, n, d)
    new = gen.simulate_linear_sem_with_A(A, B, lag, n, "gauss", noise_scale=1e-10)
    want = np.zeros((n, d))
    G = nx.from_numpy_array((B != 0).astype(int), create_using=nx.DiGraph)
    for j in nx.topological_sort(G):
        want[:, j] = want @ B[:, j]
        for k in range(order):
            want[:, j] += lag[k] @ A[:, j, k]
    expect_close(new, want, "the next time step", rtol=1e-6, atol=1e-6)
    expect(np.abs(X).max() < 1e-3, "noise free data start at zero, but reach %r", np.abs(X).max())
    # the noise of each variable, of every kind, enters once with every lag
    sem, many = case["sem"], 400
    scales = np.array(case["scales"][:d]) if case["vector"] else case["scales"][0]
    gen.set_random_seed(case["seed"] + 3)
    lag = np.random.randn(order, many, d)
    keep = [q.copy() for q in (A, B, lag)]
    S = gen.simulate_linear_sem_with_A(A, B, lag, many, sem, noise_scale=scales)
    expect(all(np.array_equal(a, b) for a, b in zip(keep, (A, B, lag))), "the weights or the past are changed")
    Z = S - S @ B - sum(lag[k] @ A[:, :, k] for k in range(order))
    mean, sd, lo, hi = {"gauss": (0, 1, -np.inf, np.inf), "exp": (1, 1, 0, np.inf), "gumbel": (0.5772156649, np.pi / np.sqrt(6), -np.inf, np.inf), "uniform": (0, 3 ** -0.5, -1, 1)}[sem]
    for j, s in enumerate(np.broadcast_to(scales, d)):
        z, what = Z[:, j], f"{sem} noise of variable {j} after {order} lags"
        expect(z.min() >= lo * order * s - 1e-7 and z.max() <= hi * order * s + 1e-7, "%s lies between %r and %r", what, z.min(), z.max())
        moment(z, mean * order * s, sd * np.sqrt(order) * s, what)
        expect(0.6 < z.std() / (sd * np.sqrt(order) * s) < 1.6, "%s has standard deviation %r instead of %r", what, z.std(), sd * np.sqrt(order) * s)
    # lag weights are those of the given edges, and fade with the lag
    full = (np.random.rand(d, d, order) < 0.6) * 1.0
    size, low, high, eta = case["weights"]
    V = gen.simulate_weight_A(full, order, scale=size, low=low, high=high, eta=eta)
    expect(V.shape == full.shape and np.array_equal(V != 0, full != 0), "the lag weights are not those of the graph's edges")
    for k in range(order):
        q = np.abs(V[:, :, k][full[:, :, k] != 0]) * eta ** k / size
        expect(q.size == 0 or (q.min() >= low - 1e-9 and q.max() <= high + 1e-9), "the weights of lag %d lie between %r and %r times their scale", k + 1, q.min() if q.size else 0, q.max() if q.size else 0)
    every = gen.simulate_random_graph(d, "ER", order, d)
    expect(every.shape == (d, d) and np.all(((every + every.T) != 0) | np.eye(d, dtype=bool)), "pairs without an edge in a graph with every edge: %r", every.tolist())
    expect(not gen.simulate_random_graph(d, "ER", order, 0).any(), "edges in a graph without")
    cov = gen.simulate_linear_sem_with_A(A, B, lag, np.inf, "gauss", noise_scale=scales)
    inv = np.linalg.inv(np.eye(d) - B)
    expect_close(cov.T @ cov / d, inv.T @ np.diag(np.broadcast_to(scales, d) ** 2) @ inv, "population covariance within a time step", rtol=1e-8, atol=1e-9)
    both = np.sign(V[full != 0])
    expect(len(both) < 60 or abs(both.sum()) < 6.5 * np.sqrt(len(both)), "%d of %d lag weights are positive", (both > 0).sum(), len(both))
    gen.set_random_seed(case["seed"] + 2)
    X1, B1, A1 = gen.dygen(n=n, d=d, step=step, order=order)
    X1 = X1.reshape(step + order, n, d)
    lim = 6 * np.sqrt(order)
    for t in range(order, step + order):
        z = X1[t] - X1[t] @ B1 - sum(X1[t - order + k] @ A1[:, :, k] for k in range(order))
        expect(np.abs(z).max() < lim, "time step %d differs from its own past by %r", t, np.abs(z).max())


# ------------------------------------------------------------------- comparisons
@check.sub("accuracy", st.tuples(weights(), weights(), st.lists(st.integers(0, 30), max_size=3)), quick=300, thorough=15000)
def accuracy(case, ctx):
    T, E = (np.array(case[0]) != 0).astype(int), (np.array(case[1]) != 0).astype(int)
    d = min(len(T), len(E))
    T, E = T[:d, :d], E[:d, :d]
    e = np.argwhere(E)
    for i in case[2]:  # some undirected edges
        if len(e):
            E[tuple(e[i % len(e)])] = -1
    got = gen.count_accuracy(T, E)
    tp = fp = rev = extra = missing = 0
    for i in range(d):
        for j in range(d):
            adj = T[i, j] or T[j, i]
            if E[i, j] == 1:
                tp += bool(T[i, j])
                rev += bool(not T[i, j] and T[j, i])
                fp += not adj
            elif E[i, j] == -1:
                tp += bool(adj)
                fp += not adj
            if j < i:
                est = E[i, j] != 0 or E[j, i] != 0
                extra += bool(est and not adj)
                missing += bool(adj and not est)
    pred, cond = int((E != 0).sum()), int(T.sum())
    ctx.nontrivial(cond >= 3 and pred >= 3)
    expect_close(got["fdr"], (rev + fp) / max(pred, 1), "false discovery rate")
    expect_close(got["tpr"], tp / max(cond, 1), "true positive rate")
    expect_close(got["fpr"], (rev + fp) / max(0.5 * d * (d - 1) - cond, 1), "false positive rate")
    expect(got["shd"] == extra + missing + rev, "structural Hamming distance %r instead of %r", got["shd"], extra + missing + rev)
    expect(got["nnz"] == pred, "number of predicted edges %r instead of %r", got["nnz"], pred)


# ----------------------------------------------------------------- effect data sets
@st.composite
def effect_sets(draw):
    return dict(kind=draw(st.sampled_from(["binary", "continuous", "multi", "sq", "discrete", "shuffled", "coupon", "threshold"])), seed=draw(st.integers(0, 10**6)), n=draw(st.sampled_from([120, 300])),
                w=draw(st.integers(5, 12)), v=draw(st.integers(1, 4)), k=draw(st.integers(2, 4)), flag=draw(st.booleans()), style=draw(st.sampled_from(["binary", "continuous"])))


def residual(y, W):
    A = np.column_stack([W, np.ones(len(y))])
    coef = np.linalg.lstsq(A, y, rcond=None)[0]
    z = y - A @ coef
    expect(abs(coef[-1]) <= 8 * z.std() / np.sqrt(len(y)) + 1e-3, "the noise has the mean %r and the standard deviation %r", coef[-1], z.std())
    return z, coef[:-1]


@check.sub("effects", effect_sets(), quick=200, thorough=6000, shards=2)
def effects(case, ctx):
    kind, n, nw, nv, seed = (case[k] for k in ("kind", "n", "w", "v", "seed"))
    ctx.nontrivial(kind != "coupon")
    if kind in ("binary", "continuous", "multi"):
        fn = {"binary": lambda s: ed.single_binary_treatment(n=n, confounder_n=nw, covariate_n=nv, random_seed=s),
              "continuous": lambda s: ed.single_continuous_treatment(num=n, confounder_n=nw, covariate_n=min(nv, 2), random_seed=s),
              "multi": lambda s: ed.multi_continuous_treatment(n=n, n_w=nw, n_v=nv, random_seed=s)}[kind]
        train, val, te = fn(seed)
        again = fn(seed)
        expect(train.equals(again[0]) and val.equals(again[1]), "the same seed gives other data")
        expect(len(train) + len(val) == n and not set(train.index) & set(val.index), "training and validation rows overlap")
        D = pd.concat([train, val])
        w = D[[f"w_{i}" for i in range(nw)]].to_numpy()
        c = D[[c for c in D.columns if c.startswith("c_")]].to_numpy()
        y = D["outcome"].to_numpy()
        expect(c.min() >= 0 and c.max() <= 1, "covariates outside [0, 1]")
        expect(np.all(np.abs(c.std(0) * 12 ** 0.5 - 1) < 0.35) and np.all(np.abs(w.std(0) - 1) < 6 / np.sqrt(2 * n)), "covariates and confounders vary by %r and %r", c.std(0), w.std(0))
        e1, e2 = np.exp(2 * c[:, 0]), np.log(1 + c[:, 0])
        if kind == "multi":
            x = D[["treatment_0", "treatment_1"]].to_numpy()
            expect_close(x[:, 1], x[:, 0] ** 2, "the second treatment is the square of the first")
            expect_close(D["te1"], e1, "first effect")
            expect_close(D["te2"], e2, "second effect")
            test, t1, t2 = te
            expect_close(t1, np.exp(2 * test["c_0"]), "first effect of the test rows")
            expect_close(t2, np.log(1 + test["c_0"]), "second effect of the test rows")
            expect(list(test.columns) == ["c_%d" % i for i in range(nv)] and len(test) == 100 and test.min().min() >= 0 and test.max().max() <= 1, "test rows with %r", list(test.columns))
            r = y - e1 * x[:, 0] - e2 * x[:, 1]
        else:
            x = D["treatment"].to_numpy()
            if kind == "binary":
                expect(set(x) <= {0, 1}, "treatments %r", set(x))
            expect_close(D["TE"], e1, "effect column")
            expect_close(np.asarray(te)[D.index.to_numpy()], e1, "returned effects")
            r = y - e1 * x
        z, coef = residual(r, w)
        expect(np.abs(z).max() < 2.2 and 0.2 < z.std() * np.sqrt(3) < 1.8, "the outcome less the treatments' effects is not the confounders' plus bounded noise: residual up to %r, sd %r", np.abs(z).max(), z.std())
        if kind != "binary":
            # the treatment is caused by the confounders, and by those of the outcome
            zx, cx = residual(x[:, 0] if kind == "multi" else x, w)
            expect(np.abs(zx).max() < 2.2 and 0.2 < zx.std() * np.sqrt(3) < 1.8, "the treatment is not the confounders' plus bounded noise: residual up to %r, sd %r", np.abs(zx).max(), zx.std())
            expect((cx > 0.35).sum() <= 5 and cx.min() > -0.45 and cx.max() < 1.45, "confounder coefficients of the treatment %r", cx)
            used = sorted(np.argsort(-np.maximum(cx, coef))[:5])
            rest = [i for i in range(nw) if i not in used]
            expect(not rest or max(np.abs(cx[rest]).max(), np.abs(coef[rest]).max()) < 0.45, "treatment and outcome have other confounders: %r and %r", cx, coef)
        expect((coef > 0.35).sum() <= 5 and coef.min() > -0.45 and coef.max() < 1.45, "confounder coefficients %r", coef)
    elif kind == "sq":
        y, x, v = ed.sq_data(n, nv, case["k"] - 1, random_seed=seed)
        y2, x2, v2 = ed.sq_data(n, nv, case["k"] - 1, random_seed=seed)
        expect(np.array_equal(y, y2) and np.array_equal(x, x2) and np.array_equal(v, v2), "the same seed gives other data")
        expect(y.shape == (n, 1) and x.shape == (n, case["k"] - 1) and v.shape == (n, nv), "shapes")
        z = y[:, 0] - (v[:, 0] ** 2 + 1) * x[:, 0] - x[:, 1:].sum(1)
        expect(abs(z.mean()) < 6 * 0.5 / np.sqrt(n) and 0.7 < z.std() / 0.5 < 1.4, "noise of mean %r and sd %r", z.mean(), z.std())
        expect(np.all(np.abs(v.std(0) - 1) < 6 / np.sqrt(2 * n)), "covariates vary by %r", v.std(0))
        prob = 1 / (1 + np.exp(-v[:, 0]))
        for xi in x.T:
            expect(set(xi) <= {0.0, 1.0}, "treatments %r", set(xi))
            for q in (np.ones(n), v[:, 0]):
                expect(abs(((xi - prob) * q).sum()) <= 6.5 * np.sqrt((prob * (1 - prob) * q * q).sum()) + 3, "the treatment is not drawn with the propensity of its covariate")
        expect(abs(np.corrcoef(z, x[:, 0])[0, 1]) < 6 / np.sqrt(n), "the noise is correlated with the treatment")
    elif kind == "discrete":
        eff = (np.arange(case["k"]) * 3.0 - seed % 5).tolist()
        D = ed.meaningless_discrete_dataset_(n, eff, confounder_n=case["v"], random_seed=seed)
        x, w = D["treatment"].to_numpy(), D[[f"w_{i}" for i in range(case["v"])]].to_numpy()
        expect(set(x) <= set(range(case["k"])), "treatments %r", set(x))
        z, _ = residual(D["outcome"].to_numpy() - np.array(eff)[x], w)
        expect(np.abs(z).max() < 6e-4, "the outcome less the treatment's effect is not linear in the confounders: %r", np.abs(z).max())
        expect(D.equals(ed.meaningless_discrete_dataset_(n, eff, confounder_n=case["v"], random_seed=seed)), "the same seed gives other data")
        x_, w_, y_ = ed.meaningless_discrete_dataset_(n, eff, confounder_n=case["v"], random_seed=seed, data_frame=False)
        expect(np.array_equal(x_, x) and np.array_equal(w_, w) and np.array_equal(y_.ravel(), D["outcome"].to_numpy()), "arrays and frame differ")
    elif kind == "shuffled":
        k = case["k"]
        eff = (np.arange(k) * 2.0 - 1).tolist()
        D, coef = ed.meaningless_discrete_dataset(n, case["v"], treatment_effct=eff, prob=[1 / k] * k, random_seed=seed)
        x, w = D["treatment"].to_numpy(), D[[f"w_{i}" for i in range(case["v"])]].to_numpy()
        expect(len(D) == n and set(x) <= set(range(k)), "treatments %r", set(x))
        z = D["outcome"].to_numpy() - np.array(eff)[x] * x - w @ coef
        expect(np.all(np.abs(w.std(0) / 0.5 - 1) < 6 / np.sqrt(2 * n)), "confounders with standard deviations %r", w.std(0))
        late = np.corrcoef(np.arange(n), x)[0, 1] if x.std() > 0 else 0
        expect(abs(late) < 6.5 / np.sqrt(n), "the treatments have the correlation %r with the number of the row", late)
        start = x - w.sum(1)  # up to rounding what was drawn before the confounders came in
        expect(np.all(start[x > 0] <= k - 0.5 + 1e-9) and np.all(start[x < k - 1] >= -0.5 - 1e-9), "treatments which do not follow from the confounders")
        expect(abs(z.mean()) < 6 / np.sqrt(n) + 1e-3 and 0.7 < z.std() < 1.4, "noise of mean %r and sd %r", z.mean(), z.std())
    elif kind == "coupon":
        np.random.seed(seed)
        D = ed.coupon_dataset(n, treatment_style=case["style"], with_income=case["flag"])
        expect(len(D) == n and set(D["gender"]) <= {0, 1}, "rows")
        base = D.gender * 20 + (110 + D.income / 50 if case["flag"] else 150)
        if case["style"] == "binary":
            prob = stats.norm.sf(((120 if case["flag"] else 150) - base) / 5)
            expect(abs((D.coupon - prob).sum()) <= 6.5 * np.sqrt((prob * (1 - prob)).sum()) + 2, "%d coupons where %.1f are expected", D.coupon.sum(), prob.sum())
            prob = prob[D.gender == 1]
            expect(abs((D.coupon[D.gender == 1] - prob).sum()) <= 6.5 * np.sqrt((prob * (1 - prob)).sum()) + 2, "coupons do not depend on gender as they should")
        else:
            moment((D.coupon - base).to_numpy(), 0, 5, "coupons")
            expect(0.7 < (D.coupon - base).std() / 5 < 1.4, "coupons vary by %r", (D.coupon - base).std())
        if case["flag"]:
            moment(D.income.to_numpy(), 500, 15, "income")
        if case["style"] == "binary":
            expect(set(D["coupon"]) <= {0, 1}, "coupons %r", set(D["coupon"]))
        if case["flag"]:
            z = D.amount - 150 * D.coupon - 100 * D.gender - 150 - D.income / 5
            expect_close(D.time_spent, D.coupon * 10 + D.amount / 10, "time spent")
        else:
            z = D.amount - 30 * D.coupon - 100 * D.gender - 150
            expect_close(D.time_spent, D.coupon * 100 + D.amount / 10, "time spent")
        expect(np.abs(z).max() < 6 and abs(z.mean()) < 6 / np.sqrt(n), "noise of amounts %r", np.abs(z).max())
    else:
        np.random.seed(seed)
        y, x, v = ed.binary_data(n=n, d=3 + nv)
        expect(set(x) <= {0, 1} and v.shape == (n, 3 + nv), "shapes")
        z, coef = residual(y - 8 * x * (v[:, 1] > 0.1), v)
        expect(0.6 < z.std() < 1.5 and np.abs(coef).max() < 3.7, "noise sd %r, coefficients %r", z.std(), coef)
        ok = (v[:, 2] > -0.5) & (v[:, 2] < 0.5)
        expect(x[ok].mean() > 0.8 - 6 * 0.4 / np.sqrt(max(ok.sum(), 1)) and x[~ok].mean() < 0.2 + 6 * 0.4 / np.sqrt((~ok).sum()), "propensities %r, %r", x[ok].mean(), x[~ok].mean())
