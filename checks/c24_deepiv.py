"""C24: deep instrumental variables: the stages train on the right rows and the effects are those of the outcome network."""
import contextlib
import copy
import io
import warnings

import numpy as np
import pandas as pd
import torch
import torch.nn as nn
from hypothesis import strategies as st

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn.estimator_model.deepiv import DeepIV, MDNWrapper, MixtureDensityNetwork, Net, NetWrapper

check = Check("C24", "at least two rows, and an outcome network whose answers differ between rows (estimates) or several batches or samples (training)",
              ["the networks have few hidden units and are trained for one to three epochs on the CPU",
               "discrete treatments are coded 0..k-1 in the estimates"])


@contextlib.contextmanager
def quiet(dtype=torch.float64):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dtype)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        torch.set_default_dtype(old)


def forward(net, x, w):
    """The default network in numpy: (n, x_d) values or (n,) codes -> (n, out_d), and the gradient in x."""
    p = {k: v.detach().numpy().astype(float) for k, v in net.state_dict().items()}
    if "embed.weight" in p:
        x = p["embed.weight"][x]
    h = np.concatenate([x, w], axis=1)
    J = np.broadcast_to(np.eye(h.shape[1])[:, :x.shape[1]], (len(h), h.shape[1], x.shape[1]))
    for k in (1, 2, 3, 4):
        A, b = p["fc%d.weight" % k], p["fc%d.bias" % k]
        h = h @ A.T + b
        J = np.einsum("oi,nix->nox", A, J)
        if k < 4:
            J = J * (h > 0)[:, :, None]
            h = np.maximum(h, 0)
    return h, J


def mixture(net, z, w):
    """The density network in numpy: mixing coefficients, means and scales."""
    p = {k: v.detach().numpy().astype(float) for k, v in net.state_dict().items()}
    h = np.concatenate([p["embed.weight"][z] if "embed.weight" in p else z, w], axis=1)
    for k in (0, 2):
        h = h @ p["hidden_layer.%d.weight" % k].T + p["hidden_layer.%d.bias" % k]
        h = np.where(h > 0, h, np.expm1(np.minimum(h, 0)))
    pi, mu, s = [h @ p[k + ".weight"].T + p[k + ".bias"] for k in ("pi", "mu", "sigma")]
    pi = np.exp(pi - pi.max(1, keepdims=True))
    shape = (len(h), pi.shape[1], -1)
    return pi / pi.sum(1, keepdims=True), mu.reshape(shape), np.exp(s).reshape(shape)


@st.composite
def tables(draw):
    disc = draw(st.booleans())
    dz = draw(st.booleans())
    return dict(yc=draw(st.sampled_from([None, None, [0, 1], [1, 3, 7], [False, True]])), n=draw(st.integers(4, 14)), m=draw(st.integers(1, 6)), seed=draw(st.integers(0, 10**6)), disc=disc, k=draw(st.integers(2, 4)), xd=1 if disc else draw(st.integers(1, 2)),
                wd=draw(st.integers(0, 2)), zd=1 if dz else draw(st.integers(1, 2)), dz=dz, yd=draw(st.sampled_from([1, 1, 1, 2])), sample_n=draw(st.sampled_from([None, 1, 2, 3, 7])),
                approx=draw(st.integers(0, 3)) > 0, epoch=draw(st.integers(1, 2)), batch=draw(st.sampled_from([2, 3, 64])), ints=draw(st.booleans()),
                f32=draw(st.integers(0, 3)) == 0, config=draw(st.sampled_from(["kw", "both", "x", "y"])), order=draw(st.booleans()), strs=draw(st.booleans()),
                treat=draw(st.sampled_from([None, 0, 1, 2, 3])), control=draw(st.sampled_from([None, 0, 1, 2, 3])), tval=draw(st.sampled_from([None, 1, -0.5, 2.0])), cval=draw(st.sampled_from([None, 0, 0.25, -2.0])))


def make(case, n, seed):
    r = np.random.RandomState(seed)
    d = {}
    for j in range(case["zd"]):
        d["z%d" % j] = r.randint(0, 3, n) if case["dz"] else r.normal(size=n)
        if case["dz"]:
            d["z%d" % j][:3] = np.arange(3)[:n]
    for j in range(case["wd"]):
        d["w%d" % j] = r.randint(-3, 4, n) if case["ints"] and j == 0 else r.normal(size=n)
    for j in range(case["xd"]):
        if case["disc"]:
            x = r.randint(0, case["k"], n)
            x[:case["k"]] = np.arange(case["k"])[:n]
            d["x%d" % j] = x
        else:
            d["x%d" % j] = r.normal(size=n)
    for j in range(case["yd"]):
        d["y%d" % j] = r.normal(size=n) + j
    d["extra"] = r.choice(["p", "q"], n)
    df = pd.DataFrame(d, index=r.permutation(n) + 5)
    if case["order"]:
        df = df[[c for c in df.columns][::-1]]
    return df


def names(case, p, k):
    c = [p + str(j) for j in range(k)]
    return c[0] if case["strs"] and k == 1 else (c or None)


def fit(case, est, df, **kw):
    cfg = dict(device="cpu", lr=0.01, epoch=case["epoch"], batch_size=case["batch"])
    if case["config"] == "kw":
        kw.update(cfg)
    if case["config"] in ("both", "x"):
        kw["x_net_config"] = dict(cfg)
    if case["config"] in ("both", "y"):
        kw["y_net_config"] = dict(cfg)
    if case["config"] in ("x", "y"):
        kw.update(cfg)
    return est.fit(df, names(case, "y", case["yd"]), names(case, "x", case["xd"]), instrument=names(case, "z", case["zd"]), adjustment=names(case, "w", case["wd"]),
                   sample_n=case["sample_n"], approx_grad=case["approx"], **kw)


def softmax(out, J):
    P = np.exp(out - out.max(1, keepdims=True))
    P /= P.sum(1, keepdims=True)
    return P, P[:, :, None] * (J - np.einsum("no,nox->nx", P, J)[:, None, :])


@check.sub("estimate", tables(), quick=150, thorough=6000, shards=2)
def estimate(case, ctx):
    df, test = make(case, case["n"], case["seed"]), make(case, case["m"], case["seed"] + 1)
    keep, keept = df.copy(), test.copy()
    dt = torch.float32 if case["f32"] else torch.float64
    tol = dict(rtol=2e-4, atol=2e-4) if case["f32"] else dict(rtol=1e-8, atol=1e-9)
    k = case["k"]
    yc, yd = case["yc"], case["yd"]
    if yc is not None and yd == 1:
        r = np.random.RandomState(case["seed"] + 3)
        for q in (df, test):
            q["y0"] = np.array(yc)[np.concatenate([np.arange(len(yc)), r.randint(0, len(yc), 14)])[:len(q)]]
        keep, keept = df.copy(), test.copy()
        yd = len(yc)
        ctx.event("discrete outcome")
    else:
        yc = None
    with quiet(dt):
        torch.manual_seed(case["seed"])
        est = DeepIV(x_hidden_d=[5, 4, 3] if case["disc"] else [5, 4], y_hidden_d=[9, 8, 7], num_gaussian=2, is_discrete_outcome=yc is not None, is_discrete_treatment=case["disc"], is_discrete_instrument=case["dz"])
        fit(case, est, df)
        pd.testing.assert_frame_equal(df, keep)
        if case["disc"]:
            t, c = [None if v is None else v % k for v in (case["treat"], case["control"])]
        else:
            t, c = case["tval"], case["cval"]
        tt, cc = 1 if t is None else t, 0 if c is None else c

        def truth(W, v):
            n = len(W)
            x = np.full(n, v) if case["disc"] else np.full((n, case["xd"]), float(v))
            out, J = forward(est.y_net.model, x, W)
            # of a discrete outcome: the probabilities of the classes
            return (out, J) if yc is None else softmax(out, J)

        for data in (None, test, df, eg.alike(df, case["seed"])):
            src = df if data is None else data
            W = src[["w%d" % j for j in range(case["wd"])]].values.astype(float).reshape(len(src), case["wd"])
            want = truth(W, tt)[0] - truth(W, cc)[0]
            if data is None:
                ctx.nontrivial(case["wd"] > 0 and np.ptp(want, axis=0).max() > 1e-9)
            ite = est.estimate(data, treat=t, control=c, quantity=None).detach().numpy()
            expect(ite.shape == want.shape, "individual effects have shape %r for %d rows and %d outcomes", ite.shape, len(src), yd)
            expect_close(ite, want, "individual effects of %r against %r" % (t, c), **tol)
            for i in range(len(src)) if data is test else ():
                one = est.estimate(test.iloc[[i]], treat=t, control=c, quantity=None).detach().numpy()
                expect_close(one[0], want[i], "individual effect of a table of one row", **tol)
            ate = est.estimate(data, treat=t, control=c, quantity="ATE").detach().numpy()
            expect_close(ate, want.mean(0), "average effect of %r against %r" % (t, c), **tol)
            if t is None and c is None and data is not None:
                expect_close(est.estimate(data, quantity="ATE").detach().numpy(), want.mean(0), "average effect by default", **tol)
            nji = np.asarray(est.effect_nji(data).detach())
            if case["disc"]:
                exp = np.stack([truth(W, v)[0] - truth(W, 0)[0] for v in range(k)], axis=2)
            else:
                exp = np.stack([0 * want, truth(W, 1)[0] - truth(W, 0)[0]], axis=2)
            expect(nji.shape == exp.shape, "effect_nji has shape %r instead of %r", nji.shape, exp.shape)
            expect_close(nji, exp, "effects of every treatment", **tol)
            if not case["disc"] and case["yd"] == 1:
                J = truth(W, tt)[1]
                J = J[:, 0, :] if yc is None else J
                got = est.estimate(data, treat=t, quantity=None, marginal_effect=True).detach().numpy()
                expect(got.shape == J.shape, "marginal effects have shape %r", got.shape)
                expect_close(got, J, "marginal effects", **tol)
                expect_close(est.estimate(data, treat=t, quantity="ATE", marginal_effect=True).detach().numpy(), J.mean(0), "average marginal effect", **tol)
    pd.testing.assert_frame_equal(df, keep)
    pd.testing.assert_frame_equal(test, keept)


# ---------------------------------------------------------------- which rows the stages train on

LOG = []


class SpyNet(nn.Module):
    """A linear network which records what it is given."""

    def __init__(self, tag, x_d, w_d, out_d, di, do):
        super().__init__()
        self.tag, self._x_d, self._out_d, self.is_discrete_input, self.is_discrete_output = tag, x_d, out_d, di, do
        self.lin = nn.Linear((1 if di else x_d) + w_d, out_d)

    def forward(self, x, w):
        LOG.append((self.tag, x.detach().numpy().copy(), w.detach().numpy().copy(), self.training))
        if self.is_discrete_input:
            x = x.reshape(-1, 1).to(w.dtype)
        return self.lin(torch.cat((x, w), dim=1))


class SpyMDN(nn.Module):
    """One narrow component at a known function of the row, so that every sample tells its row."""

    def __init__(self, z_d, w_d, out_d, di):
        super().__init__()
        self._z_d, self._w_d, self._out_d, self.num_gaussian, self.is_discrete_input = z_d, w_d, out_d, 2, di
        self.c = nn.Parameter(torch.zeros(1))

    def forward(self, z, w):
        LOG.append(("x", z.detach().numpy().copy(), w.detach().numpy().copy(), self.training))
        z = z.reshape(len(w), -1).to(w.dtype)
        s = spy_mean(z, w)[:, None] + self.c
        mu = torch.stack([s + 10 * j for j in range(self._out_d)], dim=2)  # (n, 1, d)
        mu = torch.cat([mu, mu + 1000], dim=1)
        pi = torch.tensor([1.0, 0.0]).repeat(len(w), 1)
        return pi, mu, torch.full_like(mu, 1e-9)


def spy_mean(z, w):
    return z.sum(1) * 3 + (w * 0.5).sum(1)


@check.sub("rows", tables(), quick=150, thorough=6000)
def rows(case, ctx):
    df = make(case, case["n"], case["seed"])
    n, k, xd, wd, yd = case["n"], case["k"], case["xd"], case["wd"], case["yd"]
    Z = df[["z%d" % j for j in range(case["zd"])]].values.astype(float)
    W = df[["w%d" % j for j in range(wd)]].values.astype(float).reshape(n, wd)
    X = df[["x%d" % j for j in range(xd)]].values.astype(float)
    Y = df[["y%d" % j for j in range(yd)]].values
    S = case["sample_n"] or 1
    ctx.nontrivial(n > case["batch"] or S > 1)
    with quiet():
        torch.manual_seed(case["seed"])
        zd = 3 if case["dz"] else case["zd"]
        xn = SpyNet("x", zd, wd, k, case["dz"], True) if case["disc"] else SpyMDN(zd, wd, xd, case["dz"])
        yn = SpyNet("y", k if case["disc"] else xd, wd, yd, case["disc"], False)
        init = [copy.deepcopy(m.state_dict()) for m in (xn, yn)]
        targets = []
        del LOG[:]
        est = DeepIV(x_net=xn, y_net=yn, is_discrete_treatment=case["disc"], is_discrete_instrument=case["dz"])

        def loss(pred, y):
            targets.append((pred.detach().numpy().copy(), y.detach().numpy().copy()))
            return (pred.sum() * 0.0)  # the networks keep their weights

        kw = dict(y_net_config=dict(device="cpu", lr=0.01, epoch=case["epoch"], batch_size=case["batch"], loss=loss), x_net_config=dict(device="cpu", lr=0.0, epoch=case["epoch"], batch_size=case["batch"]))
        case = dict(case, config="none")
        fit(case, est, df, **kw)
        for m, i in zip((xn, yn), init):
            for a, b in zip(m.state_dict().values(), i.values()):
                expect(torch.equal(a, b), "the network of the caller was trained instead of a copy")
        # first stage: every row once per epoch, instrument with the adjustment of the same row
        zin = Z[:, 0].astype(int) if case["dz"] else Z
        log = [e for e in LOG if e[0] == "x" and len(e[1])]
        seen = [(np.asarray(z).reshape(len(w), -1), w) for _, z, w, _ in log]
        E = case["epoch"]
        flat = [np.concatenate([s[j] for s in seen]) for j in (0, 1)]
        expect(len(flat[0]) >= E * n, "the treatment network saw %d rows in %d epochs of %d rows", len(flat[0]), E, n)
        expect_close(flat[0][:E * n], np.tile(zin.reshape(n, -1), (E, 1)), "instruments given to the treatment network", rtol=0, atol=1e-12)
        expect_close(flat[1][:E * n], np.tile(W, (E, 1)), "adjustment given to the treatment network", rtol=0, atol=1e-12)
        # second stage
        ylog = [e for e in LOG if e[0] == "y"]
        pred, targ = [np.concatenate([t[j] for t in targets]) for j in (0, 1)]
        A, b = [v.detach().numpy() for v in (yn.lin.weight, yn.lin.bias)]
        if case["disc"]:
            if case["approx"]:
                A0, b0 = [v.detach().numpy() for v in (est.x_net.model.lin.weight, est.x_net.model.lin.bias)]
                logit = np.concatenate([zin.reshape(n, -1), W], axis=1) @ A0.T + b0
                P = np.exp(logit - logit.max(1, keepdims=True))
                P = P / P.sum(1, keepdims=True)
            else:
                P = np.eye(k)[X[:, 0].astype(int)]
            f = np.stack([np.concatenate([np.full((n, 1), v), W], axis=1) @ A.T + b for v in range(k)], axis=1)
            want = np.einsum("nk,nky->ny", P, f)
            expect(len(pred) == E * n, "the outcome network was trained on %d rows in %d epochs of %d rows", len(pred), E, n)
            expect_close(targ, np.tile(Y, (E, 1)), "outcomes of the second stage", rtol=0, atol=1e-12)
            expect_close(pred, np.tile(want, (E, 1)), "expected outcome over the treatment probabilities", rtol=1e-8, atol=1e-9)
            return
        reps = S if case["approx"] else 1
        xs, ws = [np.concatenate([e[j] for e in ylog]) for j in (1, 2)]
        expect(len(xs) == E * n * reps == len(targ), "the outcome network was trained on %d rows with %d outcomes in %d epochs of %d rows with %d samples each", len(xs), len(targ), E, n, reps)
        if case["approx"]:
            base = spy_mean(torch.tensor(zin.reshape(n, -1).astype(float)), torch.tensor(W)).numpy()
            want_x = np.stack([base + 10 * j for j in range(xd)], axis=1)
        else:
            want_x = X
        want = np.tile(np.concatenate([want_x, W, Y], axis=1), (E * reps, 1))
        got = np.concatenate([xs, ws, targ], axis=1)
        # any order of the samples is fine, as long as the three go together
        key = lambda M: M[np.lexsort(np.round(M, 5).T)]
        expect_close(key(got), key(want), "treatment, adjustment and outcome given together to the outcome network", rtol=1e-7, atol=1e-5)


# ---------------------------------------------------------------- training steps and densities

@st.composite
def stages(draw):
    return dict(kind=draw(st.sampled_from(["mdn", "reg", "clf"])), n=draw(st.integers(2, 12)), zd=draw(st.integers(1, 3)), wd=draw(st.integers(0, 2)), od=draw(st.integers(1, 3)), g=draw(st.integers(1, 4)),
                dz=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), epoch=draw(st.integers(1, 3)), batch=draw(st.sampled_from([1, 2, 5, 64])), lr=draw(st.sampled_from([0.001, 0.02])), opt=draw(st.sampled_from(["SGD", "SGD", "Adam"])),
                emb=draw(st.sampled_from([None, 2])), wide=draw(st.sampled_from([0, 0, -2.0, 2.5])))


def nll(model, z, w, y):
    """Mean negative log likelihood by the formula of the mixture."""
    pi, mu, sigma = model(z, w)
    lp = -0.5 * ((y[:, None, :] - mu) / sigma) ** 2 - torch.log(sigma) - 0.5 * np.log(2 * np.pi)
    return -torch.logsumexp(torch.log(pi) + lp.sum(2), dim=1).mean()


@check.sub("training", stages(), quick=150, thorough=6000)
def training(case, ctx):
    r = np.random.RandomState(case["seed"])
    n, od, g = case["n"], case["od"], case["g"]
    if case["wide"] < 0:
        case = dict(case, lr=case["lr"] * 0.02)  # steep densities
    dz, zd = case["dz"], case["zd"] + (1 if case["dz"] else 0)
    ctx.nontrivial(n > case["batch"])
    with quiet():
        torch.manual_seed(case["seed"])
        zc = r.randint(0, zd, n)
        z = torch.tensor(np.eye(zd)[zc] if dz else r.normal(size=(n, zd)))
        w = torch.tensor(r.normal(size=(n, case["wd"])))
        zin = torch.tensor(zc) if dz else z
        kind = case["kind"]
        if kind == "mdn":
            net = MixtureDensityNetwork(zd, case["wd"], od, 4, 3, num_gaussian=g, is_discrete_input=dz, embedding_dim=case["emb"])
            with torch.no_grad():
                net.sigma.bias += case["wide"]  # narrow or wide components
            wrap = MDNWrapper(net)
            y = torch.tensor(r.normal(size=(n, od)))
            target, lossf = y, nll
        else:
            net = Net(zd, case["wd"], od, 4, 4, 3, is_discrete_input=dz, is_discrete_output=kind == "clf", embedding_dim=case["emb"])
            wrap = NetWrapper(net)
            if kind == "clf":
                codes = r.randint(0, od, n)
                y = torch.tensor(codes)
                target = torch.tensor(np.eye(od)[codes])
                lossf = lambda m, a, b, t: -(m(a, b) - torch.logsumexp(m(a, b), dim=1, keepdim=True))[torch.arange(len(t)), t].mean()
            else:
                y = target = torch.tensor(r.normal(size=(n, od)))
                lossf = lambda m, a, b, t: ((m(a, b) - t) ** 2).mean()
        ref = copy.deepcopy(net)
        wrap.fit(z, w if case["wd"] or case["seed"] % 2 else None, target=target, device="cpu", lr=case["lr"], epoch=case["epoch"], optimizer=case["opt"], batch_size=case["batch"])
        for p, q in zip(net.parameters(), ref.parameters()):
            expect(torch.equal(p, q), "the given network was trained instead of a copy")
        opt = torch.optim.Adam(ref.parameters(), lr=case["lr"]) if case["opt"] == "Adam" else None
        for _ in range(case["epoch"]):
            for a in range(0, n, case["batch"]):
                s = slice(a, a + case["batch"])
                ref.zero_grad()
                loss = lossf(ref, zin[s], w[s], y[s])
                loss.backward()
                if opt is not None:
                    opt.step()
                else:
                    with torch.no_grad():
                        for q in ref.parameters():
                            if q.grad is not None:
                                q -= case["lr"] * q.grad
        # Adam turns rounding errors of vanishing gradients into whole steps
        tol = dict(rtol=1e-7, atol=1e-9) if case["opt"] == "SGD" else dict(rtol=1e-3, atol=case["lr"] * 1e-2)
        if case["opt"] == "SGD" or kind == "mdn":
            for (name, p), q in zip(wrap.model.named_parameters(), ref.parameters()):
                if case["opt"] == "SGD" or (q.grad is not None and q.grad.abs().min() > 1e-8):
                    expect_close(p.detach().numpy(), q.detach().numpy(), "parameter %s after training by %s" % (name, case["opt"]), **tol)
        # what the trained network says
        ref = wrap.model
        if kind == "mdn":
            pi, mu, sigma = [v.detach().numpy() for v in ref(zin, w)]
            expect_close(pi.sum(1), np.ones(n), "mixing coefficients sum to one")
            for what, a, b in zip(("mixing coefficients", "means", "scales"), (pi, mu, sigma), mixture(ref, zc if dz else z.numpy(), w.numpy())):
                expect_close(a, b, what, rtol=1e-8, atol=1e-10)
            t = y.numpy()
            comp = np.exp(-0.5 * ((t[:, None] - mu) / sigma) ** 2) / sigma / np.sqrt(2 * np.pi)
            dens = (pi * comp.prod(2)).sum(1)
            expect_close(wrap.predict_prob(z, w, y).detach().numpy(), dens, "density", rtol=1e-8, atol=1e-10)
            logs = np.log(pi) + (-0.5 * ((t[:, None] - mu) / sigma) ** 2 - np.log(sigma) - 0.5 * np.log(2 * np.pi)).sum(2)
            expect_close(wrap.predict_log_prob(z, w, y).detach().numpy(), np.logaddexp.reduce(logs, axis=1), "log density", rtol=1e-7, atol=1e-9)
            from scipy.stats import norm
            expect_close(wrap.predict_cdf(z, w, y).detach().numpy(), (pi * norm.cdf((t[:, None] - mu) / sigma).prod(2)).sum(1), "distribution function", rtol=1e-7, atol=1e-9)
            N = 1500
            s = wrap._sample(z, w, N).detach().numpy().reshape(N, n, od)
            mean = (pi[:, :, None] * mu).sum(1)
            sd = np.sqrt((pi[:, :, None] * (sigma ** 2 + mu ** 2)).sum(1) - mean ** 2)
            expect(np.all(np.abs(s.mean(0) - mean) <= 6.5 * sd / np.sqrt(N) + 1e-9), "mean of the samples of each row %r instead of %r", s.mean(0), mean)
            below = (s <= t[None]).mean(0)
            F = np.clip((pi[:, :, None] * norm.cdf((t[:, None] - mu) / sigma)).sum(1), 0, 1)
            expect(np.all(np.abs(below - F) <= 6.5 * np.sqrt(F * (1 - F) / N) + 8 / N), "share of samples below a point %r instead of %r", below, F)
        else:
            out = forward(ref, zc if dz else z.numpy(), w.numpy())[0]
            if kind == "clf":
                P = np.exp(out - out.max(1, keepdims=True))
                P /= P.sum(1, keepdims=True)
                expect_close(wrap.predict_proba(z, w).detach().numpy(), P, "probabilities", rtol=1e-8, atol=1e-10)
                expect(np.array_equal(wrap.predict(z, w).numpy(), P.argmax(1)), "predicted class")
            else:
                expect_close(wrap.predict(z, w).detach().numpy(), out, "prediction", rtol=1e-8, atol=1e-10)


# ---------------------------------------------------------------- through the factory

@check.sub("factory", tables(), quick=60, thorough=2500)
def factory(case, ctx):
    from ylearn.estimator_model._factory import DeepIVFactory
    df, test = make(case, case["n"], case["seed"]), make(case, case["m"], case["seed"] + 1)
    keep = df.copy()
    with quiet(torch.float32):
        torch.manual_seed(case["seed"])
        fac = DeepIVFactory(x_hidden_d=[5, 4, 3] if case["disc"] else [5, 4], y_hidden_d=[9, 8, 7], num_gaussian=2)
        est = fac(df, names(case, "y", case["yd"]), names(case, "x", case["xd"]), y_task="regression", x_task="multiclass" if case["disc"] else "regression",
                  instrument=names(case, "z", case["zd"]), adjustment=names(case, "w", case["wd"]), random_state=1)
        case = dict(case, config="kw")
        fit(case, est, df)
        W = test[["w%d" % j for j in range(case["wd"])]].values.astype(float).reshape(len(test), case["wd"])
        t, c = (case["k"] - 1, 0) if case["disc"] else (1.5, -1.0)
        x = lambda v: np.full(len(W), v) if case["disc"] else np.full((len(W), case["xd"]), float(v))
        want = forward(est.y_net.model, x(t), W)[0] - forward(est.y_net.model, x(c), W)[0]
        ctx.nontrivial(len(W) > 1)
        got = est.estimate(test, treat=t, control=c, quantity=None)
        expect(isinstance(got, np.ndarray), "effects of the factory's estimator are %s", type(got))
        expect_close(got, want, "effects of the factory's estimator", rtol=2e-4, atol=2e-4)
        pd.testing.assert_frame_equal(df, keep)
