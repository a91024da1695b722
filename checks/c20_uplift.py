"""C20: lift, gain and Qini curves and scores are the documented functions of the ranked rows."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import estgen as eg
from vlib.harness import Check, expect, expect_close
from ylearn import uplift as U

check = Check("C20", "at least two scores, rows of both groups, and outcomes or effects which are not all equal",
              ["both groups are present (other data are refused)", "only the places between tied rows are checked where scores are tied"])


@st.composite
def cases(draw):
    return dict(n=draw(st.one_of(st.integers(3, 60), st.integers(3, 60), st.integers(61, 400))), k=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)), labels=draw(st.sampled_from([[1, 0], [0, 1], [3, 7], ["t", "c"], ["a", "b"], [2.5, 1.5]])),
                share=draw(st.sampled_from([0.5, 0.5, 0.2, 0.9])), tied=draw(st.sampled_from([False, False, False, True])), binary=draw(st.booleans()),
                effect=draw(st.booleans()), index=draw(st.sampled_from(eg.INDEXES)), random=draw(st.sampled_from(["RANDOM", "RANDOM", None, "rnd"])),
                names=draw(st.booleans()), shift=draw(st.sampled_from([0, 0, -1, 5])), block=draw(st.booleans()), refit=draw(st.booleans()))


def make(case, seed):
    rng = np.random.RandomState(seed)
    n = case["n"]
    t = (rng.rand(n) < case["share"]).astype(int)
    t[rng.randint(n)] = 1
    t[rng.choice(np.flatnonzero(t == 1) if t.all() else np.flatnonzero(t == 0) if (t == 0).any() else [0])] = 0
    if not t.any():
        t[0] = 1
    S = rng.randn(n, case["k"])
    if case["block"]:
        # the best ranked rows are all of one group
        S[:, 0] += 4 * t
    if case["tied"]:
        S = S.round(0)
    te = S[:, 0] + rng.randn(n)
    y = (rng.rand(n) < 0.4).astype(int) if case["binary"] else rng.randn(n) + t * te + case["shift"]
    yn, xn, en = ("out", "grp", "eff") if case["names"] else ("y", "x", "te")
    d = {yn: y, xn: [case["labels"][0] if q else case["labels"][1] for q in t]}
    for i in range(case["k"]):
        d["s%d" % i] = S[:, i]
    if case["effect"]:
        d[en] = te + case["shift"]
    df = pd.DataFrame(d)
    df = df[list(rng.permutation(df.columns))]
    df.index = eg.index_of(case["index"], n, rng)
    return df, t, S, np.asarray(y, float), te + case["shift"], (yn, xn, en)


def curves(order, t, y, te, effect):
    """value after each row, None where undefined"""
    nt = nc = 0
    st_ = sc = se = 0.0
    lift, gain, qini = [0.0], [0.0], [0.0]
    for i, r in enumerate(order, 1):
        if t[r]:
            nt, st_ = nt + 1, st_ + y[r]
        else:
            nc, sc = nc + 1, sc + y[r]
        se += te[r]
        if effect:
            v, q = se / i, se / i * nt
        else:
            v = st_ / nt - sc / nc if nt and nc else None
            # no controls yet: nothing to compare with
            q = st_ - sc * nt / nc if nc else None
        lift.append(v)
        gain.append(None if v is None else v * i)
        qini.append(q)
    return lift, gain, qini


def filled(c):
    """undefined values lie on the line between their neighbours (they occur before the first defined one only)"""
    known = [i for i, v in enumerate(c) if v is not None]
    return np.interp(np.arange(len(c)), known, [c[i] for i in known])


@check.sub("curves", cases(), quick=200, thorough=6000, shards=8)
def curves_sub(case, ctx):
    df, t, S, y, te, (yn, xn, en) = make(case, case["seed"])
    n, k = case["n"], case["k"]
    kw = dict(outcome=yn, treatment=xn, treat=case["labels"][0], control=case["labels"][1], true_effect=en if case["effect"] else None)
    rn = case["random"]
    cols = [c for c in df.columns if c.startswith("s")]
    refs, at = {}, {}
    for c in cols:
        s = S[:, int(c[1:])]
        order = np.argsort(-s, kind="stable")
        refs[c] = [np.asarray(filled(q)) for q in curves(order, t, y, te, case["effect"])]
        raw = curves(order, t, y, te, case["effect"])
        cut = [0] + [i for i in range(1, n + 1) if i == n or s[order[i - 1]] > s[order[i]]]
        if len(cut) <= n:
            # tied: the curve is settled only where the ties end and the value is defined
            cut = [i for i in cut if all(raw[0][j] is not None for j in range(i, n + 1)) or i == 0]
        at[c] = (cut, raw, s[order])
    before = df.copy()
    got = {"lift": U.get_cumlift(df, random_name=rn, **kw)}
    got["gain"], gtop = U.get_gain(df, random_name=rn, normalize=False, return_top_point=True, **kw)
    got["qini"], qtop = U.get_qini(df, random_name=rn, normalize=False, return_top_point=True, **kw)
    M = U.UpliftModel()
    if case["refit"]:
        M.fit(make(case, case["seed"] + 1)[0], random=None, **kw)
    expect(M.fit(df, random=rn, **kw) is M, "fit does not return the model")
    fitted = {"lift": M.get_cumlift(), "gain": M.get_gain(), "qini": M.get_qini()}
    expect(df.equals(before), "the data were changed")
    for what, frames in (("function", got), ("model", fitted)):
        for i, name in enumerate(("lift", "gain", "qini")):
            f = frames[name]
            expect(list(f.index) == list(range(n + 1)) and sorted(f.columns) == sorted(cols + ([rn] if rn else [])), "%s %s: %s", what, name, f.iloc[:3])
            for c in cols:
                cut = at[c][0]
                expect_close(f[c].to_numpy()[cut], refs[c][i][cut], "%s of %s" % (name, c), rtol=1e-8, atol=1e-8)
            if rn:
                expect(f[rn].iloc[0] == 0, "%s: the random curve starts at %s", name, f[rn].iloc[0])
                expect_close(f[rn].iloc[-1], refs[cols[0]][i][-1], "%s: end of the random curve" % name, rtol=1e-8, atol=1e-8)
                expect(f[rn].notna().all(), "%s: undefined random curve", name)
    # the point of the largest gain
    for name, i, tops in (("gain", 1, [gtop, M.gain_top_point(), U.gain_top_point(df, **kw)]), ("qini", 2, [qtop, M.qini_top_point(), U.qini_top_point(df, **kw)])):
        for top in tops:
            expect(sorted(top.index) == sorted(cols), "%s top point of %s", name, list(top.index))
            for c in cols:
                if case["tied"]:
                    continue
                raw, ss = at[c][1][i], at[c][2]
                best = max(v for v in raw[1:] if v is not None)
                ok = [ss[j - 1] for j in range(1, n + 1) if raw[j] is not None and raw[j] >= best - 1e-9 * (1 + abs(best))]
                expect(any(abs(top[c] - o) < 1e-12 for o in ok), "%s top point of %s is %s, the best is at %s", name, c, top[c], ok)
    for c in cols:
        for f in (M.gain_top_point, M.qini_top_point, M.auuc_score, M.qini_score):
            expect(np.array_equal(f(c), f()[c], equal_nan=True), "%s by the name of the score", f.__name__)
    # scores
    ends = [refs[c][i][-1] for c in cols for i in (1, 2)]
    if min(abs(e) for e in ends) < 1e-6:
        ctx.event("nothing gained at the end")
    else:
        norm = {name: {c: refs[c][i] / abs(refs[c][i][-1]) for c in cols} for name, i in (("gain", 1), ("qini", 2))}
        for what, f, name in (("get_gain", U.get_gain(df, random_name=rn, **kw), "gain"), ("get_qini", U.get_qini(df, random_name=rn, **kw), "qini"),
                              ("model get_gain", M.get_gain(normalize=True), "gain"), ("model get_qini", M.get_qini(normalize=True), "qini")):
            for c in cols:
                cut = at[c][0]
                expect_close(f[c].to_numpy()[cut], norm[name][c][cut], "normalised %s of %s" % (what, c), rtol=1e-7, atol=1e-7)
        for what, f in (("lift", M.get_cumlift()), ("gain", M.get_gain()), ("qini", M.get_qini()), ("gain", M.get_gain(normalize=False)), ("qini", M.get_qini(normalize=False))):
            expect(f.equals(fitted[what]), "model %s, asked for again after the normalised one: %s", what, f.iloc[-1])
        if not case["tied"]:
            for normalize in (True, False):
                a = U.auuc_score(df, random_name=rn, normalize=normalize, **kw)
                want = {c: (norm["gain"][c] if normalize else refs[c][1]).sum() / (n + 1) for c in cols}
                for c in cols:
                    expect_close(a[c], want[c], "auuc_score of %s" % c, rtol=1e-7, atol=1e-7)
                    if normalize:
                        expect_close(M.auuc_score(c), want[c], "auuc_score of %s by the model" % c, rtol=1e-7, atol=1e-7)
                q = U.qini_score(df, random_name=rn, normalize=normalize, **kw)
                expect(sorted(q.index) == sorted(cols + ([rn] if rn else [])), "qini_score of %s", list(q.index))
                want = {c: (norm["qini"][c] if normalize else refs[c][2]).sum() / (n + 1) for c in cols}
                scores = [q] + ([M.qini_score()] if normalize else [])
                for s in scores:
                    for c in cols[1:]:
                        expect_close(s[c] - s[cols[0]], want[c] - want[cols[0]], "difference of the qini_scores", rtol=1e-6, atol=1e-6)
                if rn:
                    expect(abs(q[rn]) < 1e-9, "qini_score of the random ranking is %s", q[rn])
                    # the area of the mean of the random curves it used, by its own relation
                    f = U.get_qini(df, random_name=rn, normalize=normalize, **kw)
                    spread = np.ptp(f.to_numpy()) + 1
                    expect(abs(q[cols[0]] - (f[cols[0]].sum() - f[rn].sum()) / (n + 1)) < 3 * spread, "qini_score %s", q[cols[0]])
                # with the same random rankings: the area above their curve, under whatever name it goes or under none
                def seeded(f, **more):
                    np.random.seed(case["seed"] % 1000)
                    return f(df, normalize=normalize, **more, **kw)

                f = seeded(U.get_qini, random_name="RANDOM")
                for name in ("RANDOM", None, "other"):
                    q = seeded(U.qini_score, random_name=name)
                    for c in cols:
                        expect_close(q[c], (f[c].sum() - f["RANDOM"].sum()) / (n + 1), "qini_score of %s, random ranking called %s" % (c, name), rtol=1e-7, atol=1e-7)
                g = seeded(U.get_gain, random_name="RANDOM")
                for name in ("RANDOM", "other"):
                    a = seeded(U.auuc_score, random_name=name)
                    expect(sorted(a.index) == sorted(cols + [name]), "auuc_score of %s", list(a.index))
                    expect_close(a[name], g["RANDOM"].sum() / (n + 1), "auuc_score of the random ranking called %s" % name, rtol=1e-7, atol=1e-7)
    for f in (M.auuc_score, M.qini_score):
        expect(sorted(f().index) == sorted(cols) and (not rn or np.ndim(f(rn)) == 0), "scores of the model: %s", list(f().index))
    # what a model hands out is the caller's to change
    for f in (M.get_cumlift, M.get_gain, M.get_qini):
        mine = f()
        kept = mine.copy()
        mine.iloc[:, :] = -17.0
        mine["more"] = 1
        expect(f().equals(kept), "%s: changed by the caller of an earlier call", f.__name__)
    for f in (M.gain_top_point, M.qini_top_point, M.auuc_score, M.qini_score):
        mine = f()
        kept = mine.copy()
        mine.iloc[:] = -17.0
        expect(f().equals(kept), "%s: changed by the caller of an earlier call", f.__name__)
    # ranks matter only, not the order of the rows
    rng = np.random.RandomState(1)
    other = df.iloc[rng.permutation(n)].copy()
    for c in cols:
        other[c] = np.exp(other[c] / 3) * 5 - 2
    f = U.get_gain(other, random_name=None, normalize=False, **kw)
    for c in cols:
        cut = at[c][0]
        expect_close(f[c].to_numpy()[cut], refs[c][1][cut], "gain of a monotone function of %s" % c, rtol=1e-8, atol=1e-8)
    ctx.nontrivial(k > 1 and len(set(y if not case["effect"] else te)) > 1)
    ctx.event("true effect" if case["effect"] else "groups")
