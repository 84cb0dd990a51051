"""P18: placebo, permutation and leave-one-out diagnostics."""
import itertools
import math
from .core import np, pd, isnan
from . import models as M
from . import rng as R

PROPERTY = "P18"
RULE = ("timing: every fake period x every post set of a 3-6 period panel; group: every fake group of the never-treated units; permutation: every reassignment of the treated units "
        "(all at once, every single one, every pair); leave-one-out: every treated set; each against cell means and the basic estimator on the documented subset")
ASSUMPTIONS = ["4-7 units, 2-6 periods", "the basic estimator itself is decided by P03", "a placebo effect within 1e-11 of the estimate ties and counts, one 1e-11 to 1e-9 below may go either way",
               "a run whose draws the enumerating generator cannot serve is not judged"]


def panel(n, T, treated, seed, ulab=0, tlab=0, mode=0, gaps=0, binary=False, npost=None):
    y = M.gen(n * T, 700 + seed).reshape(n, T)
    x = M.gen(n * T, 800 + seed).reshape(n, T)
    U = [lambda i: i, lambda i: "u%s" % "gfedcba"[i], lambda i: 100 - 7 * i][ulab]
    L = [lambda t: t, lambda t: 2000 + t, lambda t: "p%d" % t, lambda t: t + 0.5][tlab]
    rows = []
    for i in range(n):
        for t in range(T):
            if gaps and (i + t) % 5 == 4 and 0 < t < T - 1:
                continue
            rows.append(dict(u=U(i), t=L(t), tr=int(i in treated), y=y[i, t] + (2.0 if i in treated and npost and t >= T - npost else 0.0), x=x[i, t], po=int(npost is not None and t >= T - npost), i=i, tt=t))
    df = pd.DataFrame(rows)
    return M.present(df, mode), U, L


def did(d, D, P):
    """Difference of differences of the four cell means."""
    y = d["y"].values
    D, P = np.asarray(D, bool), np.asarray(P, bool)
    m = [y[a & b] for a in (D, ~D) for b in (P, ~P)]
    if any(len(v) == 0 for v in m):
        return None
    m = [v.mean() for v in m]
    return m[0] - m[1] - m[2] + m[3]


KW = ({}, {"robust": False}, {"cluster": "u"}, {"robust": True})


def cases(tier):
    big = tier == "thorough"
    i = 0
    for T in (3, 4, 5, 6):
        posts = [None] + [c for r in range(1, T - 1) for c in itertools.combinations(range(T), r)]
        for post in posts:
            for fake in range(T):
                for rep in range(3 if big else 1):
                    i += 1
                    yield dict(kind="timing", T=T, post=post, fake=fake, n=5 + i % 2, kw=i % 4, ulab=i % 3, tlab=i // 2 % 4, mode=i % 6, gaps=i % 5 == 0, alpha=(0.05, 0.1, 0.3)[i % 3], via=i % 2, seed=i % 7)
    for n in (4, 5, 6, 7):
        for k in (1, 2):
            for treated in list(itertools.combinations(range(n), k))[:: (1 if big else 3)]:
                ctrl = [j for j in range(n) if j not in treated]
                for r in range(1, len(ctrl)):
                    for fg in itertools.combinations(ctrl, r):
                        i += 1
                        yield dict(kind="group", n=n, T=3 + i % 3, treated=treated, fg=fg, post=i % 3, kw=i % 4, ulab=i % 3, tlab=i // 2 % 4, mode=i % 6, gaps=i % 5 == 0, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7, sw=int(i % 3 == 1))
    for n in (3, 4, 5):
        for k in range(1, n):
            for treated in itertools.combinations(range(n), k):
                i += 1
                if n == 5 and k == 4 and not big and i % 2:
                    continue
                yield dict(kind="perm", n=n, T=2 + i % 3, treated=treated, kw=i % 4, ulab=i % 3, tlab=0, mode=i % 6, gaps=i % 3 == 0, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7,)
                for m in range(1, n - 1) if n > 3 else ():
                    for miss in list(itertools.combinations(range(n), m))[:: (1 if big else 2)]:
                        i += 1
                        yield dict(kind="perm", n=n, T=2 + i % 3, treated=treated, kw=i % 4, ulab=i % 3, tlab=0, mode=i % 6, gaps=False, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7, miss=list(miss),
                                   act=("error", "silent", "warn")[i // 2 % 3])
    for n, k in ((8, 2), (9, 2), (10, 3)) + (((12, 2), (11, 4)) if big else ()):
        for q in range(3):                                # more units than every arrangement can be forced for: ordinary runs
            i += 1
            yield dict(kind="perm", n=n, T=2 + i % 3, treated=tuple(range(k)), kw=i % 4, ulab=0, tlab=0, mode=i % 6, gaps=False, alpha=0.05, seed=i % 7, many=1)
    for n in (4, 5):
        for a, b in itertools.permutations(range(n), 2):  # a reassignment just short of the original effect does not count
            i += 1
            yield dict(kind="perm", n=n, T=2 + i % 2, treated=(a,), kw=i % 4, ulab=i % 3, tlab=0, mode=i % 6, gaps=False, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7, near=b)
    for n in (3, 4, 5, 6):
        for k in range(1, n):
            for treated in itertools.combinations(range(n), k):
                i += 1
                yield dict(kind="loo", n=n, T=max(2 + i % 3, 3 if n == 3 else 2), treated=treated, kw=i % 4, ulab=i % 3, tlab=0, mode=i % 6, gaps=i % 3 == 0, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7, via=i % 2,)
    for n in (4, 5, 6):
        for k in range(2, n):
            for treated in itertools.combinations(range(n), k):
                for m in range(1, n - 1):
                    for miss in list(itertools.combinations(range(n), m))[i % 3::(2 if big else 7)]:
                        i += 1
                        yield dict(kind="loo", n=n, T=2 + i % 3, treated=treated, kw=i % 4, ulab=i % 3, tlab=0, mode=i % 6, gaps=False, alpha=(0.05, 0.1, 0.3)[i % 3], seed=i % 7, via=i % 2, miss=list(miss),
                                   act=("error", "silent", "warn")[i // 2 % 3])
    for k in range(16):
        yield dict(kind="all", k=k)
    for k in range(20):
        yield dict(kind="refuse", k=k)


def like(cx, r, f, alpha, tag):
    cx.eq([r.placebo_effect, r.se, r.t_stat, r.p_value, *r.conf_int], [f.att, f.se, f.t_stat, f.p_value, *f.conf_int], tag + ": the basic estimator on the documented subset", rtol=1e-9)
    cx.same((r.n_obs, r.alpha, bool(r.is_significant)), (f.n_obs, alpha, bool(f.p_value < alpha)), tag + ": observations, level, verdict")
    cx.same(r.significance_stars, M.stars(r.p_value), "stars")


def run(c, cx):
    import diff_diff as dd
    {"timing": timing, "group": group, "perm": perm, "loo": loo, "all": every, "refuse": refuse}[c["kind"]](c, cx, dd)


def timing(c, cx, dd):
    T, kw, alpha = c["T"], dict(KW[c["kw"]]), c["alpha"]
    df, U, L = panel(c["n"], T, (0, 2), c["seed"], c["ulab"], c["tlab"], c["mode"], c["gaps"])
    post = list(range(T // 2, T)) if c["post"] is None else list(c["post"])
    before = df.copy()
    args = dict(outcome="y", treatment="tr", time="t", post_periods=None if c["post"] is None else [L(t) for t in post], alpha=alpha, **kw)
    fn = (lambda: dd.placebo_timing_test(df, fake_treatment_period=L(c["fake"]), **args)) if c["via"] else \
         (lambda: dd.run_placebo_test(df, test_type="fake_timing", fake_treatment_period=L(c["fake"]), **args))
    pre = [t for t in range(T) if t not in post]
    if c["fake"] in post or not [t for t in pre if t < c["fake"]]:
        cx.raises("fake period that is post-treatment or has nothing before it", ValueError, fn)
        return
    r = cx.op(fn)
    sub = df[~df["tt"].isin(post)].copy()
    sub["fp"] = (sub["tt"] >= c["fake"]).astype(int)
    f = cx.op(dd.DifferenceInDifferences(alpha=alpha, **kw).fit, sub, outcome="y", treatment="tr", time="fp")
    like(cx, r, f, alpha, "fake timing")
    cx.eq(r.placebo_effect, did(sub, sub.tr, sub.fp), "fake timing: difference of differences before treatment", rtol=1e-7)
    full = df.copy()
    full["pp"] = full["tt"].isin(post).astype(int)
    g = cx.op(dd.DifferenceInDifferences(**kw).fit, full, outcome="y", treatment="tr", time="pp")
    cx.eq([r.original_effect, r.original_se], [g.att, g.se], "original estimate")
    cx.same((r.test_type, r.fake_period), ("fake_timing", L(c["fake"])), "labels")
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    # post-treatment outcomes are irrelevant for the placebo
    d2 = df.copy()
    d2.loc[d2["tt"].isin(post).values, "y"] += 100.0
    r2 = cx.op(dd.placebo_timing_test, d2, fake_treatment_period=L(c["fake"]), **args)
    cx.eq([r2.placebo_effect, r2.se], [r.placebo_effect, r.se], "post-treatment data is not used", rtol=1e-12)
    cx.saw(r.placebo_effect, r.se)


def group(c, cx, dd):
    T, kw, alpha = c["T"], dict(KW[c["kw"]]), c["alpha"]
    df, U, L = panel(c["n"], T, c["treated"], c["seed"], c["ulab"], c["tlab"], c["mode"], c["gaps"], npost=1)
    post = list(range(T // 2, T)) if c["post"] == 0 else [T - 1] if c["post"] == 1 else [0, T - 1]
    fg = [U(i) for i in c["fg"]]
    if c.get("sw"):                                       # the treatment column switches on when treatment starts
        df["tr"] = df["tr"] * (df["tt"] >= T - 1)
    before, fg0 = df.copy(), list(fg)
    kws = dict(outcome="y", time="t", unit="u", post_periods=None if c["post"] == 0 else [L(t) for t in post], alpha=alpha, **kw)
    r = cx.op(dd.run_placebo_test, df, treatment="tr", test_type="FAKE_group", fake_treatment_group=fg, **kws)
    sub = df[~df["i"].isin(c["treated"])].copy()
    sub["fd"] = sub["i"].isin(c["fg"]).astype(int)
    sub["fp"] = sub["tt"].isin(post).astype(int)
    f = cx.op(dd.DifferenceInDifferences(alpha=alpha, **kw).fit, sub, outcome="y", treatment="fd", time="fp")
    like(cx, r, f, alpha, "fake group")
    cx.eq(r.placebo_effect, did(sub, sub.fd, sub.fp), "fake group: difference of differences among never treated", rtol=1e-7)
    r2 = cx.op(dd.placebo_group_test, df[~df["i"].isin(c["treated"])], fake_treated_units=fg, **kws)
    like(cx, r2, f, alpha, "fake group (direct)")
    cx.same((r.test_type, list(r.fake_group)), ("fake_group", fg), "labels")
    cx.ok(M.frame_equal(df, before) and fg == fg0, "inputs untouched")
    cx.saw(r.placebo_effect)


def perm(c, cx, dd):
    n, T, kw, alpha = c["n"], c["T"], dict(KW[c["kw"]]), c["alpha"]
    treated = c["treated"]
    df, U, L = panel(n, T, treated, c["seed"], c["ulab"], c["tlab"], c["mode"], c["gaps"], npost=1 + (T > 3))
    k = len(treated)
    if c.get("near") is not None:                         # shift one control so that its placebo effect is 0.04% smaller in size
        a = {j: did(df, df["i"] == j, df["po"]) for j in range(n)}
        t0, b = treated[0], c["near"]
        # effects are linear in the shift h of unit b after treatment: own +h, others -h/(n-1)
        q = 1 - 4e-4
        h = (q * a[t0] - a[b]) / (1 + q / (n - 1))
        df.loc[(df["i"] == b) & (df["po"] == 1), "y"] += h
    before = df.copy()
    args = dict(outcome="y", treatment="tr", time="po", unit="u", alpha=alpha, **kw)
    fn = [lambda **z: dd.permutation_test(df, **args, **z), lambda **z: dd.run_placebo_test(df, test_type="permutation", **args, **z)][c["seed"] % 2]
    if c.get("miss"):
        # units never observed after treatment make some reassignments infeasible: they are counted out
        df = df[~(df["i"].isin(c["miss"]) & (df["po"] == 1))].copy()
        before = df.copy()
        args["rank_deficient_action"] = c["act"]
    eff = {s: did(df, df["i"].isin(s), df["po"]) for s in itertools.combinations(range(n), k)}
    free, e = cx.attempt(fn, n_permutations=20, seed=8)
    if e is None:
        R.members(cx, free.permutation_distribution, [v for v in eff.values() if v is not None], "permutation draws")
        if eff[tuple(treated)] is not None:
            stats_of(cx, c, free, np.asarray(free.permutation_distribution, float), eff[tuple(treated)], df, dd, kw)
    if c.get("many"):
        cx.saw(e is None)
        return
    probe = R.Feed(perm=[0])
    with R.controlled(probe):
        cx.attempt(fn, n_permutations=1, seed=3)
    if not probe.ok() or len(probe.perms) != 1:
        cx.saw("uncontrolled")
        free, e = cx.attempt(fn, n_permutations=300, seed=9)
        if e is None:
            R.frequencies(cx, free.permutation_distribution, [v for v in eff.values() if v is not None], "permutation draws")
        return
    kk = len(probe.perms[0][1])
    N = R.n_arrangements(n, kk)
    feed = R.Feed(perm=list(range(N)))
    with R.controlled(feed):
        r, told = cx.warns(fn, n_permutations=N, seed=5)
    if not feed.ok():
        cx.saw("uncontrolled")
        return
    if c.get("miss"):
        if eff[tuple(treated)] is None:
            return
        ok = [v for v in eff.values() if v is not None]
        want = np.sort(np.repeat(ok, N // len(eff)))
        cx.eq(np.sort(np.asarray(r.permutation_distribution, float)), want, "every feasible reassignment equally often, infeasible ones left out", rtol=1e-7, atol=1e-9)
        stats_of(cx, c, r, np.asarray(r.permutation_distribution, float), eff[tuple(treated)], df, dd, kw)
        cx.ok(M.frame_equal(df, before), "input frame untouched")
        lost = 1 - len(ok) / len(eff)
        cx.ok(lost <= 0.1 or any("failed" in str(w) for w in told), "infeasible reassignments are not announced", share=lost, told=told)
        if N <= 24:
            # runs in which nothing as extreme was drawn: the p-value is floored by the feasible draws
            one = {}
            for q in range(N):
                feed = R.Feed(perm=[q])
                with R.controlled(feed):
                    x, e = cx.attempt(fn, n_permutations=1, seed=5)
                if not feed.ok():
                    return
                one[q] = None if e is not None else float(x.permutation_distribution[0])
            bad = [q for q in one if one[q] is None]
            small = [q for q in one if one[q] is not None and abs(one[q]) < 0.999 * abs(eff[tuple(treated)])]
            for real in [small[:1] * 2 + bad[:2], bad[:1] + small[:3], bad[:3] + small[-2:]] if small and bad else []:
                feed = R.Feed(perm=real)
                with R.controlled(feed):
                    x, e = cx.attempt(fn, n_permutations=len(real), seed=5)
                if e is None and feed.ok():
                    w = [one[q] for q in real if one[q] is not None]
                    cx.eq(list(x.permutation_distribution), w, "feasible reassignments", rtol=1e-9)
                    stats_of(cx, c, x, np.array(w), eff[tuple(treated)], df, dd, kw)
        cx.saw(r.p_value, len(ok))
        return
    got = np.sort(np.asarray(r.permutation_distribution, float))
    want = np.sort(np.repeat(list(eff.values()), N // len(eff)))
    cx.eq(got, want, "every reassignment of %d units equally often" % k, rtol=1e-7, atol=1e-9)
    dist = np.asarray(r.permutation_distribution, float)
    stats_of(cx, c, r, dist, eff[tuple(treated)], df, dd, kw)
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    picks = [[a] for a in range(min(N, 24))] + [[a, b] for a, b in itertools.combinations(range(min(N, 8)), 2)] + [[0, 0, N - 1]]
    for real in picks:
        feed = R.Feed(perm=real)
        with R.controlled(feed):
            r = cx.op(fn, n_permutations=len(real), seed=5)
        if not feed.ok():
            cx.saw("uncontrolled")
            return
        cx.eq(r.permutation_distribution, dist[real], "distribution of exactly the drawn reassignments", rtol=1e-9)
        stats_of(cx, c, r, dist[real], eff[tuple(treated)], df, dd, kw)
    cx.saw(r.p_value, *dist[:3])


def stats_of(cx, c, r, dist, att, df, dd, kw):
    B = len(dist)
    alpha = c["alpha"]
    cx.same((r.test_type, r.n_permutations, r.n_obs, r.alpha), ("permutation", B, len(df), alpha), "labels")
    cx.eq(r.original_effect, att, "original estimate", rtol=1e-7)
    lo = max(np.mean(np.abs(dist) >= abs(att) * (1 - 1e-11)) if abs(att) > 1e-6 else np.mean(np.abs(dist) > abs(att) * (1 + 1e-9) + 1e-12), 1 / (B + 1))
    hi = max(np.mean(np.abs(dist) >= abs(att) * (1 - 1e-9) - 1e-12), 1 / (B + 1))
    cx.ok(lo - 1e-12 <= r.p_value <= hi + 1e-12, "share of placebo effects at least as extreme", got=r.p_value, lo=lo, hi=hi)
    exact = np.sum(dist == r.original_effect)
    if exact:           # identical reassignment is at least as extreme
        cx.ok(r.p_value >= max(exact / B, 1 / (B + 1)) - 1e-12, "ties count as extreme", got=r.p_value)
    mean = dist.sum() / B
    sd = math.sqrt(((dist - mean) ** 2).sum() / (B - 1)) if B > 1 else float("nan")
    cx.eq([r.placebo_effect, r.se], [mean, sd], "mean and spread of the placebo effects", rtol=1e-7, atol=1e-9)
    if sd == sd and sd > 1e-9:
        cx.eq(r.t_stat, att / sd, "t statistic", rtol=1e-6)
    elif not sd == sd:
        cx.ok(isnan(r.t_stat), "no spread, no t statistic", got=r.t_stat)
    cx.eq(list(r.conf_int), [np.percentile(dist, 100 * alpha / 2), np.percentile(dist, 100 * (1 - alpha / 2))], "percentile interval", rtol=1e-7, atol=1e-9)
    cx.same(bool(r.is_significant), bool(r.p_value < alpha), "verdict")


def loo(c, cx, dd):
    n, T, kw, alpha, treated = c["n"], c["T"], dict(KW[c["kw"]]), c["alpha"], c["treated"]
    df, U, L = panel(n, T, treated, c["seed"], c["ulab"], 0, c["mode"], c["gaps"], npost=1 + (T > 3))
    if c.get("miss"):
        df = df[~(df["i"].isin(c["miss"]) & (df["po"] == 1))].copy()
        kw["rank_deficient_action"] = c["act"]
    before = df.copy()
    args = dict(outcome="y", treatment="tr", time="po", unit="u", alpha=alpha, **kw)
    fn = (lambda: dd.leave_one_out_test(df, **args)) if c["via"] else (lambda: dd.run_placebo_test(df, test_type="leave_one_out", **args))
    if len(treated) == 1:
        cx.raises("one treated unit cannot be left out", RuntimeError, fn)
        return
    want = {}
    for u in treated:
        d = df[df["i"] != u]
        want[U(u)] = did(d, d.tr, d.po)
    if c.get("miss"):
        # leaving a unit out may empty a cell: that estimate is missing and does not count
        if did(df, df.tr, df.po) is None:
            return
        ok = np.array([w for w in want.values() if w is not None])
        if len(ok) == 0:
            cx.raises("no feasible leave-one-out estimate", RuntimeError, fn)
            return
        r, w = cx.warns(fn)
        cx.ok(len(ok) == len(want) or any("leave-one-out" in str(x) for x in w), "failed estimates are not announced", w=[str(x)[:80] for x in w])
        for u, v in want.items():
            got = r.leave_one_out_effects.get(u, float("nan"))
            cx.ok(isnan(got) if v is None else abs(got - v) < 1e-7, "estimate without the unit", unit=u, got=got, want=v)
        cx.eq(r.placebo_effect, ok.mean(), "mean of the feasible estimates", rtol=1e-7)
        if len(ok) > 1:
            cx.eq(r.se, ok.std(ddof=1), "spread of the feasible estimates", rtol=1e-6, atol=1e-9)
            M.check_inference(cx, r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, alpha, len(ok) - 1, "leave-one-out")
        else:
            cx.ok(all(isnan(v) for v in (r.se, r.t_stat, r.p_value, *r.conf_int)) and not r.is_significant, "a verdict from one estimate", se=r.se, p=r.p_value)
        cx.saw(*ok)
        return
    r = cx.op(fn)
    cx.same(set(r.leave_one_out_effects), set(want), "one estimate per treated unit")
    for u, v in want.items():
        cx.eq(r.leave_one_out_effects[u], v, "estimate without the unit", rtol=1e-7, unit=u)
    v = np.array(list(want.values()))
    mean, sd = v.mean(), (math.sqrt(((v - v.mean()) ** 2).sum() / (len(v) - 1)))
    cx.eq([r.placebo_effect, r.se], [mean, sd], "mean and spread", rtol=1e-7)
    cx.eq(r.original_effect, did(df, df.tr, df.po), "original estimate", rtol=1e-7)
    M.check_inference(cx, r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, alpha, len(v) - 1, "leave-one-out")
    cx.same((bool(r.is_significant), r.n_obs, r.alpha, r.test_type), (bool(r.p_value < alpha), len(df), alpha, "leave_one_out"), "labels")
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    text = cx.op(r.summary)
    g = list(r.leave_one_out_effects.values())
    cx.ok("%.4f" % r.placebo_effect in text and "%.4f" % min(g) in text and "%.4f" % max(g) in text, "summary shows the distribution")
    cx.saw(mean, sd)


def every(c, cx, dd):
    k = c["k"]
    # binary time: the panel whose time column is the post indicator, plus calendar version for the timing tests
    df, U, L = panel(6, 4, (0, 1, 2), 40 + k, k % 3, 0, k % 6, False, npost=2)
    d = df.copy()
    feed_seed = (3, 0)[k // 8]
    res = cx.op(dd.run_all_placebo_tests, d, outcome="y", treatment="tr", time="t", unit="u", pre_periods=[0, 1], post_periods=[2, 3], n_permutations=5, seed=feed_seed, alpha=0.1)
    cx.same(sorted(res), sorted(["fake_timing_1", "permutation", "leave_one_out"]), "one entry per test")
    one = cx.op(dd.placebo_timing_test, d, outcome="y", treatment="tr", time="t", fake_treatment_period=1, post_periods=[2, 3], alpha=0.1)
    cx.same(res["fake_timing_1"].to_dict(), one.to_dict(), "the same timing test")
    # more periods, treatment later than half way
    df6, U6, L6 = panel(6, 6, (1, 4), 50 + k, k % 3, k % 4, k % 6, k % 5 == 0)
    for post in ([5], [4, 5], [3, 5], [2, 3, 4, 5]):
        pre = [t for t in range(6) if t not in post]
        res6 = cx.op(dd.run_all_placebo_tests, df6, outcome="y", treatment="tr", time="t", unit="u", pre_periods=[L6(t) for t in pre], post_periods=[L6(t) for t in post], n_permutations=2, seed=1, alpha=0.3, **KW[k % 4])
        cx.same(sorted(res6), sorted(["fake_timing_%s" % L6(t) for t in pre[1:]] + ["permutation", "leave_one_out"]), "one entry per test")
        for t in pre[1:]:
            o = cx.op(dd.placebo_timing_test, df6, outcome="y", treatment="tr", time="t", fake_treatment_period=L6(t), post_periods=[L6(t) for t in post], alpha=0.3, **KW[k % 4])
            got = res6["fake_timing_%s" % L6(t)]
            cx.ok(not isinstance(got, dict) and got.to_dict() == o.to_dict() and got.original_effect == o.original_effect, "the same timing test", period=t, post=post)
    # with a calendar time column the two group tests cannot run: reported, not invented
    for t in ("permutation", "leave_one_out"):
        cx.ok(isinstance(res[t], dict) and res[t].get("error_type") and res[t].get("test_type") == t, "failing test is reported", got=res[t])
    res = cx.op(dd.run_all_placebo_tests, d, outcome="y", treatment="tr", time="po", unit="u", pre_periods=[0], post_periods=[1], n_permutations=5, seed=feed_seed, alpha=0.1)
    a = cx.op(dd.permutation_test, d, outcome="y", treatment="tr", time="po", unit="u", n_permutations=5, seed=feed_seed, alpha=0.1)
    b = cx.op(dd.leave_one_out_test, d, outcome="y", treatment="tr", time="po", unit="u", alpha=0.1)
    cx.same(res["permutation"].to_dict(), a.to_dict(), "the same permutation test")
    cx.same(res["leave_one_out"].to_dict(), b.to_dict(), "the same leave-one-out test")
    cx.same(res["leave_one_out"].leave_one_out_effects, b.leave_one_out_effects, "the same leave-one-out effects")
    cx.ok(M.frame_equal(d, df), "input frame untouched")
    cx.saw(one.placebo_effect, a.p_value)


def refuse(c, cx, dd):
    k = c["k"]
    df, U, L = panel(6, 4, (0, 1), 3, npost=2)
    T = lambda **z: dd.run_placebo_test(df, **{**dict(outcome="y", treatment="tr", time="t", unit="u", post_periods=[2, 3]), **z})
    if k == 0:
        cx.raises("unknown test", ValueError, T, test_type="bogus")
    elif k in (1, 2, 3):
        cx.raises("unit is required", ValueError, T, test_type=("fake_group", "permutation", "leave_one_out")[k - 1], unit=None, fake_treatment_group=[3])
    elif k in (4, 5):
        cx.raises("fake group is required", ValueError, T, test_type="fake_group", fake_treatment_group=(None, [])[k - 4])
    elif k == 6:
        cx.raises("empty fake group", ValueError, dd.placebo_group_test, df, "y", "t", "u", [])
    elif k == 7:
        cx.raises("fake group of unknown units", ValueError, T, test_type="fake_group", fake_treatment_group=[77])
    elif k in (8, 9, 10):
        cx.raises("fake group with treated units", ValueError, T, test_type="fake_group", fake_treatment_group=([0], [0, 1], [1, 4])[k - 8])
    elif k == 11:
        cx.raises("fake group of every unit", ValueError, T, test_type="fake_group", fake_treatment_group=[2, 3, 4, 5])
    elif k in (12, 13, 14, 15, 16):
        cx.raises("fake period", (ValueError, TypeError), T, test_type="fake_timing", fake_treatment_period=(2, 3, 0, 99, None)[k - 12])
    elif k == 17:       # identical treated units: no spread
        d = df.copy()
        d["y"] = [float((i + t) ** 2 % 7) if i > 1 else float(t) for i, t in zip(d["i"], d["tt"])]
        r = cx.op(dd.leave_one_out_test, d, "y", "tr", "po", "u")
        cx.ok(r.se == 0 or isnan(r.se), "spread of identical estimates", se=r.se)
        cx.ok(isnan(r.t_stat) and isnan(r.p_value) and not r.is_significant, "no usable spread, no verdict", t=r.t_stat, p=r.p_value)
    elif k == 18:       # failing reassignments are counted out
        d = df[~((df["i"] == 5) & (df["po"] == 1))].copy()
        d = d[~((d["i"].isin([0, 1, 2, 3])) & (d["i"] < 0))]
        dd2 = d[(d["i"].isin([0, 5])) | (d["i"] == 2)].copy()
        feed = R.Feed(perm=[0, 1, 2])
        with R.controlled(feed):
            r, e = cx.attempt(dd.permutation_test, dd2, "y", "tr", "po", "u", n_permutations=3)
        if e is None and feed.ok():
            ok = [did(dd2, dd2["i"].isin([s]), dd2["po"]) for s in (0, 2, 5)]
            ok = [v for v in ok if v is not None]
            cx.same(r.n_permutations, len(ok), "failed reassignments do not count")
            cx.eq(np.sort(r.permutation_distribution), np.sort(ok), "only the feasible reassignments", rtol=1e-7)
    else:
        a = cx.op(dd.permutation_test, df, "y", "tr", "po", "u", n_permutations=7, seed=4)
        b = cx.op(dd.permutation_test, df, "y", "tr", "po", "u", n_permutations=7, seed=4)
        cx.eq(a.permutation_distribution, b.permutation_distribution, "same seed, same reassignments", rtol=0, atol=0)
    cx.saw(k)
