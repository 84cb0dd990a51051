"""P12: resampled variance of synthetic DiD with every draw decided by the explorer."""
import itertools
import math
from .core import np, pd
from . import models as M
from . import rng as R
from .p11 import build, ULAB, TLAB

PROPERTY = "P12"
RULE = ("one case = panel layout x variance method x realisation: placebo realisations are all permutations of the controls (and every "
        "single permutation repeated / paired), bootstrap realisations are all N^N unit draws or those with a fixed number of treated")
ASSUMPTIONS = ["2-4 controls, 1-2 treated units, 3-4 periods", "the effect on a drawn sample is what the estimator itself reports for that sample (decided by P11)",
               "a run whose draws the enumerating generator cannot serve is not judged (outcome 'uncontrolled')"]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for nc, nt, T in itertools.product((1, 2, 3, 4), (1, 2), (3, 4)):
        for where in range(nc + nt):
            for lam in (0.0, 5.0):
                n = math.factorial(nc)
                reals = ["all"] + ([] if n < 2 else [[a, b] for a, b in itertools.combinations(range(n), 2)][:60 if not big else 400]) + [[k] for k in range(min(n, 3))]
                for real in reals:
                    i += 1
                    yield dict(kind="placebo", nc=nc, nt=nt, T=T, where=where, lam=lam, real=real, lab=i % 5, mode=i % 6, cov=int(i % 4 == 0), alpha=(0.05, 0.2)[i % 2])
    for nc, nt in ((2, 1), (1, 1), (1, 2), (2, 2), (3, 1)):
        N = nc + nt
        for where in range(N):
            if N == 4 and where % 2 and not big:
                continue
            for real in ["all"] + list(range(N + 1)):
                if N == 4 and real == "all" and not big:
                    continue
                i += 1
                yield dict(kind="boot", nc=nc, nt=nt, T=3 + i % 2, where=where, lam=(0.0, 5.0)[i % 2], real=real, lab=i % 5, mode=i % 6, cov=0, alpha=(0.05, 0.2)[i % 2])
    for k in range(4):
        yield dict(kind="zero", k=k)


def run(case, cx):
    import diff_diff as dd
    if case["kind"] == "zero":
        return zero(case["k"], cx, dd)
    nc, nt, T, lab = case["nc"], case["nt"], case["T"], case["lab"]
    df, y, x, treated = build(nc, nt, case["where"], T, 1, lab, case["mode"])
    pre, post = list(range(T - 2)) if T > 3 else [0, 1], list(range(T - 2, T)) if T > 3 else [2]
    arg = [TLAB[lab](t) for t in post]
    covs = ["x1"] if case["cov"] else None
    fit = lambda est, d, **k: est.fit(d, outcome="y", treatment="tr", unit="unit", time="time", post_periods=arg, covariates=covs, **k)
    base = cx.op(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="placebo", n_bootstrap=3, seed=2), df)
    N = nc + nt
    ctrl = [i for i in range(N) if i not in treated]
    w = np.array([base.unit_weights[ULAB[lab](i)] for i in ctrl])
    v = np.array([base.time_weights[TLAB[lab](t)] for t in pre])
    alpha = case["alpha"]
    if case["kind"] == "placebo":
        n = math.factorial(nc)
        real = list(range(n)) if case["real"] == "all" else case["real"]
        feed = R.Feed(perm=real)
        B = len(real)
        with R.controlled(feed):
            r, msgs = cx.warns(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="placebo", n_bootstrap=B, seed=9, alpha=alpha), df)
        if nc - nt < 1:
            cx.eq(r.att, base.att, "point estimate", atol=1e-12)
            honest(cx, r, msgs, "too few controls for placebo")
            return
        Z = y
        if covs:
            Xf = np.array([[1.0, x[i, t]] + [1.0 * (i == j) for j in range(1, N)] + [1.0 * (t == s) for s in range(1, T)] for i in range(N) for t in range(T)])
            if N * T <= Xf.shape[1]:
                return
            b = np.linalg.lstsq(Xf, y.ravel(), rcond=None)[0]
            Z = (y.ravel() - Xf @ b + y.mean()).reshape(N, T)
        # order of the controls inside the implementation: not assumed for "all"; for explicit realisations read from the drawn sets
        order = list(range(nc))
        labs = sorted([ULAB[lab](i) for i in ctrl])
        byl = [[i for i in ctrl if ULAB[lab](i) == l][0] for l in labs]
        def placebo(seq):
            pc, pt = seq[:nc - nt], seq[nc - nt:]
            ww = np.array([w[ctrl.index(i)] for i in pc])
            ww = ww / ww.sum() if ww.sum() > 0 else np.ones(len(pc)) / len(pc)
            did = lambda row: row[post].mean() - v @ row[pre]
            return did(Z[pt].mean(axis=0)) - sum(a * did(Z[i]) for a, i in zip(ww, pc))
        free = cx.op(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="placebo", n_bootstrap=30, seed=12, alpha=alpha), df)
        R.members(cx, free.placebo_effects, [placebo([i for i in ctrl if i not in s] + list(s)) for s in itertools.combinations(ctrl, nt)], "placebo draws")
        cx.eq([free.att, free.se], [base.att, np.std(free.placebo_effects)], "ordinary placebo run", rtol=1e-6, atol=1e-9) if np.std(free.placebo_effects) > 1e-9 else None
        if not feed.ok():
            cx.saw("uncontrolled")
            free = cx.op(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="placebo", n_bootstrap=400, seed=15, alpha=alpha), df)
            R.frequencies(cx, free.placebo_effects, [placebo([i for i in ctrl if i not in s] + list(s)) for s in itertools.combinations(ctrl, nt)], "placebo draws")
            return
        want = []
        for items, pos in feed.perms:
            seq = [byl[int(items[p])] for p in pos]
            want.append(placebo(seq))
        want = np.array(want)
        cx.eq(r.att, base.att, "point estimate", atol=1e-12)
        if B < 2:
            honest(cx, r, msgs, "one placebo replication")
            cx.saw(want[0])
            return
        cx.eq(np.sort(r.placebo_effects), np.sort(want), "placebo effects of the drawn sets", atol=1e-7)
        if np.std(want) < 1e-9:
            cx.ok(np.isnan(r.se) or r.se < 1e-8, "standard error of replicates that do not vary", se=r.se)
            return
        cx.eq(r.se, np.std(want, ddof=0), "placebo standard error", rtol=1e-6, atol=1e-9)
        if r.se > 1e-9:
            a = np.abs(want)
            if np.abs(a - abs(r.att)).min() > 1e-8:
                cx.eq(r.p_value, max(np.mean(a >= abs(r.att)), 1 / (B + 1)), "placebo p-value", atol=1e-9)
            common(cx, r, alpha)
        cx.same(r.variance_method, "placebo", "variance label")
        cx.saw(r.att, r.se, r.p_value)
        return
    # bootstrap: number of treated among the draws is renumbering-proof only within groups; index order is treated first or by label, so use
    # realisations closed under all permutations of unit numbers: everything, or all draws with a given number of distinct units
    rows = R.cube(N, N)
    if case["real"] != "all":
        rows = [q for q in rows if len(set(q)) == case["real"]]
    if len(rows) < 2:
        return
    est = dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="bootstrap", n_bootstrap=len(rows), seed=4, alpha=alpha)
    memo = {}

    def effect(q):
        key = tuple(sorted(q))
        if key not in memo:
            if all(i in treated for i in key) or not any(i in treated for i in key):
                memo[key] = None
            else:
                d = pd.concat([df[df.unit == ULAB[lab](i)].assign(unit="s%02d" % j) for j, i in enumerate(key)], ignore_index=True)
                memo[key] = fit(dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="placebo", n_bootstrap=3, seed=2), d).att
        return memo[key]
    want = [effect(q) for q in rows]
    ok = np.array([q for q in want if q is not None])
    free, e = cx.attempt(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="bootstrap", n_bootstrap=30, seed=13, alpha=alpha), df)
    if e is None:
        reach = [effect(q) for q in itertools.combinations_with_replacement(range(N), N)]
        R.members(cx, free.placebo_effects, [q for q in reach if q is not None], "unit bootstrap")
    feed = R.Feed(elem=[e for q in rows for e in q])
    with R.controlled(feed):
        r, e = cx.attempt(fit, est, df)
    if not feed.ok():
        cx.saw("uncontrolled")
        if e is None and case["real"] == "all" and N <= 4:
            free = cx.op(fit, dd.SyntheticDiD(lambda_reg=case["lam"], variance_method="bootstrap", n_bootstrap=400, seed=15, alpha=alpha), df)
            R.frequencies(cx, free.placebo_effects, ok, "unit bootstrap")
        return
    if len(ok) == 0:
        cx.ok(isinstance(e, ValueError), "every replicate fails but the fit did not say so", e=str(e))
        cx.saw("none")
        return
    if e is not None:
        cx.bad("bootstrap failed: %s: %s" % (type(e).__name__, e))
        return
    cx.eq(r.att, base.att, "point estimate", atol=1e-12)
    if len(ok) < 2:
        honest(cx, r, None, "fewer than two successful replicates")
        return
    cx.eq(np.sort(r.placebo_effects), np.sort(ok), "bootstrap effects of the drawn samples", atol=1e-6)
    if np.std(ok, ddof=1) < 1e-9:
        cx.ok(np.isnan(r.se) or r.se < 1e-8, "standard error of replicates that do not vary", se=r.se)
        return
    cx.eq(r.se, np.std(ok, ddof=1), "bootstrap standard error", rtol=1e-5, atol=1e-8)
    cx.same((r.variance_method, r.n_bootstrap), ("bootstrap", len(rows)), "variance labels")
    if r.se > 1e-8:
        cx.eq(r.p_value, M.pval(r.att / r.se, None), "p-value against zero", rtol=1e-6, atol=1e-10)
        common(cx, r, alpha)
    cx.saw(r.att, r.se)


def common(cx, r, alpha):
    cx.eq(r.t_stat, r.att / r.se, "t statistic", rtol=1e-9)
    c = M.crit(alpha, None) * r.se
    cx.eq(list(r.conf_int), [r.att - c, r.att + c], "interval", atol=1e-9)
    cx.same(bool(r.is_significant), bool(r.p_value < alpha), "significance verdict")


def honest(cx, r, msgs, tag):
    cx.ok(np.isnan(r.se) or r.se == 0, tag + ": standard error", se=r.se)
    cx.ok(np.isnan(r.t_stat) and np.isnan(r.p_value) and not r.is_significant, tag + ": inference must be missing", t=r.t_stat, p=r.p_value)
    if msgs is not None:
        cx.ok(len(msgs) > 0, tag + ": no warning")
    cx.saw(tag)


def zero(k, cx, dd):
    df, y, x, treated = build(4, 1, 1, 4, 3, k, 0)
    kw = dict(outcome="y", treatment="tr", unit="unit", time="time", post_periods=[TLAB[k](2), TLAB[k](3)])
    if k < 2:       # documented: n_bootstrap=0 means placebo-based inference
        r = cx.op(dd.SyntheticDiD(n_bootstrap=0, seed=k).fit, df, **kw)
        cx.same(r.variance_method, "placebo", "n_bootstrap=0 falls back to placebo inference")
        cx.ok(r.se > 0 and np.isfinite(r.p_value), "placebo inference with n_bootstrap=0", se=r.se)
    else:
        r = cx.op(dd.SyntheticDiD(n_bootstrap=60, seed=k).fit, df, **kw)
        common(cx, r, 0.05)
        cx.eq(r.p_value, M.pval(r.att / r.se, None), "p-value against zero", rtol=1e-6)
    cx.saw(r.se)
