"""P20: parallel-trends diagnostics."""
import itertools
import math
from .core import np, pd, isnan
from . import models as M
from . import rng as R
from scipy import special

PROPERTY = "P20"
RULE = ("one case = every pattern of unit-level pre-period changes over an alphabet (with ties) x treated split, or every panel shape x pre-period choice x presentation; the permutation draws are every "
        "arrangement of the changes; Wasserstein, Kolmogorov-Smirnov, slopes and the two one-sided tests are recomputed from their definitions")
ASSUMPTIONS = ["4-8 units, 2-6 periods", "a numerically exact trend (zero residual variance) is only required to give no finite verdict where a group has two observations",
               "changes are between a unit's consecutive observed pre-periods", "a run whose draws the enumerating generator cannot serve is not judged"]
ALPH = (-1.0, 0.0, 2.0)


def cases(tier):
    big = tier == "thorough"
    i = 0
    for n in (4, 5, 6) if big else (4, 5):
        for k in range(2, n - 1):
            for ch in itertools.product(ALPH, repeat=n):
                i += 1
                yield dict(kind="rob", ch=ch, k=k, seed=i % 7, mode=i % 6, thr=(0.2, 0.6, 5.0)[i % 3], unit=1)
    for n, T in ((4, 3), (4, 4), (5, 4), (6, 4), (6, 6)):
        for k in range(1, n):
            for s in range(6 if big else 3):
                for pp in range(6):
                    for unit in (0, 1):
                        for drop in (-1, 0, 3):
                            i += 1
                            yield dict(kind="panel", n=n, T=T, k=k, s=s, pp=pp, unit=unit, drop=drop, mode=i % 6, lab=i % 4, dt=i % 3, mg=i % 3)
    for n in (2, 3, 4, 5):
        for k in range(0, n + 1):
            for T in (1, 2, 3, 4):
                for ex in (0, 1):
                    i += 1
                    yield dict(kind="thin", n=n, k=k, T=T, ex=ex, s=i % 5)
    for s in range(12):
        yield dict(kind="nan", s=s)
    for a in range(40):
        yield dict(kind="ks", s=a, n=4 + a % 4, m=2 + a % 5)


def wass(a, b):
    """Integral of |F - G|."""
    pts = sorted(set(a) | set(b))
    t = 0.0
    for x, y in zip(pts, pts[1:]):
        t += (y - x) * abs(sum(v <= x for v in a) / len(a) - sum(v <= x for v in b) / len(b))
    return t


def ks_stat(a, b):
    return max(abs(sum(v <= x for v in a) / len(a) - sum(v <= x for v in b) / len(b)) for x in set(a) | set(b))


def ks_exact_p(n, m, d):
    """P(D >= d) over all arrangements of distinct values: lattice paths staying strictly inside the band."""
    L = np.zeros((n + 1, m + 1))
    for i in range(n + 1):
        for j in range(m + 1):
            if abs(i / n - j / m) >= d - 1e-12:
                L[i, j] = 0.0
            else:
                L[i, j] = 1.0 if i == j == 0 else (L[i - 1, j] if i else 0.0) + (L[i, j - 1] if j else 0.0)
    return 1 - L[n, m] / special.comb(n + m, n, exact=True)


def tcdf(t, df):
    x = df / (df + t * t)
    tail = 0.5 * special.betainc(df / 2, 0.5, x)
    return 1 - tail if t > 0 else tail


def check_equiv(cx, e, a, b, margin):
    a, b = np.asarray(a), np.asarray(b)
    if len(a) < 2 or len(b) < 2:
        cx.ok(all(isnan(e[x]) for x in ("tost_p_value", "lower_p_value", "upper_p_value", "se_difference")) and e["equivalent"] is None, "too few changes: no verdict", got=e)
        return
    va, vb = a.var(ddof=1), b.var(ddof=1)
    d = a.mean() - b.mean()
    cx.eq(e["mean_difference"], d, "difference of mean changes", atol=1e-10)
    scale = max(1e-300, np.abs(np.concatenate([a, b])).max())
    if va <= 1e-24 * scale ** 2 and vb <= 1e-24 * scale ** 2:
        if va == 0 and vb == 0:
            cx.ok(isnan(e["tost_p_value"]) and e["equivalent"] is None, "no variation: no verdict", got=e)
        return
    se = math.sqrt(va / len(a) + vb / len(b))
    mg = margin if margin is not None else 0.5 * np.concatenate([a, b]).std(ddof=1)
    df = se ** 4 / ((va / len(a)) ** 2 / (len(a) - 1) + (vb / len(b)) ** 2 / (len(b) - 1))
    tl, tu = (d + mg) / se, (d - mg) / se
    pl, pu = 1 - tcdf(tl, df), tcdf(tu, df)
    cx.eq([e["se_difference"], e["equivalence_margin"], e["degrees_of_freedom"]], [se, mg, df], "Welch standard error, margin and degrees of freedom", rtol=1e-7)
    cx.eq([e["lower_t_stat"], e["upper_t_stat"]], [tl, tu], "one-sided statistics", rtol=1e-7, atol=1e-9)
    cx.eq([e["lower_p_value"], e["upper_p_value"], e["tost_p_value"]], [pl, pu, max(pl, pu)], "two one-sided tests", rtol=1e-6, atol=1e-9)
    if abs(max(pl, pu) - 0.05) > 1e-9:
        cx.same(e["equivalent"], bool(max(pl, pu) < 0.05), "equivalence verdict")


def check_stats(cx, r, a, b, thr):
    a, b = list(a), list(b)
    cx.eq(np.sort(r["treated_changes"]), np.sort(a), "treated changes", atol=1e-10)
    cx.eq(np.sort(r["control_changes"]), np.sort(b), "control changes", atol=1e-10)
    if len(a) < 2 or len(b) < 2:
        cx.ok(isnan(r["wasserstein_p_value"]) and isnan(r["wasserstein_distance"]) and isnan(r["ks_p_value"]) and r["parallel_trends_plausible"] is None, "too few changes: no verdict", got=r)
        return False
    al = np.array(a + b)
    w = wass(a, b)
    sd = al.std(ddof=1)
    cx.eq(r["wasserstein_distance"], w, "Wasserstein distance", atol=1e-9)
    cx.eq(r["ks_statistic"], ks_stat(a, b), "Kolmogorov-Smirnov statistic", atol=1e-9)
    if len(set(al)) == len(al):
        cx.eq(r["ks_p_value"], ks_exact_p(len(a), len(b), ks_stat(a, b)), "Kolmogorov-Smirnov p-value", atol=1e-7)
    cx.eq(r["mean_difference"], np.mean(a) - np.mean(b), "mean difference", atol=1e-9)
    va, vb = np.var(a, ddof=1), np.var(b, ddof=1)
    if vb > 1e-20:
        cx.eq(r["variance_ratio"], va / vb, "variance ratio", rtol=1e-7, atol=1e-9)
    elif vb == 0:
        cx.ok(isnan(r["variance_ratio"]), "variance ratio without control variance", got=r["variance_ratio"])
    cx.same((r["n_treated"], r["n_control"]), (len(a), len(b)), "numbers of changes")
    p = r["wasserstein_p_value"]
    nz = w / sd if sd > 1e-12 else None
    if nz is not None:
        cx.eq(r["wasserstein_normalized"], nz, "normalised distance", rtol=1e-7, atol=1e-9)
    elif sd == 0:
        cx.ok(isnan(r["wasserstein_normalized"]), "normalised distance without spread")
    if (nz is None and sd == 0) or (nz is not None and abs(nz - thr) > 1e-9):
        cx.same(r["parallel_trends_plausible"], bool(p > 0.05 and (nz is None or nz < thr)), "verdict of the distributional check", p=p)
    return True


def rob(c, cx):
    import diff_diff.utils as U
    ch, k = c["ch"], c["k"]
    n = len(ch)
    base = M.gen(n, 40 + c["seed"])
    base = np.round(base * 4)
    rows = []
    for i in range(n):
        y = [base[i], base[i] + ch[i], base[i] + 9.0 * (i < k) + i * i, base[i] - 3.0 * i]
        for t in range(4):
            rows.append(dict(u="u%d" % ((i * 5) % 11), t=t, g=int(i < k), y=y[t]))
    df = M.present(pd.DataFrame(rows), c["mode"])
    before = df.copy(deep=True)
    a, b = list(ch[:k]), list(ch[k:])
    kw = dict(outcome="y", time="t", treatment_group="g", unit="u", wasserstein_threshold=c["thr"])
    f = lambda **z: U.check_parallel_trends_robust(df, **kw, **z)
    w = wass(a, b)
    share = np.mean([wass([ch[i] for i in s], [ch[i] for i in range(n) if i not in s]) >= w * (1 - 1e-11) for s in itertools.combinations(range(n), k)])
    free = cx.op(f, n_permutations=150, seed=6)["wasserstein_p_value"]
    cx.ok(abs(free - share) <= 7 * (share * (1 - share) / 150) ** 0.5 + 1e-9, "share of an ordinary run is far from the share of all splits", got=free, exact=share)
    probe = R.Feed(perm=[0])
    with R.controlled(probe):
        cx.attempt(f, n_permutations=1, seed=1)
    if not probe.ok() or len(probe.perms) != 1:
        cx.saw("uncontrolled")
        return
    drawn = len(probe.perms[0][1])
    N = R.n_arrangements(n, drawn)
    feed = R.Feed(perm=list(range(N)))
    with R.controlled(feed):
        r = cx.op(f, n_permutations=N, seed=1)
    if not feed.ok():
        cx.saw("uncontrolled")
        return
    check_stats(cx, r, a, b, c["thr"])
    cx.eq(r["wasserstein_p_value"], share, "share of all splits at least as distant", atol=1e-9)
    ones = []
    for q in range(min(N, 6)):
        feed = R.Feed(perm=[q])
        with R.controlled(feed):
            ones.append(cx.op(f, n_permutations=1, seed=2)["wasserstein_p_value"])
        if not feed.ok():
            cx.saw("uncontrolled")
            return
        cx.ok(ones[-1] in (0.0, 1.0), "one draw", got=ones[-1])
    feed = R.Feed(perm=list(range(len(ones))))
    with R.controlled(feed):
        r2 = cx.op(f, n_permutations=len(ones), seed=2)
    if feed.ok():
        cx.eq(r2["wasserstein_p_value"], np.mean(ones), "share over exactly the drawn splits", atol=1e-12)
        check_stats(cx, r2, a, b, c["thr"])
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    check_equiv(cx, cx.op(U.equivalence_test_trends, df, "y", "t", "g", "u"), a, b, None)
    cx.saw(r["wasserstein_p_value"], r["wasserstein_distance"], r["ks_p_value"], r["parallel_trends_plausible"])


def panel(c, cx):
    import diff_diff.utils as U
    n, T, k = c["n"], c["T"], c["k"]
    y = M.gen(n * T, 70 + c["s"]).reshape(n, T)
    L = [lambda t: t, lambda t: 2000 + 2 * t, lambda t: t + 0.5, lambda t: -3 + t][c["lab"]]
    rows = [dict(u=100 - 7 * i, t=L(t), g=int(i < k), y=y[i, t], i=i, p=t) for i in range(n) for t in range(T)]
    if c["drop"] >= 0:
        rows.pop(c["drop"])
    full = pd.DataFrame(rows)
    if c["dt"] == 1:
        full["g"] = full["g"].astype(float)
    elif c["dt"] == 2:
        full["g"] = full["g"].astype(bool)
    df = M.present(full, c["mode"])
    before = df.copy(deep=True)
    alls = list(range(T))
    pre = [alls[: T // 2], alls[:-1], [0, T - 2], alls, alls[1:], alls[: T // 2]][c["pp"]]
    pp = None if c["pp"] == 0 else [L(t) for t in pre][:: -1 if c["s"] % 2 else 1]
    sub = full[full["p"].isin(pre)].sort_values(["i", "p"])
    # slopes
    res, err = cx.attempt(U.check_parallel_trends, df, "y", "t", "g", pp)
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    want = {}
    for nm, gg in (("treated", 1), ("control", 0)):
        s = sub[sub["g"].astype(int) == gg]
        x, v = np.array([L(t) for t in s["p"]], float), s["y"].to_numpy()
        if len(x) < 2 or len(set(x)) < 2:
            want[nm] = (np.nan, np.nan)
        else:
            X = np.column_stack([np.ones(len(x)), x - x.mean()])
            b = np.linalg.lstsq(X, v, rcond=None)[0]
            u = v - X @ b
            want[nm] = (b[1], math.sqrt((u @ u) / (len(x) - 2) / ((x - x.mean()) ** 2).sum()) if len(x) > 2 else np.nan)
    if err is None:
        r = res
        for nm in ("treated", "control"):
            cx.eq([r[nm + "_trend"], r[nm + "_trend_se"]], want[nm], "slope and standard error of the %s" % nm, rtol=1e-7, atol=1e-9)
        d = want["treated"][0] - want["control"][0]
        se = math.hypot(want["treated"][1], want["control"][1])
        t = d / se if se > 0 else np.nan
        p = math.erfc(abs(t) / math.sqrt(2)) if t == t else np.nan
        cx.eq([r["trend_difference"], r["trend_difference_se"], r["t_statistic"], r["p_value"]], [d, se, t, p], "difference of slopes and its test", rtol=1e-6, atol=1e-9)
        cx.same(r["parallel_trends_plausible"], None if p != p else bool(p > 0.05), "verdict of the slope check")
        cx.saw(p)
    else:
        cx.ok(isinstance(err, ValueError) and sub["g"].astype(int).nunique() < 2, "slope check refuses only an empty group", err=repr(err))
    # changes
    ch = {1: [], 0: []}
    if c["unit"]:
        for i, s in sub.groupby("i"):
            ch[int(i < k)] += list(np.diff(s["y"].to_numpy()))
    else:
        for gg in (0, 1):
            mm = sub[sub["g"].astype(int) == gg].groupby("p")["y"].mean().sort_index().to_numpy()
            ch[gg] = list(np.diff(mm))
    un = "u" if c["unit"] else None
    r = cx.op(U.check_parallel_trends_robust, df, "y", "t", "g", un, pp, n_permutations=8, seed=3)
    if check_stats(cx, r, ch[1], ch[0], 0.2):
        cx.ok(0 <= r["wasserstein_p_value"] <= 1 and abs(r["wasserstein_p_value"] * 8 - round(r["wasserstein_p_value"] * 8)) < 1e-9, "p-value is a share of the permutations")
        r2 = cx.op(U.check_parallel_trends_robust, df, "y", "t", "g", un, pp, n_permutations=8, seed=3)
        cx.eq(r2["wasserstein_p_value"], r["wasserstein_p_value"], "same seed, same permutations", atol=0)
    mg = (None, 0.3, 2.0)[c["mg"]]
    check_equiv(cx, cx.op(U.equivalence_test_trends, df, "y", "t", "g", un, pp, mg), ch[1], ch[0], mg)
    cx.ok(M.frame_equal(df, before), "input frame untouched")
    # post-treatment data is irrelevant
    d2 = df.copy()
    out = ~d2["p"].isin(pre)
    d2.loc[out.to_numpy(), "y"] = 1e3 + np.arange(out.sum()) ** 2 if out.any() else 0.0
    if out.any():
        e2 = cx.op(U.equivalence_test_trends, d2, "y", "t", "g", un, pp, mg)
        e1 = cx.op(U.equivalence_test_trends, df, "y", "t", "g", un, pp, mg)
        cx.eq([e2["mean_difference"], e2["tost_p_value"]], [e1["mean_difference"], e1["tost_p_value"]], "only pre-treatment data is used", rtol=1e-12)
    cx.saw(r["wasserstein_distance"])


def thin(c, cx):
    """Hardly any data: no finite verdict may come from an unidentified quantity."""
    import diff_diff.utils as U
    n, k, T = c["n"], c["k"], c["T"]
    y = M.gen(n * T, 90 + c["s"]).reshape(n, T)
    df = pd.DataFrame([dict(u=i, t=t, g=int(i < k), y=y[i, t]) for i in range(n) for t in range(T)])
    pp = list(range(T))
    if c["ex"]:
        df = df[~((df.u % 2 == 1) & (df.t > 0))]
    sizes = {g: df[df.g == g] for g in (0, 1)}
    res, err = cx.attempt(U.check_parallel_trends, df, "y", "t", "g", pp)
    est = all(len(s) > 2 and s["t"].nunique() > 1 for s in sizes.values())
    if err is not None:
        cx.ok(any(s.empty for s in sizes.values()), "slope check refuses only an empty group", err=repr(err))
    elif not est:
        r = res
        cx.ok(isnan(r["p_value"]) and isnan(r["t_statistic"]) and r["parallel_trends_plausible"] is None, "slope without a standard error gives no verdict", got=r)
    for f in (U.check_parallel_trends_robust, U.equivalence_test_trends):
        o = cx.op(f, df, "y", "t", "g", "u", pp)
        if min(len(s) - s["u"].nunique() for s in sizes.values()) < 2:
            cx.ok(o.get("parallel_trends_plausible", o.get("equivalent")) is None and isnan(o["mean_difference"]), "too few changes: no verdict", got=o)
    cx.saw(est, n, k, T)


def nan(c, cx):
    """Rows without an outcome add no change."""
    import diff_diff.utils as U
    s = c["s"]
    y = M.gen(6 * 4, 30 + s).reshape(6, 4)
    df = pd.DataFrame([dict(u=i, t=t, g=int(i < 3), y=y[i, t]) for i in range(6) for t in range(4)])
    df.loc[(s * 5) % 24, "y"] = np.nan
    ch = {0: [], 1: []}
    for i, q in df.groupby("u"):
        d = np.diff(q["y"].to_numpy())
        ch[int(i < 3)] += list(d[~np.isnan(d)])
    pp = [0, 1, 2, 3]
    r = cx.op(U.check_parallel_trends_robust, df, "y", "t", "g", "u", pp, n_permutations=5, seed=1)
    check_stats(cx, r, ch[1], ch[0], 0.2)
    check_equiv(cx, cx.op(U.equivalence_test_trends, df, "y", "t", "g", "u", pp, 0.4), ch[1], ch[0], 0.4)
    q = cx.op(U.check_parallel_trends, df, "y", "t", "g", pp)
    cx.ok(q["parallel_trends_plausible"] is None or not isnan(q["p_value"]), "a verdict comes with a p-value", got=q)
    cx.saw(r["wasserstein_distance"])


def ks(c, cx):
    import diff_diff.utils as U
    n, m, s = c["n"], c["m"], c["s"]
    y = M.gen((n + m) * 2, 200 + s).reshape(n + m, 2) + np.array([[0, 1.3 * (i < n) * (s % 3)] for i in range(n + m)])
    df = pd.DataFrame([dict(u=i, t=t, g=int(i < n), y=y[i, t]) for i in range(n + m) for t in range(2)])
    r = cx.op(U.check_parallel_trends_robust, df, "y", "t", "g", "u", [0, 1], n_permutations=3, seed=1)
    d = y[:, 1] - y[:, 0]
    check_stats(cx, r, d[:n], d[n:], 0.2)
    cx.saw(r["ks_p_value"])


def run(case, cx):
    globals()[case["kind"]](case, cx)
