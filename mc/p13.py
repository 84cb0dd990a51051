"""P13: triple difference."""
import itertools
from .core import np, pd
from . import models as M
from . import csmodel as C

PROPERTY = "P13"
RULE = ("one case = vector of the eight cell sizes (all of {1,2}^8; {1,2,3}^8 in thorough) x method x robust/cluster x indicator types x "
        "presentation, or a covariate configuration; distinct by effect and standard error")
ASSUMPTIONS = ["logit agreement to 1e-4 on fixed 40-60 row samples with overlap", "2-3 observations per cell at most in the exhaustive family"]
CELLS = list(itertools.product((0, 1), repeat=3))
METH = ("reg", "ipw", "dr")


def cases(tier):
    big = tier == "thorough"
    i = 0
    for sizes in itertools.product((1, 2, 3) if big else (1, 2), repeat=8):
        for m in range(3):
            i += 1
            yield dict(kind="cells", sizes=sizes, m=m, cl=int(i % 4 == 0), robust=int(i % 3 != 0), dt=i % 4, mode=i % 6, alpha=(0.05, 0.1)[i % 2])
    for k in range(8):
        for hi in (5, 9, 20):
            for m in range(3):
                i += 1
                sizes = [2] * 8
                sizes[k] = hi
                yield dict(kind="cells", sizes=sizes, m=m, cl=int(i % 4 == 0), robust=int(i % 3 != 0), dt=i % 4, mode=i % 6, alpha=0.05)
    for seed in range(20 if not big else 80):
        for m in range(3):
            for nx in (1, 2):
                for cl in (0, 1):
                    i += 1
                    yield dict(kind="cov", seed=seed, m=m, nx=nx, cl=cl, mode=i % 6, trim=(0.01, 0.3)[int(i % 5 == 0)], dup=int(seed % 4 == 3 and nx == 2))
    for k in range(27):
        for m in range(3):
            yield dict(kind="refuse", k=k, m=m)


def frame(sizes, seed, dt, mode, nx=0):
    rows = []
    for (g, p, t), n in zip(CELLS, sizes):
        rows += [(g, p, t)] * n
    A = np.array(rows)
    n = len(A)
    y = M.gen(n, 500 + seed) + 3 * A[:, 0] - 2 * A[:, 1] + A[:, 2] + 4 * A.prod(axis=1)
    df = pd.DataFrame(dict(y=y, G=A[:, 0], P=A[:, 1], T=A[:, 2]))
    df["clu"] = ["c%d" % (((i + i // 4 + seed) % max(3, n // 3))) for i in range(n)]
    df["x1"] = M.gen(n, 601 + seed) + 0.8 * A[:, 0] - 0.5 * A[:, 1]
    df["x2"] = M.gen(n, 602 + seed) - 0.4 * A[:, 0]
    if nx:
        df["y"] = df.y + 1.5 * df.x1 - 0.7 * df.x2 * (1 if nx > 1 else 0)
    cast = {0: int, 1: float, 2: bool, 3: "int8"}[dt]
    for c in "GPT":
        df[c] = df[c].astype(cast)
    return M.present(df, mode)


def contrast(means):
    return sum(v * (-1) ** (3 - sum(k)) for k, v in means.items())


def run(case, cx):
    import diff_diff as dd
    if case["kind"] == "refuse":
        return refuse(case, cx, dd)
    if case["kind"] == "cov":
        return cov(case, cx, dd)
    m = METH[case["m"]]
    df = frame(case["sizes"], sum(case["sizes"]) % 5, case["dt"], case["mode"])
    n = len(df)
    if m == "reg" and n <= 8:
        return
    before = df.copy(deep=True)
    est = lambda: dd.TripleDifference(estimation_method=m, robust=bool(case["robust"]), cluster="clu" if case["cl"] else None, alpha=case["alpha"])
    kw = dict(outcome="y", group="G", partition="P", time="T")
    r = cx.op(est().fit, df, **kw)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    A = df[["G", "P", "T"]].to_numpy().astype(float)
    y = df.y.to_numpy()
    idx = {c: np.flatnonzero((A == c).all(axis=1)) for c in CELLS}
    means = {c: y[i].mean() for c, i in idx.items()}
    att = contrast(means)
    cx.eq(r.att, att, "eight-cell contrast (%s)" % m, atol=1e-8)
    nm = lambda c: "%s, %s, %s" % ("Treated" if c[0] else "Control", "Eligible" if c[1] else "Ineligible", "Post" if c[2] else "Pre")
    cx.same(sorted(r.group_means), sorted(nm(c) for c in CELLS), "group mean labels")
    for c in CELLS:
        cx.eq(r.group_means[nm(c)], means[c], "mean of cell %s" % nm(c), atol=1e-9)
    cnt = lambda g, p: len(idx[g, p, 0]) + len(idx[g, p, 1])
    cx.same((r.n_obs, r.n_treated_eligible, r.n_treated_ineligible, r.n_control_eligible, r.n_control_ineligible), (n, cnt(1, 1), cnt(1, 0), cnt(0, 1), cnt(0, 0)), "counts")
    dev = np.zeros(n)
    for c, i in idx.items():
        dev[i] = (y[i] - means[c]) / len(i)
    X = np.array([[1.0, g, p, t, g * p, g * t, p * t, g * p * t] for g, p, t in A])
    cl = df.clu.to_numpy() if case["cl"] else None
    sgn = np.array([(-1.0) ** (3 - a.sum()) for a in A])
    if m == "reg":
        b, V, u = M.ols(X, y, cl, "hc1" if case["robust"] else "classical")
        cx.eq(r.r_squared, 1 - u @ u / ((y - y.mean()) ** 2).sum(), "R-squared", atol=1e-9)
        var = V[7, 7]
    elif cl is None:
        var = sum(y[i].var(ddof=1) / len(i) for i in idx.values() if len(i) > 1)
    else:
        g = pd.Series(dev * sgn).groupby(pd.factorize(cl)[0]).sum()
        var = float((g ** 2).sum() * len(g) / (len(g) - 1))
    if var > 1e-16:
        cx.eq(r.se, np.sqrt(var), "standard error (%s, robust=%d, cluster=%d)" % (m, case["robust"], case["cl"]), rtol=1e-6, atol=1e-9)
        M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, case["alpha"], max(n - 8, 1), "effect")
        cx.same(bool(r.is_significant), bool(r.p_value < case["alpha"]), "significance verdict")
    else:
        cx.ok(not r.se > 1e-7 and not r.is_significant or r.se < 1e-7, "no variation: inference", se=r.se, p=r.p_value)
    if case["cl"]:
        cx.same(int(r.n_clusters), len(set(cl)), "number of clusters")
    # constants per level of anything except the full interaction
    z = 2.0 + 3 * A[:, 0] - 5 * A[:, 1] + 7 * A[:, 2] + 1.5 * A[:, 0] * A[:, 1] - 2.5 * A[:, 0] * A[:, 2] + 0.5 * A[:, 1] * A[:, 2]
    r2 = cx.op(est().fit, df.assign(y=df.y + 100 * z), **kw)
    cx.eq(r2.att, att, "effect after level shifts", atol=1e-7)
    cx.eq(r2.se, r.se, "standard error after level shifts", rtol=1e-5, atol=1e-7)
    r3 = cx.op(dd.triple_difference, df, estimation_method=m, robust=bool(case["robust"]), cluster="clu" if case["cl"] else None, alpha=case["alpha"], **kw)
    cx.eq([r3.att, r3.se, r3.p_value], [r.att, r.se, r.p_value], "shortcut function", atol=1e-12)
    cx.saw(r.att, r.se)


def cov(case, cx, dd):
    m, nx, seed = METH[case["m"]], case["nx"], case["seed"]
    sizes = [4 + (seed * (k + 3) + k) % 5 for k in range(8)]
    df = frame(sizes, 40 + seed, 0, case["mode"], nx)
    xc = ["x1", "x2"][:nx]
    if case["dup"]:
        df["x2"] = 3 - 2 * df.x1
    n = len(df)
    A = df[["G", "P", "T"]].to_numpy().astype(float)
    y = df.y.to_numpy()
    X = df[xc].to_numpy()
    kw = dict(outcome="y", group="G", partition="P", time="T", covariates=xc)
    est = lambda: dd.TripleDifference(estimation_method=m, cluster="clu" if case["cl"] else None, pscore_trim=case["trim"], rank_deficient_action="silent")
    before = df.copy(deep=True)
    r = cx.op(est().fit, df, **kw)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    cl = df.clu.to_numpy() if case["cl"] else None
    Xr = X[:, :1] if case["dup"] else X
    idx = {c: np.flatnonzero((A == c).all(axis=1)) for c in CELLS}
    if m == "reg":
        D = np.array([[1.0, g, p, t, g * p, g * t, p * t, g * p * t] for g, p, t in A])
        b, V, u = M.ols(np.hstack([D, Xr]), y, cl)
        cx.eq(r.att, b[7], "saturated regression coefficient", atol=1e-7)
        cx.eq(r.se, np.sqrt(V[7, 7]), "its standard error", rtol=1e-6)
        cx.eq(r.r_squared, 1 - u @ u / ((y - y.mean()) ** 2).sum(), "R-squared", atol=1e-8)
    else:
        p = {}
        for nme, d in (("G", A[:, 0]), ("P", A[:, 1])):
            q, beta = C.logit(Xr, d)
            if not np.isfinite(beta).all():
                return
            p[nme] = np.clip(q, case["trim"], 1 - case["trim"])
        pc = {(1, 1): p["G"] * p["P"], (1, 0): p["G"] * (1 - p["P"]), (0, 1): (1 - p["G"]) * p["P"], (0, 0): (1 - p["G"]) * (1 - p["P"])}
        pc = {k: np.clip(v, case["trim"], 1 - case["trim"]) for k, v in pc.items()}
        att, inf, own = 0.0, np.zeros(n), np.zeros(n)
        for (g, q, t), i in idx.items():
            s = (-1.0) ** (3 - g - q - t)
            ref = idx[1, 1, t]
            w = pc[1, 1][i] / pc[g, q][i]
            w = w / w.sum()
            if m == "ipw" or (g, q) == (1, 1):
                if (g, q) == (1, 1):
                    w = np.ones(len(i)) / len(i)
                mu, base = np.zeros(len(i)), np.zeros(len(ref))
            elif len(i) > nx + 1:
                Z = np.column_stack([np.ones(len(i)), Xr[i]])
                b = np.linalg.lstsq(Z, y[i], rcond=None)[0]
                mu, base = Z @ b, np.column_stack([np.ones(len(ref)), Xr[ref]]) @ b
            else:
                mu, base = np.full(len(i), y[i].mean()), np.full(len(ref), y[i].mean())
            own[i] = y[i].mean() if len(i) <= nx + 1 else np.column_stack([np.ones(len(i)), Xr[i]]) @ np.linalg.lstsq(np.column_stack([np.ones(len(i)), Xr[i]]), y[i], rcond=None)[0]
            c = w @ (y[i] - mu)
            att += s * (c + base.mean())
            inf[i] += s * w * (y[i] - mu - c)
            inf[ref] += s * (base - base.mean()) / len(ref)
        cx.eq(r.att, att, "%s effect" % m, rtol=1e-4, atol=1e-4)
        if cl is None:
            var = sum((inf[i] ** 2).sum() * len(i) / (len(i) - 1) for i in idx.values())
        else:
            g = pd.Series(inf).groupby(pd.factorize(cl)[0]).sum()
            var = float((g ** 2).sum() * len(g) / (len(g) - 1))
        cx.eq(r.se, np.sqrt(var), "%s standard error" % m, rtol=2e-3, atol=1e-5)
        if m == "dr":
            cx.eq(r.r_squared, 1 - ((y - own) ** 2).sum() / ((y - y.mean()) ** 2).sum(), "R-squared of the outcome models", atol=1e-6)
        cx.ok(r.pscore_stats is not None and abs(r.pscore_stats["P(G=1) mean"] - p["G"].mean()) < 1e-4, "reported propensity", got=r.pscore_stats)
    M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, 0.05, max(n - 8 - nx, 1), "effect")
    # outcomes exactly linear in the covariates: regression and doubly robust methods recover the contrast exactly
    if m != "ipw":
        cellc = A @ np.array([2.0, -1.0, 3.0]) + 4.25 * A.prod(axis=1)
        r2 = cx.op(est().fit, df.assign(y=cellc + Xr @ np.array([1.7, -0.6][:Xr.shape[1]])), **kw)
        cx.eq(r2.att, 4.25, "%s on outcomes linear in the covariates" % m, atol=1e-5)
    r4 = cx.op(est().fit, df.assign(y=df.y + 1000.0), **kw)
    cx.eq([r4.att, r4.se], [r.att, r.se], "level shift with covariates", rtol=1e-5, atol=1e-5)
    cx.saw(r.att, r.se)


def refuse(case, cx, dd):
    k = case["k"]
    df = frame([2] * 8, 1, 0, 0)
    est = dd.TripleDifference(estimation_method=METH[case["m"]])
    F = lambda d, **k2: est.fit(d, **{**dict(outcome="y", group="G", partition="P", time="T"), **k2})
    if k < 8:
        g, p, t = CELLS[k]
        f = lambda: F(df[~((df.G == g) & (df.P == p) & (df["T"] == t))])
    else:
        nan = df.copy()
        nan.loc[3, "y"] = np.nan
        nx = df.copy()
        nx.loc[3, "x1"] = np.nan
        f = [lambda: F(df, outcome="zz"), lambda: F(df, group="zz"), lambda: F(df, partition="zz"), lambda: F(df, time="zz"), lambda: F(df, covariates=["zz"]),
             lambda: F(df.assign(G=df.G + 1)), lambda: F(nan), lambda: F(nx, covariates=["x1"]), lambda: F(df.assign(P=[0, 1, 2, 0] * 4)),
             lambda: dd.TripleDifference(cluster="zz").fit(df, outcome="y", group="G", partition="P", time="T"),
             lambda: dd.TripleDifference(estimation_method=METH[case["m"]], cluster="clu").fit(df.assign(clu="a"), outcome="y", group="G", partition="P", time="T"),
             lambda: dd.TripleDifference(estimation_method=METH[case["m"]], cluster="clu").fit(df.assign(clu=[None] + list(df.clu[1:])), outcome="y", group="G", partition="P", time="T"),
             lambda: F(df.to_dict("list")), lambda: F(df.assign(T=df["T"] * 2)), lambda: F(df.assign(G=0)), lambda: F(df.assign(T=[None] + list(df["T"][1:]))),
             lambda: F(df.iloc[:0]), lambda: F(df.assign(G=[0.5] + list(df.G[1:]))), lambda: F(df.assign(P=list(df.P[:-1]) + [0.25]))][k - 8]
    cx.raises("invalid call %d" % k, (ValueError, KeyError, TypeError), f)
    cx.saw(k)
