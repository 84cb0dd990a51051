"""P03: the basic estimator against cell means / the explicit dummy regression."""
import itertools
from .core import np, pd
from . import models as M

PROPERTY = "P03"
RULE = ("one case = one vector of cell counts x covariance option x covariates/fixed effects x call style x presentation; "
        "effect checked on every outcome basis vector (linearity) and generic outcomes; distinct by the reported effect")
ASSUMPTIONS = ["cell counts 1..3 (thorough 1..4), at most 2 covariates and 2 fixed-effect columns",
               "as many rows as parameters (an exact fit) is excluded"]
NAMES = [("y", "treated", "post"), ("log wage", "D", "t"), ("out", "time", "treat"), ("y1", "x", "x1x"), ("post_y", "treat", "treat_post"), ("a", "b", "c"), ("Y", "is.treated", "after-2000")]
COVN = [("x1", "x_b"), ("t", "x"), ("treat2", "e"), ("x1", "x2"), ("post", "tr"), ("bc", "b_c"), ("is", "200")]     # partly contained in the other names


def cases(tier):
    big = tier == "thorough"
    r = (1, 2, 3, 4) if big else (1, 2, 3)
    i = 0
    for cells in itertools.product(r, repeat=4):
        for se in ("hc1", "classical", "cluster"):
            for cov in (0, 1, 2):
                for style in ((0, 1, 2) if big or cov < 2 else (i % 3,)):
                    i += 1
                    yield dict(kind="cells", cells=cells, se=se, cov=cov, style=style, mode=i % 6, names=i % 7, dt=i % 4)
    for cells in itertools.product((2, 3), repeat=4):
        for fe in (1, 2):
            for se in ("hc1", "cluster"):
                i += 1
                yield dict(kind="fe", cells=cells, fe=fe, se=se, mode=i % 6, cov=i % 2)
    for nu in (3, 4, 5):
        for T in (2, 3, 4):
            for nt in range(1, nu):
                for cov in (0, 1):
                    for ab in (0, 1, 2):
                        i += 1
                        yield dict(kind="absorb", nu=nu, T=T, nt=nt, cov=cov, ab=ab, drop=-1, mode=i % 6)
    for nu, T in ((4, 3), (4, 4)) if big else ((4, 3),):
        for nt in (1, 2, 3):
            for drop in range(nu * T):
                for cov in (0, 1):
                    i += 1
                    yield dict(kind="absorb", nu=nu, T=T, nt=nt, cov=cov, ab=0, drop=drop, mode=i % 6)
    for k in range(19):
        yield dict(kind="refuse", k=k)
    for cells in ((0, 2, 2, 2), (2, 0, 2, 2), (2, 2, 0, 2), (2, 2, 2, 0)):
        yield dict(kind="empty", cells=cells)


def build(cells, i0=0):
    rows = []
    for c, n in enumerate(cells):
        rows += [(c >> 1, c & 1)] * n
    D = np.array([r[0] for r in rows])
    P = np.array([r[1] for r in rows])
    n = len(rows)
    return D, P, n


def run(case, cx):
    import diff_diff as dd
    globals()["k_" + case["kind"]](case, cx, dd)


def k_cells(case, cx, dd):
    D, P, n = build(case["cells"])
    ncov = case["cov"]
    k = 4 + ncov
    if n <= k:
        return
    yn, dn, tn = NAMES[case["names"]]
    Xc = M.gen(n * 2, 11).reshape(n, 2)[:, :ncov]
    covn = list(COVN[case["names"]][:ncov])
    X = np.column_stack([np.ones(n), D, P, D * P, Xc])
    cl = np.array(["c%d" % ((i * 3 + 1) % 4) for i in range(n)]) if case["se"] == "cluster" else None
    G = None if cl is None else len(set(cl))
    kw = dict(robust=case["se"] != "classical", alpha=0.1 if case["dt"] == 1 else 0.05)
    if cl is not None:
        kw["cluster"] = "clu"
    ys = [M.gen(n, 4), M.gen(n, 8) * 100 + 1000]
    if ncov == 0 and case["style"] == 0:
        ys += [np.eye(n)[i] for i in range(n)]
    for yi, y in enumerate(ys):
        df = pd.DataFrame({yn: y, dn: D, tn: P})
        for j, c in enumerate(covn):
            df[c] = Xc[:, j]
        if cl is not None:
            df["clu"] = cl
        if case["dt"] == 2:
            df[dn] = df[dn].astype(bool)
            df[tn] = df[tn].astype(bool)
        elif case["dt"] == 3:
            df[dn] = df[dn].astype(float)
            df[tn] = df[tn].astype("int8")
        df["_row"] = np.arange(n)
        df = M.present(df, case["mode"])
        order = df["_row"].to_numpy()
        before = df.copy(deep=True)
        est = cx.op(dd.DifferenceInDifferences, **kw)
        if case["style"] == 0:
            r = cx.op(est.fit, df, outcome=yn, treatment=dn, time=tn, covariates=covn or None)
        elif case["style"] == 1:
            r = cx.op(est.fit, df, formula="%s ~ %s * %s%s" % (yn, dn, tn, "".join(" + " + c for c in covn)))
        else:
            r = cx.op(est.fit, df, formula="%s ~ %s + %s%s + %s:%s" % (yn, dn, tn, "".join("+" + c for c in covn), dn, tn))
        cx.ok(M.frame_equal(df, before), "input frame was modified")
        b, V, u = M.ols(X, y, cl, "classical" if case["se"] == "classical" else "hc1")
        if ncov == 0:
            m = {(d, p): y[(D == d) & (P == p)].mean() for d in (0, 1) for p in (0, 1)}
            cx.eq(r.att, m[1, 1] - m[1, 0] - m[0, 1] + m[0, 0], "effect vs cell means", atol=1e-8)
        cx.eq(r.att, b[3], "effect vs regression", atol=1e-8)
        s2 = max(abs(V[3, 3]), 1e-12)
        cx.eq(r.se, np.sqrt(max(V[3, 3], 0)), "standard error", rtol=1e-6, atol=1e-7)
        M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, kw["alpha"], n - k, "effect")
        cx.eq(list(r.coefficients.values()), b, "coefficients", atol=1e-8)
        cx.same(set(r.coefficients) >= {dn, tn, *covn}, True, "coefficient names")
        for nm, j in [(dn, 1), (tn, 2)] + [(c, 4 + jj) for jj, c in enumerate(covn)]:
            cx.eq(r.coefficients.get(nm), b[j], "coefficient of %s" % nm, atol=1e-8)
        cx.eq(r.vcov, V, "covariance", rtol=1e-6, atol=1e-8 * max(1e-3, np.abs(V).max()))
        cx.eq(r.residuals, u[order], "residuals", atol=1e-8 * max(1, np.abs(y).max()))
        cx.eq(r.fitted_values, (y - u)[order], "fitted values", atol=1e-8 * max(1, np.abs(y).max()))
        sst = ((y - y.mean()) ** 2).sum()
        cx.eq(r.r_squared, 1 - (u @ u) / sst, "R-squared", atol=1e-8)
        cx.same((r.n_obs, r.n_treated, r.n_control), (n, int(D.sum()), int(n - D.sum())), "counts")
        cx.same(r.inference_method, "analytical", "inference label")
        cx.ok(est.results_ is r and est.is_fitted_, "fitted state")
        if yi == 0:
            cx.saw(r.att, r.se)
            e = cx.raises("predict", (NotImplementedError, RuntimeError), est.predict, df)


def k_fe(case, cx, dd):
    D, P, n = build(case["cells"])
    f1 = np.array([(i * 2 + D[i]) % 3 for i in range(n)])
    f2 = np.array([["n", "s"][(i // 2 + P[i]) % 2] for i in range(n)])
    y = M.gen(n, 6)
    x = M.gen(n, 61)
    fes = ["f1", "f2"][:case["fe"]]
    X = [np.ones((n, 1)), np.column_stack([D, P, D * P])] + ([x.reshape(-1, 1)] if case["cov"] else [])
    for f in (f1, f2)[:case["fe"]]:
        X.append(M.dummies(list(f), True))
    X = np.hstack(X)
    if np.linalg.matrix_rank(X) < X.shape[1] or n <= X.shape[1]:
        cx.saw("singular")
        return
    df = pd.DataFrame(dict(y=y, d=D, t=P, f1=f1, f2=f2, x=x, clu=np.arange(n) % 3))
    df["_row"] = range(n)
    df = M.present(df, case["mode"])
    est = dd.DifferenceInDifferences(cluster="clu" if case["se"] == "cluster" else None)
    r = cx.op(est.fit, df, outcome="y", treatment="d", time="t", fixed_effects=fes, covariates=["x"] if case["cov"] else None)
    b, V, u = M.ols(X, y, np.arange(n) % 3 if case["se"] == "cluster" else None)
    cx.eq(r.att, b[3], "effect with fixed-effect dummies")
    cx.eq(r.se, np.sqrt(V[3, 3]), "standard error with fixed-effect dummies", rtol=1e-6)
    M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, 0.05, n - X.shape[1], "fixed effects")
    cx.same(len(r.coefficients), X.shape[1], "number of coefficients")
    cx.saw(r.att)


def k_absorb(case, cx, dd):
    nu, T, nt = case["nu"], case["T"], case["nt"]
    u = np.repeat(np.arange(nu), T)
    t = np.tile(np.arange(T), nu)
    keep = np.ones(nu * T, bool)
    if case["drop"] >= 0:
        keep[case["drop"]] = False
    u, t = u[keep], t[keep]
    n = len(u)
    D = (u >= nu - nt).astype(int)
    P = (t >= (T + 1) // 2).astype(int)
    y = M.gen(n, 12) + u * 2
    x = M.gen(n, 13)
    df = pd.DataFrame(dict(y=y, d=D, p=P, unit=["u%d" % i for i in u], per=t, x=x))
    ab = [["unit"], ["unit", "per"], ["per"]][case["ab"]]
    covs = ["x"] if case["cov"] else None
    FE = [M.dummies(list(u))] if "unit" in ab else [np.ones((n, 1)), D.reshape(-1, 1)]
    FE += [M.dummies(list(t), True)] if "per" in ab else [P.reshape(-1, 1)]
    X = np.hstack(FE + [(D * P).reshape(-1, 1)] + ([x.reshape(-1, 1)] if covs else []))
    j = X.shape[1] - 1 - (1 if covs else 0)
    kept = M.fullcols(X)
    others = np.delete(X, j, axis=1)
    if np.linalg.matrix_rank(others) == np.linalg.matrix_rank(X):
        return
    b = np.linalg.lstsq(X, y, rcond=None)[0][j]
    # recorded defect: only the outcome and covariates are demeaned, one effect after the other
    yd, xd = y.copy(), x.copy()
    for a in ab:
        g = u if a == "unit" else t
        for v in (yd, xd):
            for c in set(g):
                v[g == c] -= v[g == c].mean()
    Xb = np.column_stack([np.ones(n), D, P, D * P] + ([xd] if covs else []))
    if n <= Xb.shape[1]:
        return
    bad = np.linalg.lstsq(Xb, yd, rcond=None)[0][3]
    est = dd.DifferenceInDifferences()
    r = cx.op(est.fit, M.present(df, case["mode"]), outcome="y", treatment="d", time="p", absorb=ab, covariates=covs)
    cx.eq_or(r.att, b, "K-ABSORB", bad if case["drop"] >= 0 else None, "effect with absorbed fixed effects", atol=1e-8)
    dfree = n - Xb.shape[1] - sum(len(set(u if a == "unit" else t)) - 1 for a in ab)
    if dfree > 0 and np.linalg.matrix_rank(Xb) == Xb.shape[1]:
        M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, 0.05, dfree, "with absorbed effects")
    cx.saw(r.att)


def k_refuse(case, cx, dd):
    D, P, n = build((2, 2, 2, 3))
    df = pd.DataFrame(dict(y=M.gen(n, 4), d=D, t=P, x=M.gen(n, 5)))
    E = dd.DifferenceInDifferences
    nan = df.copy(); nan.loc[1, "y"] = np.nan
    nand = df.assign(d=df.d.astype(float)); nand.loc[1, "d"] = np.nan
    nant = df.assign(t=df.t.astype(float)); nant.loc[1, "t"] = np.nan
    nanx = df.copy(); nanx.loc[2, "x"] = np.nan
    kw = dict(outcome="y", treatment="d", time="t")
    T = [
        lambda: E().fit(df, outcome="zz", treatment="d", time="t"),
        lambda: E().fit(df, outcome="y", treatment="zz", time="t"),
        lambda: E().fit(df, outcome="y", treatment="d", time="zz"),
        lambda: E().fit(df, covariates=["zz"], **kw),
        lambda: E().fit(df, fixed_effects=["zz"], **kw),
        lambda: E().fit(df, absorb=["zz"], **kw),
        lambda: E().fit(nan, **kw),
        lambda: E().fit(nand, **kw),
        lambda: E().fit(nant, **kw),
        lambda: E().fit(nanx, covariates=["x"], **kw),
        lambda: E().fit(df.assign(d=df.d + 1), **kw),
        lambda: E().fit(df.assign(t=df.t * 2), **kw),
        lambda: E().fit(df.assign(d=0), **kw),
        lambda: E().fit(df.assign(t=1), **kw),
        lambda: E().fit(df, outcome="y"),
        lambda: E().fit(df, formula="y d*t"),
        lambda: E().fit(df, formula="y ~ d + t"),
        lambda: E().fit(df, formula="y ~ d * zz"),
        lambda: E().fit(df, formula="y ~ d * t * x"),
    ]
    cx.raises("invalid call %d" % case["k"], (ValueError, KeyError), T[case["k"]])
    cx.saw("refused", case["k"])
    est = E()
    cx.raises("summary before fit", RuntimeError, est.summary)
    cx.raises("predict before fit", RuntimeError, est.predict, df)


def k_empty(case, cx, dd):
    """An empty cell leaves the effect unidentified: policy 'error' must refuse, 'warn' must say so."""
    D, P, n = build(case["cells"])
    df = pd.DataFrame(dict(y=M.gen(n, 4), d=D, t=P))
    kw = dict(outcome="y", treatment="d", time="t")
    cx.raises("empty cell, policy error", ValueError, dd.DifferenceInDifferences(rank_deficient_action="error").fit, df, **kw)
    r, w = cx.warns(dd.DifferenceInDifferences().fit, df, **kw)
    cx.ok(bool(w), "empty cell accepted without a warning")
    df["x"] = M.gen(n, 6)
    df["f"] = [i % 2 for i in range(n)]
    for opt in ({}, dict(robust=False), dict(cluster="x")):
        for extra in ({}, dict(covariates=["x"]), dict(fixed_effects=["f"])):
            X = np.column_stack([np.ones(n), df.d, df.t] + ([df.x] if "covariates" in extra else []) + ([df.f] if "fixed_effects" in extra else []))
            if n <= np.linalg.matrix_rank(X):
                continue
            r, e = cx.attempt(dd.DifferenceInDifferences(rank_deficient_action="silent", **opt).fit, df, **kw, **extra)
            if e is None:
                cx.ok(np.isnan(r.att) and np.isnan(r.se) and np.isnan(r.p_value) and np.isnan(r.conf_int[0]) and np.isnan(r.conf_int[1]), "an effect reported although a cell is empty", att=r.att, se=r.se, p=r.p_value, opt=str((opt, extra)))
    cx.saw(str(case["cells"]))
