"""P01: least squares, covariance and rank handling against textbook linear algebra."""
import itertools
from .core import np, pd
from . import models as M
from . import zoo

PROPERTY = "P01"
RULE = ("one case = one design matrix (every matrix whose columns come from the alphabet, up to the bound) or one "
        "cluster partition / scaling / wrapper configuration; every outcome basis vector plus generic outcomes are "
        "solved on it; outcomes counted distinct by (rank, dropped set, coefficients)")
ASSUMPTIONS = ["columns from {0,1}^4, {-1,0,2}-patterns and scaled/near-collinear variants; n<=8, k<=4",
               "n equal to the number of identified columns is excluded where the covariance divides by zero"]


def cases(tier):
    big = tier == "thorough"
    n = 4
    cols = list(range(1, 2 ** n))
    for k in (1, 2):
        for t in itertools.product(cols, repeat=k):
            yield dict(kind="bits", n=n, cols=t)
    for k in (1, 2, 3):         # columns of zeros
        for t in itertools.product((0, 15, 3, 5), repeat=k):
            if 0 in t:
                yield dict(kind="bits", n=n, cols=t)
    base = cols
    for t in itertools.product(base, repeat=3):
        yield dict(kind="bits", n=n, cols=t)
    if big:
        for t in itertools.combinations_with_replacement([31, 3, 5, 6, 12, 10, 17, 24, 28, 21], 4):
            yield dict(kind="bits", n=5, cols=t)
        for t in itertools.product([31, 3, 5, 6, 12, 10, 17, 24, 28, 21, 7, 1], repeat=3):
            yield dict(kind="bits", n=5, cols=t)
    # generic designs with planted dependence patterns
    for pat in range(10):
        for seed in range(2 if not big else 6):
            for scale in (0, 1, 2):
                yield dict(kind="dep", pat=pat, seed=seed, scale=scale)
    # every partition of the rows into clusters
    nn = 6 if big else 5
    for part in M.partitions(nn):
        for lab in range(9):
            for xk in range(4):
                yield dict(kind="cluster", part=part, lab=lab, xk=xk)
    # the wrapper
    for icpt, robust, cl, act in itertools.product((0, 1), (0, 1), (0, 1, 2), ("warn", "silent", "error")):
        for xk in range(5):
            for dfa in (0, 2):
                for alpha in (0.05, 0.2):
                    yield dict(kind="lr", icpt=icpt, robust=robust, cl=cl, act=act, xk=xk, dfa=dfa, alpha=alpha)
    for k in range(16):
        yield dict(kind="refuse", k=k)
    # a missing cluster identifier, in every row, of every type, through every way in
    for miss in range(4):
        for row in range(6):
            yield dict(kind="missing", miss=miss, row=row)
    for e in CLUSTERED:
        for lab in range(5):
            yield dict(kind="est-labels", entry=e, lab=lab)
        for miss in range(4):
            for row in (range(24) if big else (0, 1, 7, 11)):
                yield dict(kind="est-missing", entry=e, miss=miss, row=row)


CLUSTERED = ("did-cluster", "did-wild", "multi-cluster-cov", "twfe", "twfe-wild", "sa-nyt-cov", "ddd-reg-cov", "ddd-ipw-cov", "ddd-dr", "ddd-dr-cov")


def missing(k, vals, rows):
    """The labels with the rows' entries missing, in column type k."""
    if k == 0:
        v = np.array(vals, float)
        v[rows] = np.nan
        return v
    if k == 3:
        v = pd.array([int(x) for x in vals], dtype="Int64")
        v[rows] = pd.NA
        return v
    v = np.array(["c%s" % x for x in vals], dtype=object)
    v[rows] = {1: None, 2: np.nan}[k]
    return v


def design(case):
    n = case["n"]
    return np.array([[(c >> i) & 1 for c in case["cols"]] for i in range(n)], dtype=float)


def xkind(k, n=6):
    g = M.gen(n * 3, 7 + k).reshape(n, 3)
    X = np.column_stack([np.ones(n), g])[:, :3]
    if k == 1:
        X = np.column_stack([X, X[:, 1] + X[:, 2]])
    elif k == 2:
        X = np.column_stack([X[:, 1] * 2, X])
    elif k == 3:
        X = X[:, :1]
    elif k == 4:
        X = np.column_stack([X[:, 0], np.zeros(n), X[:, 1]])
    return X


def check_fit(cx, X, y, cl, res, action, tag, vcov_kind="hc1", vc=None):
    """res = (coef, resid, fitted, vcov) reported; compare with the model."""
    coef, resid, fitted, vcov = res
    n, k = X.shape
    rank = int(np.linalg.matrix_rank(X, tol=1e-7 * max(np.abs(np.linalg.svd(X, compute_uv=False)).max(), 1e-300) * 1.0))
    nanm = np.isnan(coef)
    if not cx.ok(int(nanm.sum()) == k - rank, "%s: %d coefficients missing, rank defect is %d" % (tag, nanm.sum(), k - rank), X=X):
        return None
    kept = np.where(~nanm)[0]
    Xk = X[:, kept]
    if not cx.ok(np.linalg.matrix_rank(Xk, tol=1e-9 * np.abs(Xk).max()) == len(kept), tag + ": retained columns are still dependent", X=X, kept=kept):
        return None
    b, V, h = M.ols(Xk, y, cl, vcov_kind)
    s = max(1.0, np.abs(y).max())
    cx.eq(coef[kept], b, tag + ": coefficients", rtol=1e-6, atol=1e-8 * max(1, np.abs(b).max()), X=X, y=y)
    if fitted is not None:
        cx.eq(fitted, Xk @ b, tag + ": fitted values", atol=1e-8 * s, X=X, y=y)
    cx.eq(resid, y - Xk @ b, tag + ": residuals", atol=1e-8 * s, X=X, y=y)
    if vcov is not None and n > rank:
        full = np.full((k, k), np.nan)
        full[np.ix_(kept, kept)] = V
        cx.eq(vcov, full, tag + ": covariance", rtol=1e-6, atol=1e-9 * max(1e-3, np.abs(V).max()), X=X, y=y, cl=cl)
    cx.saw(rank, kept.tolist(), *b)
    return kept


def run(case, cx):
    from diff_diff import linalg as L
    k = case["kind"]
    if k in ("bits", "dep"):
        if k == "bits":
            X = design(case)
        else:
            X = dep(case)
        n = X.shape[0]
        kk = X.shape[1]
        rank = int(np.linalg.matrix_rank(X, tol=1e-9 * np.abs(X).max()))
        if n < kk or rank == 0:
            return
        ys = [np.eye(n)[i] for i in range(n)] if k == "bits" else []
        ys += [M.gen(n, 3), np.arange(n) ** 2 * 1.0, np.zeros(n)]
        for i, y in enumerate(ys):
            hc = n > rank
            X0, y0 = X.copy(), y.copy()
            r = cx.op(L.solve_ols, X, y, return_vcov=hc, return_fitted=True, rank_deficient_action="silent")
            check_fit(cx, X, y, None, r, "silent", "solve")
            cx.ok(np.array_equal(X, X0) and np.array_equal(y, y0), "solver modified its inputs")
            if hc and i >= n and rank == kk:
                v = cx.op(L.compute_robust_vcov, X, r[1])
                cx.eq(v, r[3], "stand-alone robust covariance differs from the solver's", rtol=1e-7, atol=1e-10)
        r3 = cx.op(L.solve_ols, X, ys[-2], return_vcov=False, rank_deficient_action="silent")
        cx.ok(len(r3) == 3 and r3[2] is None, "return layout without fitted values / covariance")
        check_fit(cx, X, ys[-2], None, (r3[0], r3[1], None, None), "silent", "solve (no covariance)")
        names = ["c%d" % i for i in range(kk)]
        if rank < kk:
            e = cx.raises("policy 'error' on rank %d of %d" % (rank, kk), ValueError, L.solve_ols, X, ys[-2],
                          return_vcov=False, rank_deficient_action="error")
            r4, w = cx.warns(L.solve_ols, X, ys[-2], return_vcov=False, rank_deficient_action="warn", column_names=names)
            drop = [names[i] for i in np.where(np.isnan(r4[0]))[0]]
            txt = " ".join(w)
            cx.ok(bool(w) and all(d in txt for d in drop), "policy 'warn' must name the dropped columns", warnings=w, dropped=drop)
            r4, w = cx.warns(L.solve_ols, X, ys[-2], return_vcov=False, rank_deficient_action="silent")
            cx.ok(not w, "policy 'silent' must not warn", warnings=w)
        else:
            r4, w = cx.warns(L.solve_ols, X, ys[-2], return_vcov=False, rank_deficient_action="error")
            cx.ok(not w, "no warning on full rank", warnings=w)
            check_fit(cx, X, ys[-2], None, (r4[0], r4[1], None, None), "error", "solve (full rank, policy error)")
    elif k == "cluster":
        part = case["part"]
        n = len(part)
        X = xkind(case["xk"], n)
        if n <= np.linalg.matrix_rank(X):
            return
        lab = M.labels(case["lab"])
        cl = np.array([lab(c) for c in part], dtype=object if case["lab"] in (1, 8) else None)
        G = len(set(part))
        for y in (M.gen(n, 5), np.arange(n) * 1.0 - (np.arange(n) == 2) * 4):
            if G < 2:
                cx.raises("one cluster", ValueError, L.solve_ols, X, y, cluster_ids=cl, rank_deficient_action="silent")
                continue
            r = cx.op(L.solve_ols, X, y, cluster_ids=cl, return_fitted=True, rank_deficient_action="silent")
            kept = check_fit(cx, X, y, np.array(part), r, "silent", "clustered solve")
            if kept is not None and len(kept) == X.shape[1]:
                v = cx.op(L.compute_robust_vcov, X, r[1], cl)
                cx.eq(v, r[3], "stand-alone clustered covariance", rtol=1e-7, atol=1e-10)
    elif k == "lr":
        n = 7
        X = xkind(case["xk"], n)
        if case["icpt"]:
            X = X[:, 1:] if X.shape[1] > 1 else M.gen(n, 31).reshape(n, 1)
        y = M.gen(n, 9)
        cl = None if case["cl"] == 0 else np.array([0, 0, 1, 1, 2, 2, 2]) if case["cl"] == 1 else np.array(["b", "a", "c", "a", "b", "d", "c"])
        m = cx.op(L.LinearRegression, include_intercept=bool(case["icpt"]), robust=bool(case["robust"]), alpha=case["alpha"],
                  rank_deficient_action=case["act"], **({} if case["cl"] != 1 else dict(cluster_ids=cl)))
        kw = dict(df_adjustment=case["dfa"])
        if case["cl"] == 2:
            kw["cluster_ids"] = cl
        Xf = np.column_stack([np.ones(n), X]) if case["icpt"] else X
        rank = int(np.linalg.matrix_rank(Xf))
        if rank < Xf.shape[1] and case["act"] == "error":
            cx.raises("policy error", ValueError, m.fit, X, y, **kw)
            cx.raises("reading an unfitted model", ValueError, m.get_coefficient, 0)
            return
        r, w = cx.warns(m.fit, X, y, **kw)
        cx.ok(r is m, "fit returns the model")
        cx.ok(bool(w) == (rank < Xf.shape[1] and case["act"] == "warn"), "warning iff rank deficient and policy warn", warnings=w)
        vk = "hc1" if case["robust"] or cl is not None else "classical"
        kept = check_fit(cx, Xf, y, cl, (m.coefficients_, m.residuals_, m.fitted_values_, m.vcov_), case["act"], "regression", vk)
        if kept is None:
            return
        df = n - rank - case["dfa"]
        b, V, _ = M.ols(Xf[:, kept], y, cl, vk)
        infs = cx.op(m.get_all_inference)
        cx.ok(len(infs) == Xf.shape[1], "one inference record per coefficient")
        batch = cx.op(m.get_inference_batch, list(range(Xf.shape[1])), alpha=0.1)
        for j in range(Xf.shape[1]):
            i1 = infs[j]
            if j in kept:
                p = list(kept).index(j)
                M.check_inference(cx, i1.coefficient, i1.se, i1.t_stat, i1.p_value, i1.conf_int, case["alpha"], df, "coefficient %d" % j)
                cx.eq(i1.coefficient, b[p], "inference coefficient")
                cx.eq(i1.se, np.sqrt(V[p, p]), "inference standard error", rtol=1e-6)
                cx.eq(m.get_coefficient(j), b[p], "get_coefficient")
                cx.eq(m.get_se(j), np.sqrt(V[p, p]), "get_se", rtol=1e-6)
                i2 = batch[j]
                M.check_inference(cx, i2.coefficient, i2.se, i2.t_stat, i2.p_value, i2.conf_int, 0.1, df, "batch %d" % j)
                i3 = cx.op(m.get_inference, j, df=3)
                M.check_inference(cx, i3.coefficient, i3.se, i3.t_stat, i3.p_value, i3.conf_int, case["alpha"], 3, "df override %d" % j)
                cx.same(bool(i1.is_significant()), bool(i1.p_value < case["alpha"]), "significance verdict")
                cx.same(i1.significance_stars(), M.stars_reg(i1.p_value), "stars")
                d = i1.to_dict()
                cx.ok(d["coefficient"] == i1.coefficient and d["se"] == i1.se and d["p_value"] == i1.p_value
                      and tuple(d["conf_int"]) == tuple(i1.conf_int) and d["alpha"] == case["alpha"], "dictionary export", d=d)
            else:
                cx.ok(np.isnan(i1.coefficient) and np.isnan(i1.se) and np.isnan(i1.p_value), "dropped column must have no inference")
                cx.same(bool(i1.is_significant()), False, "dropped column significant")
        ssr = ((y - Xf[:, kept] @ b) ** 2).sum()
        sst = ((y - y.mean()) ** 2).sum()
        cx.eq(m.r_squared(), 1 - ssr / sst, "R-squared")
        cx.eq(m.r_squared(adjusted=True), 1 - (ssr / sst) * (n - 1) / (n - rank), "adjusted R-squared")
        Xn = M.gen(3 * X.shape[1], 77).reshape(3, X.shape[1])
        Xnf = np.column_stack([np.ones(3), Xn]) if case["icpt"] else Xn
        cx.eq(m.predict(Xn), Xnf[:, kept] @ b, "prediction on new rows", atol=1e-8)
        if cl is None and rank == Xf.shape[1]:
            # a refit on other data leaves no trace of the first one
            y2 = M.gen(n, 21)
            cx.op(m.fit, X, y2)
            m2 = L.LinearRegression(include_intercept=bool(case["icpt"]), robust=bool(case["robust"])).fit(X, y2)
            cx.eq(m.coefficients_, m2.coefficients_, "refit")
            cx.eq(m.vcov_, m2.vcov_, "refit covariance")
            cx.same(m.df_, m2.df_, "refit degrees of freedom")
    elif k == "refuse":
        refuse(case["k"], cx, L)
    elif k == "missing":
        run_missing(case, cx, L)
    elif k in ("est-labels", "est-missing"):
        run_labels(case, cx)


def dep(case):
    n = 8
    g = M.gen(n * 4, 100 + case["seed"]).reshape(n, 4)
    X = np.column_stack([np.ones(n), g[:, 0], g[:, 1], g[:, 2]])
    p = case["pat"]
    if p == 1:
        X[:, 3] = X[:, 1] + X[:, 2]
    elif p == 2:
        X[:, 0] = X[:, 3] * 3 - X[:, 2]
    elif p == 3:
        X[:, 2] = 5.0
    elif p == 4:
        X[:, 2] = X[:, 1] * 2
        X[:, 3] = -X[:, 1] + 1
    elif p == 5:
        X[:, 3] = X[:, 1] + 1e-4 * g[:, 3]          # nearly but not collinear
    elif p == 6:
        X[:, 3] = X[:, 1] + 1e-11 * g[:, 3]         # collinear to working precision
    elif p == 7:
        X[:, 1] = 0.0
    elif p == 8:
        X = X[:, ::-1].copy()
        X[:, 0] = X[:, 1] - X[:, 2]
    elif p == 9:
        X = np.asfortranarray(X)
    s = case["scale"]
    if s == 1 and p not in (5, 6):
        X = X * np.array([1, 100.0, 1, 0.01])
    elif s == 2 and p not in (5, 6):
        X = X * np.array([10.0, 1, 1e-3, 1])
    return X


def run_labels(case, cx):
    """Cluster labels of any type give the same result; a missing one is refused."""
    import diff_diff as dd
    e = zoo.BY[case["entry"]]
    df = zoo.frame(e.kind)
    col = "cl0"
    df[col] = pd.factorize(df["u"] if "u" in df else df["cl"])[0]
    if e.init.get("inference") == "wild_bootstrap":
        df[col] = df[col] % 7
    if case["kind"] == "est-missing":
        row = case["row"] % len(df)
        df["cl1"] = missing(case["miss"], df[col].tolist(), [row])
        cx.raises("missing cluster label in row %d" % row, ValueError, e.call, dd, df, cluster="cl1")
        cx.saw(case["entry"], case["miss"])
        return
    r = cx.op(e.call, dd, df, cluster=col)
    n = int(df[col].max()) + 1
    v = df[col].tolist()
    new = [[n - i for i in v], ["k%d" % (97 - i) for i in v], [i if i % 2 else "s%d" % i for i in v], [i + 0.25 for i in v], None][case["lab"]]
    df["cl1"] = pd.Series(new, index=df.index, dtype=object) if case["lab"] == 2 else new if new is not None else pd.Categorical.from_codes(v, ["z%d" % ((7 * i) % n * 10 + i) for i in range(n)])
    s = cx.op(e.call, dd, df, cluster="cl1")
    if e.init.get("inference") == "wild_bootstrap" and case["lab"] != 3:
        for f in ("att",):
            cx.eq(getattr(s, f), getattr(r, f), f + " under relabelled clusters")
        cx.same(s.n_clusters, r.n_clusters, "number of clusters")
    else:
        d = zoo.diff(zoo.flat(s), zoo.flat(r), rtol=1e-6, atol=1e-9)
        cx.ok(d is None, "relabelled clusters: %s" % (d,))
    cx.saw(case["entry"], round(float(getattr(r, "se", getattr(r, "avg_se", getattr(r, "overall_se", 0))) or 0), 6))


def run_missing(case, cx, L):
    import diff_diff as dd
    X, y = xkind(1, 6), M.gen(6, 3)
    cl = missing(case["miss"], [0, 0, 1, 1, 2, 2], [case["row"]])
    for name, f in (("solve", lambda: L.solve_ols(X, y, cluster_ids=cl)), ("covariance", lambda: L.compute_robust_vcov(X, y - y.mean(), cl)),
                    ("rank-deficient solve", lambda: L.solve_ols(np.column_stack([X, X[:, 0]]), y, cluster_ids=cl, rank_deficient_action="silent")),
                    ("unchecked solve", lambda: L.solve_ols(X, y, cluster_ids=cl, skip_rank_check=True)),
                    ("wrapper", lambda: L.LinearRegression(cluster_ids=cl).fit(X, y)),
                    ("wild bootstrap", lambda: dd.wild_bootstrap_se(X, y, y - y.mean(), cl, 0, n_bootstrap=5, seed=1))):
        cx.raises("missing cluster label: " + name, ValueError, f)
    cx.saw("missing", case["miss"])


def refuse(k, cx, L):
    X = np.array([[1.0, 0], [1, 1], [1, 2], [1, 3]])
    y = np.array([1.0, 2, 2, 5])
    bad = X.copy()
    tests = {
        0: lambda: L.solve_ols(X[:1], y[:1]),
        1: lambda: L.solve_ols(_set(X, 1, 1, np.nan), y),
        2: lambda: L.solve_ols(_set(X, 1, 1, np.inf), y),
        3: lambda: L.solve_ols(X, np.array([1, np.nan, 2, 3.0])),
        4: lambda: L.solve_ols(X, np.array([1, -np.inf, 2, 3.0])),
        5: lambda: L.solve_ols(X, y[:3]),
        6: lambda: L.solve_ols(X[:, 0], y),
        7: lambda: L.solve_ols(X, y.reshape(-1, 1)),
        8: lambda: L.solve_ols(X, y, rank_deficient_action="ignore"),
        9: lambda: L.solve_ols(X, y, cluster_ids=np.zeros(4)),
        10: lambda: L.compute_robust_vcov(X, y, np.array(["a"] * 4)),
        11: lambda: L.LinearRegression().get_se(0),
        12: lambda: L.LinearRegression().predict(X),
        13: lambda: L.LinearRegression(rank_deficient_action="x").fit(X, y),
        14: lambda: L.LinearRegression().fit(_set(X, 0, 0, np.nan), y),
        15: lambda: L.LinearRegression().r_squared(),
    }
    cx.raises("invalid call %d" % k, ValueError, tests[k])
    cx.saw("refused", k)


def _set(X, i, j, v):
    X = X.copy()
    X[i, j] = v
    return X
