"""P19: wild cluster bootstrap with every weight draw decided by the explorer."""
import itertools
import math
from .core import np, pd, isnan
from . import models as M
from . import rng as R

PROPERTY = "P19"
RULE = ("one case = every partition of the observations into clusters x design x outcome x weight law x null; the draws are every weight vector of the law (all at once) and every single / pair "
        "of vectors; the statistic of each vector is recomputed from an independent regression")
ASSUMPTIONS = ["6-10 observations, 2-4 clusters, full-rank designs", "replicates whose statistic is numerically degenerate (zero variance) are counted either way",
               "for the within-transformed estimator the design is the one it transforms (decided by P05)", "a run whose draws the enumerating generator cannot serve is not judged"]


def designs(n, k):
    d = np.array([i % 2 for i in range(n)], float)
    p = np.array([(i // 2) % 2 for i in range(n)], float)
    x = M.gen(n, 17)
    return [np.column_stack([np.ones(n), d, p, d * p]), np.column_stack([np.ones(n), x]), np.column_stack([np.ones(n), d, p, d * p, x]), x.reshape(-1, 1)][k]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for part in M.partitions(7 if big else 6):
        G = max(part) + 1
        if G < 2 or G > 4:
            continue
        for dk in (1, 3):
            i += 1
            yield dict(kind="fn", n=len(part), dk=dk, part=list(part), law=i % 3, null=(0.0, 1.0, -0.7)[i // 3 % 3], seed=i % 9, alpha=(0.05, 0.1, 0.4)[i % 3], lab=i % 4)
    for n in (8, 10):
        for part in list(itertools.product(range(3), repeat=n // 2))[:: (1 if big else 5)]:
            if len(set(part)) < 2:
                continue
            pp = [p for p in part for _ in (0, 1)]
            m = {}
            pp = [m.setdefault(p, len(m)) for p in pp]
            for dk in (0, 2):
                i += 1
                yield dict(kind="fn", n=n, dk=dk, part=pp, law=i % 3, null=(0.0, 1.0, -0.7)[i // 3 % 3], seed=i % 9, alpha=(0.05, 0.1, 0.4)[i % 3], lab=i % 4)
    for G in (2, 3, 4):
        for law in range(3):
            for cov in (0, 1):
                for mode in range(6):
                    for tw in (0, 1):
                        i += 1
                        yield dict(kind="est", G=G, law=law, cov=cov, mode=mode, tw=tw, alpha=(0.05, 0.2)[i % 2], seed=i % 5)
    for k in range(14):
        yield dict(kind="refuse", k=k)


NAMES = ("rademacher", "mammen", "webb")


def stat(X, y, cl, j, null):
    b, V, _ = M.ols(X, y, cl=cl)
    v = V[j, j]
    scale = max(1.0, float(np.abs(y).max())) ** 2
    if v <= 1e-18 * scale:
        return b[j], None, v
    return b[j], (b[j] - null) / math.sqrt(v), v


def lohi(ts, t0, B):
    """Bounds of the share: ties count; near ties and degenerate replicates may go either way."""
    lo = sum(1 for t in ts if t is not None and abs(t) > abs(t0) * (1 + 1e-6) + 1e-9 or t is not None and abs(t0) > 1e-6 and abs(t) >= abs(t0) * (1 - 1e-11)) / B
    hi = sum(1 for t in ts if t is None or abs(t) >= abs(t0) * (1 - 1e-6) - 1e-9) / B
    return max(lo, 1 / (B + 1)), max(hi, 1 / (B + 1))


def model(X, y, cl, j, null, W):
    """W: list of {cluster: weight}. -> (coef, t0, per-draw (replicate coefficient, t))"""
    n = len(y)
    b, V, u = M.ols(X, y, cl=cl)
    t0 = (b[j] - null) / math.sqrt(V[j, j])
    yr = y - null * X[:, j]
    Xr = np.delete(X, j, axis=1)
    ur = yr - (Xr @ np.linalg.lstsq(Xr, yr, rcond=None)[0] if Xr.shape[1] else 0)
    out = []
    for w in W:
        ww = np.array([w[c] for c in cl])
        bs, ts, _ = stat(X, (y - ur) + ur * ww, cl, j, null)
        bu = np.linalg.lstsq(X, (y - u) + u * ww, rcond=None)[0][j]
        out.append((bu, ts))
    return b[j], t0, out


def support(feed, nopt):
    for vals, p in feed.laws:
        if not isinstance(vals, str) and len(vals) == nopt and np.issubdtype(vals.dtype, np.floating):
            return [float(v) for v in vals]
    return None


def run(c, cx):
    import diff_diff as dd
    from diff_diff.utils import wild_bootstrap_se
    if c["kind"] == "fn":
        fn(c, cx, wild_bootstrap_se)
    elif c["kind"] == "est":
        est(c, cx, dd)
    else:
        refuse(c, cx, dd, wild_bootstrap_se)


def explore(cx, call, X, y, cl, order, j, null, law, alpha, tag, dist=True, limit=40):
    """call(n_bootstrap) runs the implementation under the installed feed."""
    K = len(R.LAWS[law])
    G = len(order)
    vecs = R.cube(K, G)
    if len(vecs) <= 4096 and dist:      # ordinary run: every replicate is one of the reachable ones
        free = cx.op(call, 12)
        if free.get("dist") is not None:
            every = np.array(R.LAWS[law])[np.array(vecs)]
            reach = [bu for bu, _ in model(X, y, cl, j, null, [dict(zip(order, v)) for v in every])[2]] if len(vecs) <= 64 else None
            if reach is not None:
                R.members(cx, free["dist"], reach, tag)
    if len(vecs) > 216:
        vecs = vecs[:: len(vecs) // 216 + 1]
    probe = R.Feed(elem=vecs[0])
    with R.controlled(probe):
        _, e = cx.attempt(call, 1)
    sup = support(probe, K)
    if not probe.ok() or sup is None:
        cx.saw("uncontrolled")
        return
    R.check_law(cx, law, probe)
    W = [{g: sup[o] for g, o in zip(order, v)} for v in vecs]
    coef, t0, M1 = model(X, y, cl, j, null, W)
    sets = [list(range(len(vecs)))] + [[a, b] for a, b in itertools.combinations(range(min(len(vecs), 9)), 2)] + [[a] for a in range(min(len(vecs), limit))]
    for s in sets:
        feed = R.Feed(elem=[o for a in s for o in vecs[a]])
        with R.controlled(feed):
            r = cx.op(call, len(s))
        if not feed.ok():
            cx.saw("uncontrolled")
            return
        B = len(s)
        bs = np.array([M1[a][0] for a in s])
        sd = math.sqrt(((bs - bs.mean()) ** 2).sum() / (B - 1)) if B > 1 else float("nan")
        cx.eq(r["se"], sd, tag + ": standard error is the spread of the replicates", rtol=1e-6, atol=1e-9)
        q = [np.percentile(bs, 100 * alpha / 2), np.percentile(bs, 100 * (1 - alpha / 2))]
        cx.eq(list(r["ci"]), q, tag + ": interval from the replicates", rtol=1e-6, atol=1e-8)
        cx.eq(r["t"], t0, tag + ": observed statistic", rtol=1e-6)
        lo, hi = lohi([M1[a][1] for a in s], t0, B)
        cx.ok(lo - 1e-12 <= r["p"] <= hi + 1e-12, tag + ": share of null-imposed statistics at least as extreme", got=r["p"], lo=lo, hi=hi, B=B)
        cx.same((r["G"], r["B"]), (G, B), tag + ": clusters and replications")
        if dist and r.get("dist") is not None:
            cx.eq(r["dist"], bs, tag + ": replicate coefficients in draw order", rtol=1e-6, atol=1e-9)
    cx.saw(t0, sd, r["p"], coef)


def fn(c, cx, wb):
    n, law = c["n"], NAMES[c["law"]]
    X = designs(n, c["dk"])
    j = {0: 3, 1: 1, 2: 3, 3: 0}[c["dk"]]
    y = M.gen(n, 900 + c["seed"]) + 1.3 * X[:, j]
    L = [lambda g: g, lambda g: "c%s" % "zyxw"[g], lambda g: 10 - 3 * g, lambda g: float(g) + 0.5][c["lab"]]
    cl = np.array([L(g) for g in c["part"]])
    X0, y0, cl0 = X.copy(), y.copy(), cl.copy()
    b, V, u = M.ols(X, y, cl=list(cl))
    if np.linalg.matrix_rank(X) < X.shape[1] or V is None or V[j, j] < 1e-10:
        return
    order = sorted(set(cl.tolist()))

    def call(B):
        r = wb(X, y, u, cl, coefficient_index=j, n_bootstrap=B, weight_type=law, null_hypothesis=c["null"], alpha=c["alpha"], seed=1, return_distribution=True)
        return dict(se=r.se, p=r.p_value, t=r.t_stat_original, ci=(r.ci_lower, r.ci_upper), G=r.n_clusters, B=r.n_bootstrap, dist=r.bootstrap_distribution)
    explore(cx, call, X, y, list(cl), order, j, c["null"], law, c["alpha"], "wild bootstrap")
    cx.ok((X == X0).all() and (y == y0).all() and (cl == cl0).all(), "inputs untouched")


def est(c, cx, dd):
    G, law = c["G"], NAMES[c["law"]]
    n, T = 4, 3 if c["tw"] else 2
    rows = []
    N = 2 * G
    y = M.gen(N * T, 950 + c["seed"] + 7 * G).reshape(N, T)
    x = M.gen(N * T, 970 + c["seed"]).reshape(N, T)
    for i in range(N):
        for t in range(T):
            rows.append(dict(u=i, t=t, cl=i // 2, d=i % 2, po=int(t == T - 1), y=y[i, t] + 1.5 * (i % 2) * (t == T - 1), x=x[i, t]))
    df = M.present(pd.DataFrame(rows), c["mode"])
    kw = dict(cluster="cl", inference="wild_bootstrap", bootstrap_weights=law, alpha=c["alpha"], seed=3)
    cov = ["x"] if c["cov"] else None
    d, p, yy = df["d"].values.astype(float), df["po"].values.astype(float), df["y"].values
    last = {}
    if c["tw"]:
        # within transformation on the balanced panel
        def dm(v):
            s = pd.Series(np.asarray(v, float), index=range(len(df)))
            u_, t_ = df["u"].values, df["po"].values
            w = s.values.copy()
            # two-way residual via dummies
            Z = np.column_stack([M.dummies(list(u_)), M.dummies(list(t_), True)])
            return w - Z @ np.linalg.lstsq(Z, w, rcond=None)[0]
        cols = [dm(d * p)] + ([dm(df["x"].values)] if cov else [])
        X = np.column_stack([np.ones(len(df))] + cols)
        Y = dm(yy)
        j = 1
        tm = "po"

        def call(B):
            e = dd.TwoWayFixedEffects(n_bootstrap=B, **kw)
            r = e.fit(df, outcome="y", treatment="d", time=tm, unit="u", covariates=cov)
            last["r"] = r
            return dict(se=r.se, p=r.p_value, t=r.t_stat, ci=r.conf_int, G=r.n_clusters, B=r.n_bootstrap)
    else:
        X = np.column_stack([np.ones(len(df)), d, p, d * p] + ([df["x"].values] if cov else []))
        Y, j = yy, 3

        def call(B):
            e = dd.DifferenceInDifferences(n_bootstrap=B, **kw)
            r = e.fit(df, outcome="y", treatment="d", time="po", covariates=cov)
            last["r"] = r
            return dict(se=r.se, p=r.p_value, t=r.t_stat, ci=r.conf_int, G=r.n_clusters, B=r.n_bootstrap)
    b, V, _ = M.ols(X, Y, cl=list(df["cl"]))
    if V is None or V[j, j] < 1e-10:
        return
    explore(cx, call, X, Y, list(df["cl"]), list(range(G)), j, 0.0, law, c["alpha"], "estimator", dist=False, limit=4)
    if "r" in last:
        r = last["r"]
        cx.eq(r.att, b[j], "point estimate of the plain fit", rtol=1e-7)
        cx.same((r.inference_method, r.alpha), ("wild_bootstrap", c["alpha"]), "labels")


def refuse(c, cx, dd, wb):
    k = c["k"]
    n = 8
    X = designs(n, 0)
    y = M.gen(n, 4)
    u = M.ols(X, y)[2]
    if k == 0:
        cx.raises("one cluster", ValueError, wb, X, y, u, np.zeros(n, int), 3)
    elif k < 4:
        cx.raises("unknown law", ValueError, wb, X, y, u, np.arange(n) // 2, 3, weight_type=("normal", "Webb ", "")[k - 1])
    elif k < 7:
        cl = np.arange(n) // 2
        law = NAMES[k - 4]
        a = cx.op(wb, X, y, u, cl, 3, n_bootstrap=19, weight_type=law, seed=7, return_distribution=True)
        b = cx.op(wb, X, y, u, cl, 3, n_bootstrap=19, weight_type=law, seed=7, return_distribution=True)
        cx.eq(a.bootstrap_distribution, b.bootstrap_distribution, "same seed, same draws", rtol=0, atol=0)
        cx.same((a.p_value, a.weight_type, a.n_bootstrap, a.n_clusters, a.alpha), (b.p_value, law, 19, 4, 0.05), "labels")
        cx.same(cx.op(wb, X, y, u, cl, 3, n_bootstrap=3, seed=1).bootstrap_distribution, None, "distribution only on request")
    elif k == 7:
        r, w = cx.warns(wb, X, y, u, np.arange(n) // 2, 3, n_bootstrap=3, seed=1)
        cx.ok(any("4 clusters" in m for m in w), "few clusters are reported", w=w)
    elif k == 8:
        X2 = X.copy()
        X2[:, 3] = 0.0
        r, e = cx.attempt(wb, X2, y, u, np.arange(n) // 2, 3, n_bootstrap=9, seed=1)
        cx.ok(e is not None or (isnan(r.p_value) and isnan(r.se)), "an unidentified coefficient has no p-value", p=None if r is None else r.p_value)
    elif k == 9:
        df = pd.DataFrame(dict(y=y, d=X[:, 1], p=X[:, 2], cl=0))
        cx.raises("one cluster", ValueError, dd.DifferenceInDifferences(cluster="cl", inference="wild_bootstrap").fit, df, outcome="y", treatment="d", time="p")
    elif k == 10:
        df = pd.DataFrame(dict(y=M.gen(16, 3), d=np.arange(16) % 2, p=np.arange(16) // 2 % 2))
        r = cx.op(dd.DifferenceInDifferences(inference="wild_bootstrap").fit, df, outcome="y", treatment="d", time="p")
        f = cx.op(dd.DifferenceInDifferences().fit, df, outcome="y", treatment="d", time="p")
        cx.eq([r.att, r.se, r.p_value], [f.att, f.se, f.p_value], "no cluster: analytical inference")
        cx.same(r.inference_method, "analytical", "label")
    elif k == 11:
        df = pd.DataFrame(dict(y=M.gen(16, 3), d=np.arange(16) % 2, p=np.arange(16) // 2 % 2, cl=np.arange(16) // 4))
        cx.raises("unknown law", ValueError, dd.DifferenceInDifferences(cluster="cl", inference="wild_bootstrap", bootstrap_weights="bogus", n_bootstrap=3).fit, df, outcome="y", treatment="d", time="p")
    elif k == 12:
        a = cx.op(wb, X, y, u, np.arange(n) // 2, 3, n_bootstrap=99, seed=7, alpha=0.5)
        t = cx.op(a.summary)
        cx.ok("%.6f" % a.se in t and "%.4f" % a.p_value in t and "50%" in t, "summary")
    cx.saw(k)
