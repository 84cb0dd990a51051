"""P05: within-transformed two-way fixed effects against the dummy-variable regression."""
import itertools
from .core import np, pd
from . import models as M

PROPERTY = "P05"
RULE = ("one case = panel size x treatment layout x every set of missing unit-periods up to the bound x covariates x cluster "
        "choice x kind of period column x presentation; distinct by effect and standard error")
ASSUMPTIONS = ["3-5 units, 2-4 periods, up to 2 missing cells on the 4x3 / 5x4 panels (3 in thorough)",
               "designs where the effect is not identified are only checked for refusal"]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for nu, T, maxdrop in ((3, 2, 1), (4, 2, 2), (5, 2, 1), (3, 3, 2), (4, 3, 3 if big else 2), (4, 4, 2), (5, 4, 2 if big else 1), (6, 3, 2 if big else 1)):
        lays = layouts(nu, T)
        for r in range(maxdrop + 1):
            for drop in itertools.combinations(range(nu * T), r):
                for li in range(len(lays)):
                    i += 1
                    if r == 2 and not big and nu * T > 9 and (i % 2):
                        pass
                    yield dict(nu=nu, T=T, drop=drop, lay=li, cov=i % 3, cl=(i // 3) % 2, mode=i % 6, lab=i % 4,
                               alpha=(0.05, 0.1)[i % 2], per="cal" if (i // 2) % 2 else "post")
    # the transformation on its own: every missing pattern, both call styles, hostile suffixes and labels
    for nu, T, maxdrop in ((3, 2, 2), (3, 3, 3), (4, 3, 2)):
        for r in range(maxdrop + 1):
            for drop in itertools.combinations(range(nu * T), r):
                i += 1
                yield dict(kind="within", nu=nu, T=T, drop=drop, mode=i % 6, lab=i % 4, inplace=i % 2, suf=i // 2 % 4)
    for k in range(7):
        yield dict(refuse=k)


def layouts(nu, T):
    """first treated period per unit (T = never)."""
    out = []
    for g in range(1, T):
        for nt in range(1, nu):
            out.append([T] * (nu - nt) + [g] * nt)
    if T >= 3:
        out.append([T] * (nu - 2) + [1, 2])
        out.append([1, T] + [2] * (nu - 2))
    return out


def run(case, cx):
    import diff_diff as dd
    if "refuse" in case:
        return refuse(case["refuse"], cx, dd)
    if case.get("kind") == "within":
        return within(case, cx)
    nu, T = case["nu"], case["T"]
    g = np.array(layouts(nu, T)[case["lay"]])
    u = np.repeat(np.arange(nu), T)
    t = np.tile(np.arange(T), nu)
    keep = np.ones(nu * T, bool)
    keep[list(case["drop"])] = False
    u, t = u[keep], t[keep]
    n = len(u)
    uniq = sorted(set(g[g < T]))
    staggered = len(uniq) > 1
    W = (t >= g[u]).astype(int)
    if case["per"] == "post" and not staggered:
        tt = (t >= uniq[0]).astype(int)       # 0/1 period column, group indicator
        tr = (g[u] < T).astype(int)
        treat_periods = tt
    else:
        treat_periods = t
        tr = W
    ncov = case["cov"] % 3
    xs = np.column_stack([M.gen(n, 41) + u, M.gen(n, 42) * (1 + t)])[:, :ncov]
    FE = np.hstack([M.dummies(list(u)), M.dummies(list(treat_periods), True)])
    X = np.hstack([W.reshape(-1, 1), xs, FE])
    r0 = np.linalg.matrix_rank(X)
    if np.linalg.matrix_rank(X[:, 1:]) == r0 or n - r0 < 1 or len(set(u)) < 2:
        return
    if np.linalg.matrix_rank(np.hstack([xs, FE])) < np.linalg.matrix_rank(FE) + ncov:
        return
    y = M.gen(n, 43) * 2 + u * 3 - t
    # Frisch-Waugh-Lovell by explicit projection on the dummies
    Q = np.eye(n) - FE @ np.linalg.pinv(FE)
    Z = np.column_stack([np.ones(n), Q @ np.column_stack([W, xs])])
    dfree = n - Z.shape[1] - (len(set(u)) + len(set(treat_periods)) - 2)
    clid = u if not case["cl"] else (u * 3 + 1) % (nu - 1)
    if n <= Z.shape[1] or len(set(clid)) < 2 or dfree < 1:
        return
    b_full = np.linalg.lstsq(X, y, rcond=None)[0][0]
    b, V, res = M.ols(Z, Q @ y, clid)
    cx.ok(abs(b[1] - b_full) < 1e-7 * max(1, abs(b_full)), "harness: FWL", b=b[1], full=b_full)
    ulab = [lambda i: i, lambda i: "u%s" % "dbcaefg"[i], lambda i: 100 - 7 * i, lambda i: i + 0.5][case["lab"]]
    pl = [lambda p: p, lambda p: 2000 + p, lambda p: p, lambda p: 1990 + 2 * p][case["lab"]] if case["per"] == "cal" or staggered else (lambda p: p)
    base = pd.DataFrame(dict(y=y, tr=tr, per=[pl(p) for p in treat_periods], unit=[ulab(i) for i in u],
                             clu=["k%d" % c for c in clid], x1=xs[:, 0] if ncov else 0.0, x2=xs[:, 1] if ncov > 1 else 0.0))
    base["_row"] = np.arange(n)
    kw = dict(alpha=case["alpha"])
    if case["cl"]:
        kw["cluster"] = "clu"
    covs = ["x1", "x2"][:ncov] or None
    df = M.present(base, case["mode"])
    before = df.copy(deep=True)
    fit = lambda d: dd.TwoWayFixedEffects(**kw).fit(d, outcome="y", treatment="tr", time="per", unit="unit", covariates=covs)
    r = cx.op(fit, df)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    cx.eq(r.att, b_full, "effect vs dummy-variable regression", rtol=1e-6, atol=1e-7)
    # time labels 0/1 coded calendar with first period 0: product rule equals status
    cx.eq(r.se, np.sqrt(max(V[1, 1], 0)), "cluster-robust standard error", rtol=1e-5, atol=1e-7)
    if V[1, 1] > 1e-14:
        M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, case["alpha"], dfree, "effect")
    cx.same(r.n_obs, n, "observations")
    nt = len(set(u[(tr == 1)]))
    cx.same((r.n_treated, r.n_control), (nt, len(set(u)) - nt), "unit counts")
    order = df["_row"].to_numpy()
    cx.eq(r.residuals, res[order], "residuals of the within regression", atol=1e-6)
    # an arbitrary constant for a unit and for a period
    for shift in (lambda d: d.assign(y=d.y + 17.0 * (d.unit == ulab(u[0]))), lambda d: d.assign(y=d.y - 11.0 * (d.per == base.per.iloc[-1]))):
        r2 = cx.op(fit, shift(df))
        cx.eq(r2.att, r.att, "effect after a unit/period shift", rtol=1e-6, atol=1e-6)
        cx.eq(r2.se, r.se, "standard error after a unit/period shift", rtol=1e-5, atol=1e-6)
    cx.saw(r.att, r.se)


def within(case, cx):
    from diff_diff import utils as U
    nu, T = case["nu"], case["T"]
    keep = [k for k in range(nu * T) if k not in case["drop"]]
    u, t = np.array(keep) // T, np.array(keep) % T
    n = len(keep)
    lab = [lambda i: i, lambda i: "u%s" % "dbcaefg"[i], lambda i: 100 - 7 * i, lambda i: i + 0.5][case["lab"]]
    base = pd.DataFrame(dict(y=M.gen(n, 71) * 2 + u * 3 - t, z=(M.gen(n, 72) * 100).round(), unit=[lab(i) for i in u], per=[2000 + 3 * k for k in t]))
    base["z"] = base["z"].astype(int) if case["lab"] % 2 else base["z"]
    df = M.present(base.assign(_row=np.arange(n)), case["mode"])
    o = df["_row"].to_numpy()
    FE2 = np.hstack([M.dummies(list(u)), M.dummies(list(t), True)])
    FE1 = M.dummies(list(u))
    suf = ("_demeaned", "_dm", "", "!")[case["suf"]]
    for FE, fn, eff in ((FE2, lambda d, **k: U.within_transform(d, ["y", "z"], "unit", "per", **k), None),
                        (FE1, lambda d, **k: U.demean_by_group(d, ["y", "z"], "unit", **k), len(set(u)) - 1)):
        Q = np.eye(n) - FE @ np.linalg.pinv(FE)
        d = df.copy(deep=True)
        got = cx.op(fn, d, **(dict(inplace=True, suffix="") if case["inplace"] else dict(suffix=suf)))
        if eff is not None:
            got, ne = got
            cx.same(ne, eff, "absorbed effects")
        sfx = "" if case["inplace"] else suf
        for v in ("y", "z"):
            want = Q @ base[v].to_numpy(float)
            cx.eq(got[v + sfx].to_numpy(float), want[o], "within-transformed column vs projection", rtol=1e-8, atol=1e-7)
        cx.same(list(got["_row"]), list(o), "row order")
        cx.same(sorted(map(str, got.columns)), sorted(set(map(str, df.columns)) | {"y" + sfx, "z" + sfx}), "columns")
        if case["inplace"]:
            cx.ok(got is d, "in place returns another frame")
        else:
            cx.ok(M.frame_equal(d, df), "input frame was modified")
            if sfx:
                cx.ok(M.frame_equal(got[list(df.columns)], df), "untransformed columns changed")
        cx.saw(got["y" + sfx].to_numpy(float)[0], n)


def refuse(k, cx, dd):
    df = pd.DataFrame(dict(unit=np.repeat(range(4), 2), post=[0, 1] * 4, tr=[0] * 4 + [1] * 4, y=M.gen(8, 3)))
    F = lambda d, **k2: dd.TwoWayFixedEffects().fit(d, **{**dict(outcome="y", treatment="tr", time="post", unit="unit"), **k2})
    T = [lambda: F(df, unit="zz"), lambda: F(df, time="zz"), lambda: F(df, treatment="zz"), lambda: F(df, outcome="zz"),
         lambda: F(df, covariates=["zz"]), lambda: F(df.assign(tr=0)),
         lambda: dd.TwoWayFixedEffects(cluster="zz").fit(df, outcome="y", treatment="tr", time="post", unit="unit")]
    cx.raises("invalid call %d" % k, (ValueError, KeyError), T[k])
    cx.saw(k)
