"""P14: the factor-model panel estimator (two-step and joint variants)."""
import itertools
import math
from .core import np, pd
from . import models as M
from . import rng as R

PROPERTY = "P14"
RULE = ("one case = (variant, numbers of never-treated/treated units and periods, every absorbing start-date vector, tuning values or grids, "
        "missing unit-period, labels, presentation); resampling cases enumerate every stratified unit draw; distinct by effects and score")
ASSUMPTIONS = ["2-4 never-treated units, 1-2 treated, 3-6 periods, tuning grids of at most 3 values each",
               "iterative fits are run with tol 1e-10 and up to 30000 sweeps so that they reach the optimum; agreement to 1e-6",
               "with a nuclear-norm penalty the reported components are checked against the optimality conditions of the convex criterion"]
ULAB = [lambda i: i, lambda i: "u%s" % "qwertyuiop"[i], lambda i: 500 - 13 * i, lambda i: float(i) + 0.5, lambda i: "%d" % (11 - i)]
TLAB = [lambda t: t, lambda t: 2000 + t, lambda t: "p%s" % "abcdefg"[t], lambda t: 10.0 * t, lambda t: pd.Timestamp(2020, 1 + t, 1)]
INF = float("inf")
TIGHT = dict(tol=1e-10, max_iter=30000)


def designs(n1, T):
    for starts in itertools.product(range(2, T), repeat=n1):
        yield starts


def cases(tier):
    big = tier == "thorough"
    i = 0
    lams = (0.0, 0.7, INF)
    for n0, n1, T in itertools.product((2, 3) + ((4,) if big else ()), (1, 2), (3, 4, 5) + ((6,) if big else ())):
        for starts in designs(n1, T):
            for lt, lu in itertools.product(lams, lams):
                miss = [None] + [i * 7 % ((n0 + n1) * T)]
                if (n0 + n1) * T <= 12 or big:
                    miss = [None] + list(range((n0 + n1) * T))
                for m in miss:
                    i += 1
                    yield dict(kind="two", n0=n0, n1=n1, T=T, starts=starts, lt=lt, lu=lu, miss=m, where=i % 3, lab=i % 5, mode=i % 6, seed=i % 4)
    for n0, n1, T in itertools.product((2, 3), (1, 2), (3, 4, 5)):
        for starts in designs(n1, T):
            if len(set(starts)) > 1:
                continue
            for lt, lu in itertools.product(lams, lams):
                for m in [None, (i * 5) % ((n0 + n1) * T)]:
                    i += 1
                    yield dict(kind="joint", n0=n0, n1=n1, T=T, starts=starts, lt=lt, lu=lu, miss=m, where=i % 3, lab=i % 5, mode=i % 6, seed=i % 4)
    grids = [([0.0, 1.0], [0.0, 1.0], [INF]), ([INF, 0.5], [1.0, INF], [INF]), ([1.0], [0.2, 0.0, 2.0], [INF]), ([0.3, 3.0, 0.0], [0.5], [INF])]
    for method in ("twostep", "joint"):
        for n0, n1, T in itertools.product((2, 3), (1, 2), (3, 4)):
            for starts in designs(n1, T):
                if method == "joint" and len(set(starts)) > 1:
                    continue
                for g in range(len(grids)):
                    for sub in (0, 1):
                        i += 1
                        yield dict(kind="tune", method=method, n0=n0, n1=n1, T=T, starts=starts, g=g, sub=sub, where=i % 3, lab=i % 5, mode=i % 6, seed=i % 4)
    for n0, T in itertools.product((2, 3, 4), (3, 4, 5)):
        for lt, lu in ((0.0, 0.0), (0.7, 0.0), (0.0, 0.7), (0.7, 0.4)):
            for ln in (0.05, 0.3, 1.0, 4.0):
                for method in ("twostep", "joint"):
                    i += 1
                    yield dict(kind="rank", method=method, n0=n0, n1=1, T=T, starts=(T - 1,), lt=lt, lu=lu, ln=ln, where=i % 3, lab=i % 5, mode=i % 6, seed=i % 4)
    for method in ("twostep", "joint"):
        for n0, n1, T in ((2, 1, 3), (2, 2, 3), (3, 1, 3), (2, 1, 4), (2, 2, 4)):
            for starts in designs(n1, T):
                if method == "joint" and len(set(starts)) > 1:
                    continue
                for lt, lu in ((0.0, 0.0), (0.6, 0.0), (0.0, 0.6), (0.5, 0.9)):
                    for var in ("bootstrap", "jackknife"):
                        i += 1
                        yield dict(kind="var", method=method, n0=n0, n1=n1, T=T, starts=starts, lt=lt, lu=lu, var=var, where=i % 3, lab=i % 5, mode=i % 6, seed=i % 4, alpha=(0.05, 0.2)[i % 2])
    for method in ("twostep", "joint"):
        for k in range(9):
            yield dict(kind="refuse", method=method, k=k)


def build(c):
    n0, n1, T, lab, seed = c["n0"], c["n1"], c["T"], c["lab"], c["seed"]
    N = n0 + n1
    where = c["where"] % (n0 + 1)
    treated = list(range(where, where + n1))
    D = np.zeros((T, N), int)
    for i, s in zip(treated, c["starts"]):
        D[s:, i] = 1
    Y = (M.gen(N * T, 70 + seed + N + 3 * T).reshape(T, N) + 2 * M.gen(N, 5 + seed)[None, :] + M.gen(T, 9)[:, None]
         + np.outer(M.gen(T, 21 + seed), M.gen(N, 33))) + 1.5 * D
    rows, k = [], 0
    # label order = position order after sorting labels
    us = sorted((ULAB[lab](i), i) for i in range(N))
    perm = [i for _, i in us]
    for i in range(N):
        for t in range(T):
            if c.get("miss") is not None and c["miss"] == k:
                Y[t, i] = np.nan
                if D[t, i]:
                    D[t, i] = 0
            else:
                rows.append((ULAB[lab](i), TLAB[lab](t), float(Y[t, i]), int(D[t, i])))
            k += 1
    df = M.present(pd.DataFrame(rows, columns=["unit", "time", "y", "d"]), c["mode"])
    return df, Y, D, perm


KW = dict(outcome="y", treatment="d", unit="unit", time="time")


def usable(Y, D):
    """Absorbing design still valid after the missing cell."""
    N = D.shape[1]
    ever = D.any(axis=0)
    if not ever.any() or ever.all():
        return False
    if (~np.isnan(Y)).any(axis=1).all() and (~np.isnan(Y)).any(axis=0).all():
        first = np.where(D.any(axis=1))[0][0]
        return first >= 2
    return False


def dist(Y, D, j, i, t):
    ok = (D[:, i] == 0) & (D[:, j] == 0) & ~np.isnan(Y[:, i]) & ~np.isnan(Y[:, j])
    ok[t] = False
    return math.sqrt(np.mean((Y[ok, i] - Y[ok, j]) ** 2)) if ok.any() else INF


def weights(Y, D, i, t, lt, lu):
    T, N = Y.shape
    lt, lu = (0.0 if np.isinf(lt) else lt), (0.0 if np.isinf(lu) else lu)
    om = np.zeros(N)
    for j in range(N):
        if j == i:
            om[j] = 1
        elif D[t, j] == 0:
            if lu == 0:
                om[j] = 1
            else:
                d = dist(Y, D, j, i, t)
                om[j] = 0.0 if np.isinf(d) else math.exp(-lu * d)
    th = np.array([math.exp(-lt * abs(s - t)) for s in range(T)])
    return np.outer(th, om)


def wls_cell(Y, W, use, i, t):
    """alpha_i + beta_t of the weighted two-way regression on the cells in `use` (None if not estimable)."""
    T, N = Y.shape
    rows = [(s, j) for s in range(T) for j in range(N) if use[s, j] and W[s, j] > 0]
    X = np.array([[1.0 * (j == k) for k in range(N)] + [1.0 * (s == k) for k in range(T)] for s, j in rows])
    sw = np.sqrt([W[s, j] for s, j in rows])
    y = np.array([Y[s, j] for s, j in rows])
    target = np.array([1.0 * (i == k) for k in range(N)] + [1.0 * (t == k) for k in range(T)])
    null = np.linalg.svd(X)[2][np.linalg.matrix_rank(X, tol=1e-9):]
    if len(null) and np.abs(null @ target).max() > 1e-8:
        return None
    b = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)[0]
    return float(target @ b)


def effects(Y, D, lt, lu):
    out = {}
    use = (D == 0) & ~np.isnan(Y)
    for t, i in zip(*np.where(D == 1)):
        m = wls_cell(Y, weights(Y, D, i, t, lt, lu), use, i, t)
        out[(i, t)] = None if m is None else Y[t, i] - m
    return out


def loocv(Y, D, lt, lu):
    use = (D == 0) & ~np.isnan(Y)
    q = 0.0
    for t, i in zip(*np.where(use)):
        u = use.copy()
        u[t, i] = False
        m = wls_cell(Y, weights(Y, D, i, t, lt, lu), u, i, t)
        if m is None:
            return None
        q += (Y[t, i] - m) ** 2
    return q


def jweights(Y, D, lt, lu, post=None):
    T, N = Y.shape
    lt, lu = (0.0 if np.isinf(lt) else lt), (0.0 if np.isinf(lu) else lu)
    if post is None:
        post = T - int(np.where(D.any(axis=1))[0][0])
    tr = np.where(D.any(axis=0))[0]
    avg = np.nanmean(Y[:, tr], axis=1)
    th = np.exp(-lt * np.abs(np.arange(T) - (T - post / 2)))
    om = np.zeros(N)
    for j in range(N):
        d = [(avg[s] - Y[s, j]) ** 2 for s in range(T - post) if np.isfinite(avg[s] - Y[s, j])]
        om[j] = math.exp(-lu * math.sqrt(np.mean(d))) if d else 0.0
    return np.outer(th, om)


def jfit(Y, D, W, target=None):
    """(effect, prediction for target) of the weighted regression with unit, period and treatment effects."""
    T, N = Y.shape
    rows = [(s, j) for s in range(T) for j in range(N) if np.isfinite(Y[s, j]) and W[s, j] > 0]
    f = lambda s, j, d: [1.0 * (j == k) for k in range(N)] + [1.0 * (s == k) for k in range(T)] + [d]
    X = np.array([f(s, j, D[s, j]) for s, j in rows])
    sw = np.sqrt([W[s, j] for s, j in rows])
    y = np.array([Y[s, j] for s, j in rows])
    null = np.linalg.svd(X)[2][np.linalg.matrix_rank(X, tol=1e-9):]
    b = np.linalg.lstsq(X * sw[:, None], y * sw, rcond=None)[0]
    est = lambda v: None if len(null) and np.abs(null @ np.array(v, float)).max() > 1e-8 else float(np.array(v, float) @ b)
    return est(f(-1, -1, 1.0)), None if target is None else est(f(target[0], target[1], 0.0))


def jloocv(Y, D, lt, lu):
    W = jweights(Y, D, lt, lu)
    q = 0.0
    for t, i in zip(*np.where((D == 0) & ~np.isnan(Y))):
        w = W.copy()
        w[t, i] = 0
        m = jfit(Y, D, w, (t, i))[1]
        if m is None:
            return None
        q += (Y[t, i] - m) ** 2
    return q


def run(c, cx):
    import diff_diff as dd
    if c["kind"] == "refuse":
        return refuse(c, cx, dd)
    df, Y, D, perm = build(c)
    if not usable(Y, D):
        return
    T, N = Y.shape
    lab = c["lab"]
    key = lambda i, t: (ULAB[lab](i), TLAB[lab](t))
    if c["kind"] in ("two", "joint"):
        method = "twostep" if c["kind"] == "two" else "joint"
        if method == "joint" and len(set(np.where(D[:, i])[0][0] for i in range(N) if D[:, i].any())) > 1:
            cx.raises("staggered adoption in the joint variant", ValueError, dd.TROP(method="joint", n_bootstrap=2, seed=1).fit, df, **KW)
            cx.saw("staggered")
            return
        est = dd.TROP(method=method, lambda_time_grid=[c["lt"]], lambda_unit_grid=[c["lu"]], lambda_nn_grid=[INF], variance_method="jackknife",
                      max_loocv_samples=1, seed=3, **TIGHT)
        r = cx.op(est.fit, df, **KW)
        book(cx, r, Y, D, lab, key)
        cx.same((r.lambda_time, r.lambda_unit, r.lambda_nn), (c["lt"], c["lu"], INF), "tuning values as supplied")
        if method == "twostep":
            want = effects(Y, D, c["lt"], c["lu"])
            for (i, t), v in want.items():
                if v is not None:
                    cx.eq(r.treatment_effects[key(i, t)], v, "effect of treated observation", atol=2e-6, cell=(i, t))
            if all(v is not None for v in want.values()):
                cx.eq(r.att, np.mean(list(want.values())), "average effect", atol=2e-6)
        else:
            tau, _ = jfit(Y, D, jweights(Y, D, c["lt"], c["lu"]))
            if tau is not None:
                cx.eq(r.att, tau, "joint effect", atol=1e-7)
        cx.saw(r.att)
    elif c["kind"] == "tune":
        tune(c, cx, dd, df, Y, D, lab, key)
    elif c["kind"] == "rank":
        rank(c, cx, dd, df, Y, D, lab, key)
    else:
        variance(c, cx, dd, df, Y, D, lab, perm)


def book(cx, r, Y, D, lab, key):
    T, N = Y.shape
    tre = {key(i, t) for t, i in zip(*np.where(D == 1))}
    cx.same(set(r.treatment_effects), tre, "effects exist for exactly the treated observations")
    cx.eq(r.att, np.mean([r.treatment_effects[k] for k in r.treatment_effects]), "effect is the mean of the per-observation effects", rtol=1e-9)
    cx.same(set(r.unit_effects), {ULAB[lab](i) for i in range(N)}, "unit effect labels")
    cx.same(set(r.time_effects), {TLAB[lab](t) for t in range(T)}, "time effect labels")
    ever = D.any(axis=0)
    first = int(np.where(D.any(axis=1))[0][0])
    cx.same((int(r.n_obs), int(r.n_treated), int(r.n_control), int(r.n_treated_obs), int(r.n_pre_periods), int(r.n_post_periods)),
            (int((~np.isnan(Y)).sum()), int(ever.sum()), int((~ever).sum()), int((D == 1).sum()), first, int(D[first:].any(axis=1).sum())), "counts")


def tune(c, cx, dd, df, Y, D, lab, key):
    G = [([0.0, 1.0], [0.0, 1.0], [INF]), ([INF, 0.5], [1.0, INF], [INF]), ([1.0], [0.2, 0.0, 2.0], [INF]), ([0.3, 3.0, 0.0], [0.5], [INF])][c["g"]]
    kw = dict(method=c["method"], lambda_time_grid=list(G[0]), lambda_unit_grid=list(G[1]), lambda_nn_grid=list(G[2]), variance_method="jackknife", seed=2, **TIGHT)
    r = cx.op(dd.TROP(**kw).fit, df, **KW)
    book(cx, r, Y, D, lab, key)
    f = loocv if c["method"] == "twostep" else jloocv
    Q = {(a, b): f(Y, D, a, b) for a in G[0] for b in G[1]}
    cx.ok(r.lambda_time in G[0] and r.lambda_unit in G[1] and r.lambda_nn in G[2], "tuning values come from the grids", got=(r.lambda_time, r.lambda_unit, r.lambda_nn))
    if all(v is not None for v in Q.values()):
        got = Q[(r.lambda_time, r.lambda_unit)]
        cx.eq(r.loocv_score, got, "leave-one-out score of the chosen values", rtol=1e-5)
        tolq = 2e-6 + 1e-5 * got
        if c["method"] == "joint":
            cx.ok(got <= min(Q.values()) + tolq, "chosen values minimise the criterion over the grid", got=got, best=min(Q.values()))
        else:
            line = [Q[(a, r.lambda_unit)] for a in G[0]] + [Q[(r.lambda_time, b)] for b in G[1]]
            cx.ok(got <= min(line) + tolq, "changing one tuning value does not improve the criterion", got=got, best=min(line))
    if c["method"] == "twostep":
        v = effects(Y, D, r.lambda_time, r.lambda_unit)
        if all(x is not None for x in v.values()):
            cx.eq(r.att, np.mean(list(v.values())), "effect at the chosen values", atol=2e-6)
        # treated outcomes never influence tuning or the fitted untreated outcomes
        d2 = df.copy()
        m = (d2["d"] == 1).values
        d2.loc[:, "y"] = np.where(m, d2["y"] * 3 - 40 + np.arange(len(d2)) * 1.7, d2["y"])
        r2 = cx.op(dd.TROP(**kw).fit, d2, **KW)
        cx.same((r2.lambda_time, r2.lambda_unit, r2.lambda_nn), (r.lambda_time, r.lambda_unit, r.lambda_nn), "tuning ignores treated outcomes")
        cx.eq(r2.loocv_score, r.loocv_score, "score ignores treated outcomes", rtol=1e-9)
        old = {(u, t): y for u, t, y in zip(df["unit"], df["time"], df["y"])}
        new = {(u, t): y for u, t, y in zip(d2["unit"], d2["time"], d2["y"])}
        for k in r.treatment_effects:
            cx.eq(new[k] - r2.treatment_effects[k], old[k] - r.treatment_effects[k], "fitted untreated outcome ignores treated outcomes", atol=1e-7)
    if c["sub"]:        # a subsample of the criterion is still deterministic and does not change the effect given the values
        kw2 = dict(kw, max_loocv_samples=3)
        a, b = cx.op(dd.TROP(**kw2).fit, df, **KW), cx.op(dd.TROP(**kw2).fit, df, **KW)
        cx.same((a.lambda_time, a.lambda_unit, a.loocv_score, a.att), (b.lambda_time, b.lambda_unit, b.loocv_score, b.att), "subsampled tuning is deterministic")
        cx.ok(a.loocv_score <= Q[(a.lambda_time, a.lambda_unit)] + 1e-5 if Q[(a.lambda_time, a.lambda_unit)] is not None else True,
              "subsampled score is part of the full score")
    cx.saw(r.att, r.loocv_score, r.lambda_time, r.lambda_unit)


def rank(c, cx, dd, df, Y, D, lab, key):
    """Optimality conditions of min 1/2 sum W (Y - a_i - b_t - L)^2 + lambda |L|_*."""
    kw = dict(method=c["method"], lambda_time_grid=[c["lt"]], lambda_unit_grid=[c["lu"]], lambda_nn_grid=[c["ln"]], variance_method="jackknife", max_loocv_samples=1, seed=2, tol=1e-9, max_iter=20000)
    r = cx.op(dd.TROP(**kw).fit, df, **KW)
    book(cx, r, Y, D, lab, key)
    T, N = Y.shape
    us, ts = sorted(ULAB[lab](i) for i in range(N)), sorted(TLAB[lab](t) for t in range(T))
    ui = [us.index(ULAB[lab](i)) for i in range(N)]
    ti = [ts.index(TLAB[lab](t)) for t in range(T)]
    L = np.asarray(r.factor_matrix)
    cx.same(L.shape, (T, N), "factor matrix shape")
    L = L[np.ix_(ti, ui)]
    a = np.array([r.unit_effects[ULAB[lab](i)] for i in range(N)])
    b = np.array([r.time_effects[TLAB[lab](t)] for t in range(T)])
    t0, i0 = [int(x[0]) for x in np.where(D == 1)]
    if c["method"] == "twostep":
        W = weights(Y, D, i0, t0, c["lt"], c["lu"]) * (D == 0)
        res = Y - a[None, :] - b[:, None] - L
        cx.eq(r.treatment_effects[key(i0, t0)], res[t0, i0], "effect = outcome - unit - time - factor", atol=1e-8)
    else:
        W = jweights(Y, D, c["lt"], c["lu"])
        z = Y - a[None, :] - b[:, None] - L - r.att * D
        mu = (W * z).sum() / W.sum()          # the intercept is not reported
        res = z - mu
        cx.eq((W * res * D).sum(), 0.0, "treatment effect stationarity", atol=1e-5)
    G = W * res
    cx.eq(G.sum(axis=0), np.zeros(N), "unit effects stationarity", atol=3e-5)
    cx.eq(G.sum(axis=1), np.zeros(T), "time effects stationarity", atol=3e-5)
    top = np.linalg.svd(G)[1][0]
    nuc = np.linalg.svd(L)[1]
    cx.ok(top <= c["ln"] * (1 + 1e-4) + 1e-5, "residual exceeds the penalty: factor part too small", top=top, penalty=c["ln"])
    cx.eq((G * L).sum(), c["ln"] * nuc.sum(), "penalty is active exactly on the factor part", rtol=1e-3, atol=1e-4)
    cx.eq(r.effective_rank, nuc.sum() / nuc[0] if nuc[0] > 0 else 0.0, "effective rank", rtol=1e-6, atol=1e-9)
    cx.saw(r.att, nuc.sum())


def variance(c, cx, dd, df, Y, D, lab, perm):
    T, N = Y.shape
    alpha = c["alpha"]
    ever = D.any(axis=0)
    tr, co = [i for i in range(N) if ever[i]], [i for i in range(N) if not ever[i]]

    def att(cols):
        y, d = Y[:, cols], D[:, cols]
        if c["method"] == "twostep":
            v = effects(y, d, c["lt"], c["lu"])
            return None if any(x is None for x in v.values()) else np.mean(list(v.values()))
        post = T - int(np.where(D.any(axis=1))[0][0])
        return jfit(y, d, jweights(y, d, c["lt"], c["lu"], post))[0]
    kw = dict(method=c["method"], lambda_time_grid=[c["lt"]], lambda_unit_grid=[c["lu"]], lambda_nn_grid=[INF], max_loocv_samples=10 ** 6, alpha=alpha, **TIGHT)
    base = cx.op(dd.TROP(variance_method="jackknife", seed=5, **kw).fit, df, **KW)
    if c["var"] == "jackknife":
        r = base
        if len(tr) < 2:
            cx.ok(not r.se > 0 and np.isnan(r.t_stat) and np.isnan(r.p_value), "jackknife with one treated unit gives no inference", se=r.se)
            cx.saw("one")
            return
        want = [att([j for j in range(N) if j != i]) for i in tr]
        if any(w is None for w in want):
            return
        n = len(want)
        se = math.sqrt((n - 1) / n * np.sum((np.array(want) - np.mean(want)) ** 2))
        cx.eq(r.se, se, "jackknife standard error", rtol=1e-5, atol=5e-6)
    else:
        n0, n1 = len(co), len(tr)
        reals = [q + p for q in R.cube(n0, n0) for p in R.cube(n1, n1)]
        feed = R.Feed(elem=[e for q in reals for e in q])
        with R.controlled(feed):
            r = cx.op(dd.TROP(variance_method="bootstrap", n_bootstrap=len(reals), seed=5, **kw).fit, df, **KW)
        memo = {}
        want = []
        for q in reals:
            k = (tuple(sorted(q[:n0])), tuple(sorted(q[n0:])))
            if k not in memo:
                memo[k] = att([co[e] for e in k[0]] + [tr[e] for e in k[1]])
            want.append(memo[k])
        if any(w is None for w in want):
            return
        free = cx.op(dd.TROP(variance_method="bootstrap", n_bootstrap=20, seed=6, **kw).fit, df, **KW)
        R.members(cx, free.bootstrap_distribution, want, "stratified unit bootstrap", atol=5e-6)
        if not feed.ok():
            cx.saw("uncontrolled")
            free = cx.op(dd.TROP(variance_method="bootstrap", n_bootstrap=200, seed=9, **kw).fit, df, **KW)
            R.frequencies(cx, np.round(free.bootstrap_distribution, 4), np.round(want, 4), "stratified unit bootstrap")
            return
        cx.eq(r.att, base.att, "effect does not depend on the variance method", atol=1e-9)
        cx.eq(np.sort(r.bootstrap_distribution), np.sort(want), "bootstrap effects of all drawn samples", atol=5e-6)
        cx.eq(r.se, np.std(want, ddof=1), "bootstrap standard error", rtol=1e-5, atol=5e-6)
        cx.same(int(r.n_bootstrap), len(reals), "number of replications")
    cx.same(r.variance_method, c["var"], "variance label")
    M.check_inference(cx, r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, max(1, int(D.sum()) - 1), "effect")
    cx.same(r.is_significant, bool(r.p_value < alpha), "significance verdict")
    cx.saw(r.att, r.se)


def refuse(c, cx, dd):
    k, method = c["k"], c["method"]
    base = dict(n0=3, n1=2, T=4, starts=(2, 2), where=1, lab=0, mode=0, seed=1)
    df, Y, D, perm = build(base)
    mk = lambda **q: dd.TROP(method=method, n_bootstrap=2, seed=1, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[INF], **q)
    if k < 4:
        col = ["unit", "time", "y", "d"][k]
        cx.raises("missing column %s" % col, ValueError, mk().fit, df.drop(columns=[col]), **KW)
    elif k == 4:
        d = df.copy()
        d.loc[(d.unit == 1) & (d.time == 3), "d"] = 0
        cx.raises("non-absorbing treatment", ValueError, mk().fit, d, **KW)
    elif k == 5:
        cx.raises("no treated", ValueError, mk().fit, df.assign(d=0), **KW)
    elif k == 6:
        cx.raises("no never-treated unit", ValueError, mk().fit, df.assign(d=(df.time >= 2).astype(int)), **KW)
    elif k == 7:
        cx.raises("fewer than two pre-periods", ValueError, mk().fit, df[df.time > 0], **KW)
    else:
        cx.raises("unknown method", ValueError, dd.TROP, method="three")
        cx.raises("unknown variance method", ValueError, dd.TROP, method=method, variance_method="exact")
    cx.saw(k)
