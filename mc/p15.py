"""P15: sensitivity bounds (HonestDiD)."""
import itertools
import math
from .core import np, pd
from . import models as M
from scipy import optimize, stats

PROPERTY = "P15"
RULE = ("one case = every pre/post coefficient vector over an alphabet (1-3 post, 0-3 pre periods) x standard-error pattern x weights x level x result kind; "
        "each case explores the whole M grid, three orders/starts of the grid and both breakdown searches; real fits bind the mock results to the estimators")
ASSUMPTIONS = ["at most 3 pre and 3 post coefficients", "where no pre-treatment coefficient is estimated the scale is the reported standard error of the overall effect",
               "the smoothness interval is decided against the linear programme with pre-treatment violations fixed at the estimated coefficients"]
PRE = (-1.0, 0.0, 0.4)
POST = (-1.2, 0.3, 2.0)
GRID = (0.0, 0.3, 1.0, 2.5)
WTS = {1: [None, [1.0], [-2.0]], 2: [None, [1.0, 0.0], [0.5, -0.5], [2.0, 1.0]], 3: [None, [0.0, 0.0, 1.0], [1.0, -1.0, 0.5]]}


def cases(tier):
    big = tier == "thorough"
    i = 0
    for q in (1, 2, 3):
        for p in (0, 1, 2, 3):
            for post in itertools.product(POST, repeat=q):
                for pre in itertools.product(PRE, repeat=p):
                    for wi in range(len(WTS[q])):
                        if p + q >= 5 and not big and (i % 3):
                            i += 1
                            continue
                        i += 1
                        yield dict(kind="cs", pre=pre, post=post, w=wi, se=i % 3, ref=i % 3, alpha=(0.05, 0.1, 0.2)[i % 3], order=i % 4)
    for q in (1, 2, 3):
        for post in itertools.product(POST, repeat=q):
            for npre in (1, 2, 3):
                for v in range(4):
                    for wi in range(len(WTS[q])):
                        i += 1
                        yield dict(kind="mp", post=post, npre=npre, v=v, w=wi, alpha=(0.05, 0.1, 0.2)[i % 3], lab=i % 4, order=i % 4)
    # units of measurement, with estimated pre-treatment coefficients
    for unit in (1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e9):
        for q in (1, 2, 3):
            for npre in (0, 1, 2, 3):
                for w in range(len(WTS[q])):
                    for src in ("cs", "mp"):
                        i += 1
                        yield dict(kind="unit", unit=unit, q=q, npre=npre, w=w, src=src, s=i % 3, alpha=(0.05, 0.2)[i % 2])
    for T in (3, 4, 5, 6):
        for posts in [c for r in range(1, T) for c in itertools.combinations(range(T), r)][: 40 if not big else 200]:
            i += 1
            yield dict(kind="fit", T=T, posts=posts, lab=i % 3, cov=i % 3 == 0, cl=i % 2, seed=i % 5, alpha=(0.05, 0.1)[i % 2])
    for s in range(24):
        yield dict(kind="csfit", s=s)
    for k in range(22):
        yield dict(kind="refuse", k=k)


def cs_result(dd, pre, post, se, ref, order, alpha=0.05):
    from diff_diff.staggered_results import CallawaySantAnnaResults
    es = {}
    items = []
    p = len(pre)
    shift = 1 if ref else 0
    for j, v in enumerate(pre):
        items.append((-(p - j) - shift, v, (0.2, 0.35, 0.5 + 0.1 * j)[se]))
    for j, v in enumerate(post):
        items.append((j, v, (0.25, 0.3 + 0.2 * j, 0.6 - 0.1 * j)[se]))
    if ref == 1:
        items.append((-1, 0.0, float("nan")))
    if ref == 2:        # a reference period whose recorded number is not an estimate
        items.append((-1, 9.0, float("nan")))
    if order == 1:
        items = items[::-1]
    if order == 2:
        items = items[1:] + items[:1]
    for e, v, s in items:
        es[e] = dict(effect=v, se=s, t_stat=v / s, p_value=0.5, conf_int=(v - 2 * s, v + 2 * s), n_groups=0 if s != s else 2)
    return CallawaySantAnnaResults(group_time_effects={}, overall_att=1.0, overall_se=0.77, overall_t_stat=1.0, overall_p_value=0.3, overall_conf_int=(0, 1),
                                   groups=[1], time_periods=[0, 1], n_obs=10, n_treated_units=3, n_control_units=3, event_study_effects=es)


def mp_result(dd, post, npre, v, lab, order):
    from diff_diff.results import MultiPeriodDiDResults, PeriodEffect
    L = [lambda t: t, lambda t: 2000 + t, lambda t: "p%d" % t, lambda t: t + 0.5][lab]
    pres = [L(t) for t in range(npre)]
    posts = [L(npre + j) for j in range(len(post))]
    q = len(post)
    A = M.gen(q * q, 31 + npre).reshape(q, q)
    S = A @ A.T * 0.01 + np.diag([0.05 + 0.03 * j for j in range(q)])
    pe = {}
    for t, e, j in zip(posts, post, range(q)):
        s = math.sqrt(S[j, j])
        pe[t] = PeriodEffect(period=t, effect=e, se=s, t_stat=e / s, p_value=0.2, conf_int=(e - s, e + s))
    coefs, V = None, None
    if v == 0:
        S = np.diag(np.diag(S))
    elif v == 1:
        V = S
    else:               # full covariance with intercept, group, periods, interactions (and covariates)
        nm = ["const", "d"] + ["period_%s" % t for t in pres[1:] + posts] + ["d:period_%s" % t for t in posts] + (["x1", "d:w"] if v == 3 else [])
        K = len(nm)
        V = np.diag(np.arange(K) + 7.0) + 0.3
        idx = [nm.index("d:period_%s" % t) for t in posts]
        V[np.ix_(idx, idx)] = S
        coefs = {n: 0.1 for n in nm}
        for t, e in zip(posts, post):
            coefs["d:period_%s" % t] = e
    if order % 2:
        pe = dict(reversed(list(pe.items())))
    r = MultiPeriodDiDResults(period_effects=pe, avg_att=float(np.mean(post)), avg_se=0.31, avg_t_stat=1.0, avg_p_value=0.3, avg_conf_int=(0, 1), n_obs=10, n_treated=5,
                              n_control=5, pre_periods=pres, post_periods=posts, coefficients=coefs, vcov=V)
    return r, S


def sharp_sd(pre, post, l, m):
    """Identified set under bounded second differences, pre-treatment violations equal to their estimates."""
    p, q = len(pre), len(post)
    n = p + q
    A = []
    for k in range(n - 2):
        row = np.zeros(n)
        row[k:k + 3] = 1, -2, 1
        A += [row, -row]
    c = np.zeros(n)
    c[p:] = l
    out = []
    for sg in (1, -1):
        r = optimize.linprog(sg * c, A_ub=np.array(A) if A else None, b_ub=np.full(len(A), m) if A else None, A_eq=np.eye(n)[:p] if p else None, b_eq=np.array(pre) if p else None,
                             bounds=[(None, None)] * n, method="highs")
        if r.status == 2:
            return "empty"
        out.append(sg * r.fun if r.success else -sg * np.inf)
    th = float(np.dot(l, post))
    return th - out[1], th - out[0]


def check_all(cx, dd, res, theta, se, scale, l, alpha, lv, pre=None, post=None):
    z = stats.norm.ppf(1 - alpha / 2)
    tot = float(np.sum(np.abs(l)))
    H = dd.HonestDiD(method="relative_magnitude", alpha=alpha, l_vec=lv)
    prev = None
    for m in GRID:
        r = cx.op(H.fit, res, M=m)
        b = m * scale * tot
        cx.eq([r.lb, r.ub], [theta - b, theta + b], "identified set", atol=1e-9, M=m)
        cx.eq([r.ci_lb, r.ci_ub], [theta - b - z * se, theta + b + z * se], "robust interval", atol=1e-9, M=m)
        cx.eq([r.original_estimate, r.original_se], [theta, se], "estimate and standard error", atol=1e-10)
        cx.same((r.M, r.method, r.alpha), (m, "relative_magnitude", alpha), "labels")
        cx.same(bool(r.is_significant), bool(theta - b - z * se > 0 or theta + b + z * se < 0), "verdict", M=m)
        if prev is not None:
            cx.ok(r.lb <= prev.lb + 1e-12 and r.ub >= prev.ub - 1e-12 and r.ci_lb <= prev.ci_lb + 1e-12 and r.ci_ub >= prev.ci_ub - 1e-12, "bounds are nested in M")
        prev = r
    r1 = cx.op(dd.HonestDiD(method="relative_magnitude", M=1.5, alpha=alpha, l_vec=lv).fit, res)
    cx.eq([r1.lb, r1.ub], [theta - 1.5 * scale * tot, theta + 1.5 * scale * tot], "M given at construction", atol=1e-9)
    # breakdown
    gap = abs(theta) - z * se
    true = 0.0 if gap <= 0 else (np.inf if scale * tot == 0 else gap / (scale * tot))
    near = abs(gap) < 1e-9
    bv = cx.op(H.breakdown_value, res, tol=1e-4)
    if not near:
        if true > 10:
            cx.same(bv, None, "breakdown value beyond the search range")
        else:
            cx.ok(bv is not None and abs(bv - true) <= 2e-4, "breakdown value", got=bv, model=true)
    for grid in ((0, 0.5, 1, 2), (2.0, 0.25, 1.0, 0.0), (1.0, 3.0), (0.1, 0.2)):
        s = cx.op(H.sensitivity_analysis, res, M_grid=list(grid))
        cx.eq(list(s.M_values), list(grid), "M values in the order asked for")
        for m, (lb, ub), (cl, cu) in zip(grid, s.bounds, s.robust_cis):
            b = m * scale * tot
            cx.eq([lb, ub, cl, cu], [theta - b, theta + b, theta - b - z * se, theta + b + z * se], "sensitivity row", atol=1e-9, M=m)
        cx.eq([s.original_estimate, s.original_se, s.alpha], [theta, se, alpha], "sensitivity header", atol=1e-9)
        if not near and abs(true - max(grid)) > 1e-6:
            if true > max(grid):
                cx.same(s.breakdown_M, None, "no breakdown within the grid", model=true)
            else:
                cx.ok(s.breakdown_M is not None and abs(s.breakdown_M - true) <= 1e-5, "breakdown on the grid", got=s.breakdown_M, model=true, grid=grid)
        cx.same(s.has_breakdown, s.breakdown_M is not None, "has_breakdown")
        df = cx.op(s.to_dataframe)
        cx.eq(df[["M", "lb", "ub", "ci_lb", "ci_ub"]].values, np.column_stack([grid, np.array(s.bounds), np.array(s.robust_cis)]), "table", atol=1e-12)
        cx.same([bool(x) for x in df["is_significant"]], [bool(a > 0 or c < 0) for a, c in s.robust_cis], "table verdicts")
    # combined is inside each single restriction; smoothness contains the estimate, nested
    last = None
    for m in (0.0, 0.4, 2.0):
        rm = cx.op(dd.HonestDiD(method="relative_magnitude", M=m, alpha=alpha, l_vec=lv).fit, res)
        sd = cx.op(dd.HonestDiD(method="smoothness", M=m, alpha=alpha, l_vec=lv).fit, res)
        co = cx.op(dd.HonestDiD(method="combined", M=m, alpha=alpha, l_vec=lv).fit, res)
        for one in (rm, sd):
            crossed = max(rm.lb, sd.lb) > min(rm.ub, sd.ub)
            cx.ok(crossed or (co.lb >= one.lb - 1e-9 and co.ub <= one.ub + 1e-9), "combined restriction is inside each single one", co=(co.lb, co.ub), one=(one.lb, one.ub), M=m)
        cx.eq([co.ci_lb, co.ci_ub], [co.lb - z * se, co.ub + z * se], "combined interval", atol=1e-9)
        if not np.isinf(sd.lb):
            cx.eq([sd.ci_lb, sd.ci_ub], [sd.lb - z * se, sd.ub + z * se], "smoothness interval", atol=1e-9)
        else:
            cx.ok(sd.ci_lb == -np.inf and sd.ci_ub == np.inf and not sd.is_significant, "unbounded set gives an unbounded interval", ci=(sd.ci_lb, sd.ci_ub))
        cx.eq([sd.original_estimate, sd.original_se, co.original_estimate, co.original_se], [theta, se] * 2, "estimate under every restriction", atol=1e-10)
        if last is not None:
            cx.ok(sd.lb <= last[0].lb + 1e-9 and sd.ub >= last[0].ub - 1e-9, "smoothness bounds nested in M")
        last = (sd, co)
        if pre is not None:
            want = sharp_sd(pre, post, l, m)
            if want != "empty" and not cx.close([sd.lb, sd.ub], want, rtol=1e-6, atol=1e-7):
                if (sd.lb, sd.ub) == (-np.inf, np.inf):
                    cx.finding("K-SMOOTH", "smoothness bounds are (-inf, inf), the restriction implies %s" % (want,))
                else:
                    cx.bad("smoothness bounds: got %s, model %s" % ((sd.lb, sd.ub), want))
    conv = cx.op(dd.compute_honest_did, res, method="relative_magnitude", M=0.0, alpha=alpha)
    if lv is None:
        cx.eq([conv.ci_lb, conv.ci_ub], [theta - z * se, theta + z * se], "M = 0 reproduces the conventional interval", atol=1e-9)
    cx.saw(theta, se, scale, bv)


def run(c, cx):
    import diff_diff as dd
    kind = c["kind"]
    if kind == "cs":
        pre, post = list(c["pre"]), list(c["post"])
        res = cs_result(dd, pre, post, c["se"], c["ref"], c["order"])
        q = len(post)
        lv = WTS[q][c["w"]]
        l = np.ones(q) / q if lv is None else np.array(lv)
        ses = np.array([(0.25, 0.3 + 0.2 * j, 0.6 - 0.1 * j)[c["se"]] for j in range(q)])
        scale = max(abs(v) for v in pre) if pre else 0.77
        check_all(cx, dd, res, float(l @ post), math.sqrt((l ** 2) @ (ses ** 2)), scale, l, c["alpha"], None if lv is None else np.array(lv), pre, post)
    elif kind == "mp":
        res, S = mp_result(dd, list(c["post"]), c["npre"], c["v"], c["lab"], c["order"])
        q = len(c["post"])
        lv = WTS[q][c["w"]]
        l = np.ones(q) / q if lv is None else np.array(lv)
        check_all(cx, dd, res, float(l @ np.array(c["post"])), math.sqrt(l @ S @ l), 0.31, l, c["alpha"], None if lv is None else np.array(lv))
    elif kind == "unit":
        unit(c, cx, dd)
    elif kind == "fit":
        fit(c, cx, dd)
    elif kind == "csfit":
        csfit(c, cx, dd)
    else:
        refuse(c, cx, dd)


def unit(c, cx, dd):
    u, q, p = c["unit"], c["q"], c["npre"]
    post = [(POST[(c["s"] + j) % 3]) * u for j in range(q)]
    pre = [(PRE[(c["s"] + 2 * j) % 3] + 0.05) * u for j in range(p)]
    lv = WTS[q][c["w"]]
    l = np.ones(q) / q if lv is None else np.array(lv)
    if c["src"] == "cs":
        res = cs_result(dd, pre, post, 0, c["s"], 0)
        for e, d in res.event_study_effects.items():
            d["se"] *= u
        res.overall_se = 0.77 * u
        S = np.diag([(0.25 * u) ** 2] * q)
        scale = max(map(abs, pre)) if pre else 0.77 * u
    else:
        from diff_diff.results import MultiPeriodDiDResults, PeriodEffect
        S = (np.diag([0.05 + 0.03 * j for j in range(q)]) + 0.01) * u * u
        pe = {p + j: PeriodEffect(period=p + j, effect=e, se=math.sqrt(S[j, j]), t_stat=1.0, p_value=0.2, conf_int=(0, 1)) for j, e in enumerate(post)}
        coefs = {"const": 1.0, "treated": 3.0, **{"period_%d" % t: 5.0 for t in range(p + q)}, **{"treated:period_%d" % t: v for t, v in enumerate(pre)},
                 **{"treated:period_%d" % (p + j): v for j, v in enumerate(post)}}
        res = MultiPeriodDiDResults(period_effects=pe, avg_att=float(np.mean(post)), avg_se=0.31 * u, avg_t_stat=1.0, avg_p_value=0.3, avg_conf_int=(0, 1), n_obs=10, n_treated=5,
                                    n_control=5, pre_periods=list(range(p)), post_periods=list(range(p, p + q)), coefficients=coefs, vcov=S)
        scale = max(map(abs, pre)) if pre else 0.31 * u
    theta, se, tot = float(l @ post), math.sqrt(l @ S @ l), float(np.abs(l).sum())
    z = stats.norm.ppf(1 - c["alpha"] / 2)
    for m in (0.0, 0.5, 2.0):
        r = cx.op(dd.HonestDiD(M=m, alpha=c["alpha"], l_vec=None if lv is None else l).fit, res)
        b = m * scale * tot
        cx.eq([r.lb, r.ub, r.ci_lb, r.ci_ub, r.original_estimate, r.original_se], [theta - b, theta + b, theta - b - z * se, theta + b + z * se, theta, se],
              "identified set and interval in small and large units", rtol=1e-7, atol=1e-9 * u, M=m)
    s = cx.op(dd.HonestDiD(alpha=c["alpha"], l_vec=None if lv is None else l).sensitivity_analysis, res, M_grid=[0.0, 1.0, 20.0])
    gap = abs(theta) - z * se
    if abs(gap) > 1e-6 * u:
        true = 0.0 if gap <= 0 else gap / (scale * tot)
        if abs(true - 20) > 1e-3:
            cx.ok(s.breakdown_M is None if true > 20 else s.breakdown_M is not None and abs(s.breakdown_M - true) <= 1e-4, "breakdown value does not depend on the unit", got=s.breakdown_M, model=true)
    cx.saw(theta / u, scale / u, u)


def fit(c, cx, dd):
    T, posts = c["T"], list(c["posts"])
    L = [lambda t: t, lambda t: "p%d" % t, lambda t: 2000 + 2 * t][c["lab"]]
    n = 8
    y = M.gen(n * T, 60 + c["seed"]).reshape(n, T)
    x = M.gen(n * T, 90 + c["seed"]).reshape(n, T)
    df = pd.DataFrame([dict(unit=i, time=L(t), d=int(i < 4), y=y[i, t] + (i < 4) * (t in posts) * (2.0 + t), x=x[i, t]) for i in range(n) for t in range(T)])
    e = dd.MultiPeriodDiD(alpha=c["alpha"], cluster="unit" if c["cl"] else None)
    res = cx.op(e.fit, df, outcome="y", treatment="d", time="time", post_periods=[L(t) for t in posts], covariates=["x"] if c["cov"] else None)
    r0 = cx.op(dd.HonestDiD(M=0.0, alpha=c["alpha"]).fit, res)
    cx.eq([r0.original_estimate, r0.original_se], [res.avg_att, res.avg_se], "equal weights reproduce the average effect and its standard error", rtol=1e-7)
    q = len(posts)
    for j in range(q):
        lv = np.zeros(q)
        lv[j] = 1.0
        r = cx.op(dd.HonestDiD(M=0.0, alpha=c["alpha"], l_vec=lv).fit, res)
        pe = res.period_effects[res.post_periods[j]]
        cx.eq([r.original_estimate, r.original_se], [pe.effect, pe.se], "unit weight reproduces that period's effect", rtol=1e-7)
    r = cx.op(dd.HonestDiD(M=1.0, alpha=c["alpha"]).fit, res)
    z = stats.norm.ppf(1 - c["alpha"] / 2)
    cx.eq([r.lb, r.ub, r.ci_lb, r.ci_ub], [res.avg_att - res.avg_se, res.avg_att + res.avg_se, res.avg_att - (1 + z) * res.avg_se, res.avg_att + (1 + z) * res.avg_se], "bounds on a real fit", rtol=1e-7)
    cx.saw(r0.original_estimate, r0.original_se)


def csfit(c, cx, dd):
    from . import csmodel as CM
    s = c["s"]
    rows = []
    y = M.gen(12 * 6, 400 + s).reshape(12, 6)
    for i in range(12):
        g = (0, 0, 0, 2, 2, 3, 3, 4, 4, 4, 0, 3)[i]
        for t in range(1, 7):
            rows.append(dict(unit=i, time=t, g=g, y=y[i, t - 1] + (g > 0 and t >= g) * 2.0))
    df = pd.DataFrame(rows)
    res = cx.op(dd.CallawaySantAnna(base_period=("varying", "universal")[s % 2], anticipation=0, n_bootstrap=0, control_group=("never_treated", "not_yet_treated")[s // 2 % 2]).fit,
                df, outcome="y", unit="unit", time="time", first_treat="g", aggregate="event_study")
    es = {e: v for e, v in res.event_study_effects.items() if v["n_groups"] > 0 and np.isfinite(v["se"])}
    pre, post = [e for e in sorted(es) if e < 0], [e for e in sorted(es) if e >= 0]
    q = len(post)
    for j, lv in enumerate([None] + [np.eye(q)[k] for k in range(q)]):
        l = np.ones(q) / q if lv is None else lv
        theta = float(l @ [es[e]["effect"] for e in post])
        se = math.sqrt((l ** 2) @ [es[e]["se"] ** 2 for e in post])
        scale = max(abs(es[e]["effect"]) for e in pre)
        check_all(cx, dd, res, theta, se, scale, l, (0.05, 0.2)[s % 2], lv)
    cx.saw(theta)


def refuse(c, cx, dd):
    k = c["k"]
    res, S = mp_result(dd, [1.0, 2.0], 2, 2, 0, 0)
    H = dd.HonestDiD
    if k == 0:
        cx.raises("negative M", ValueError, H, M=-0.1)
    elif k == 1:
        cx.raises("unknown method", ValueError, H, method="exact")
    elif k in (2, 3):
        cx.raises("alpha", ValueError, H, alpha=(0.0, 1.0)[k - 2])
    elif k == 4:
        cx.raises("weights of the wrong length", ValueError, H(l_vec=np.array([1.0])).fit, res)
    elif k == 5:
        cx.raises("unsupported result", TypeError, H().fit, object())
    elif k == 6:
        r = cs_result(dd, [1.0], [1.0], 0, 0, 0)
        r.event_study_effects = None
        cx.raises("no event study", ValueError, H().fit, r)
    elif k in (7, 8, 9):
        cls, kw = [(dd.DeltaSD, dict(M=-1.0)), (dd.DeltaRM, dict(Mbar=-1.0)), (dd.DeltaSDRM, dict(M=0.0, Mbar=-2.0))][k - 7]
        cx.raises("negative restriction", ValueError, cls, **kw)
    elif k == 10:
        h = H()
        cx.raises("unknown parameter", ValueError, h.set_params, nope=1)
    elif k == 11:
        cx.same((H().M, H(method="smoothness").M, H(method="combined").M), (1.0, 0.0, 0.0), "default M")
    elif k == 12:
        res.period_effects[res.post_periods[0]].effect = float("nan")
        r = cx.op(H(M=1.0).fit, res)
        cx.ok(not r.is_significant, "a missing interval is not significant", ci=(r.ci_lb, r.ci_ub))
        cx.same(r.significance_stars, "", "no star on a missing interval")
        s = cx.op(H().sensitivity_analysis, res, M_grid=[0, 1])
        cx.ok(not s.to_dataframe()["is_significant"].any(), "sensitivity table without interval")
    elif k == 13:
        res2, _ = mp_result(dd, [0.0, 0.01], 2, 2, 0, 0)
        s = cx.op(H().sensitivity_analysis, res2, M_grid=[0, 1])
        cx.same(s.breakdown_M, 0.0, "insignificant at M = 0")
        cx.ok("None" not in repr(s), "breakdown of 0 is printed", text=repr(s))
    elif k == 14:
        s = cx.op(H().sensitivity_analysis, res)
        cx.eq(list(s.M_values), [0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0], "default grid")
    elif k in (16, 17, 18):
        m = ("relative_magnitude", "smoothness", "combined")[k - 16]
        for bad in (-1.0, -1e-9, float("nan")):
            cx.raises("negative or missing M for one fit", ValueError, H(method=m).fit, res, M=bad)
            cx.raises("negative or missing M in a grid", ValueError, H(method=m).sensitivity_analysis, res, M_grid=[0.0, bad])
            cx.raises("negative or missing M", ValueError, H, method=m, M=bad)
        h = H(method=m)
        cx.raises("invalid M set later", ValueError, h.set_params, M=-0.5)
        cx.raises("invalid alpha set later", ValueError, h.set_params, alpha=1.5)
    elif k in (19, 20, 21):
        m = ("relative_magnitude", "smoothness", "combined")[k - 19]
        grid = list(cx.op(H(method=m).sensitivity_analysis, res).M_values)
        cx.eq(grid, [0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0] if k == 19 else [0, 0.1, 0.2, 0.3, 0.5, 0.75, 1.0], "default grid")
        from diff_diff.honest_did import sensitivity_plot
        import matplotlib.pyplot as plt
        for g in (None, [0.0, 0.7, 1.4]):
            s = cx.op(H(method=m, alpha=0.2).sensitivity_analysis, res, M_grid=g)
            fig, ax = plt.subplots()
            out = cx.op(sensitivity_plot, res, method=m, M_grid=g, alpha=0.2, ax=ax)
            cx.ok(out is ax, "the axes given are used")
            fig2, ax2 = plt.subplots()
            cx.op(s.plot, ax=ax2)
            draw = lambda a: [np.asarray(q, float).tolist() for q in [l.get_xydata() for l in a.lines] + [p.vertices for c in a.collections for p in c.get_paths()]]
            cx.same(repr(draw(ax)), repr(draw(ax2)), "shortcut plot draws the sensitivity analysis")
            plt.close(fig), plt.close(fig2)
    else:
        before = repr(res.to_dict()) if hasattr(res, "to_dict") else repr(res)
        cx.op(H().sensitivity_analysis, res)
        cx.same(repr(res.to_dict()) if hasattr(res, "to_dict") else repr(res), before, "the result is not modified")
    cx.saw(k)
