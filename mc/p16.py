"""P16: power of the pre-trends test."""
import itertools
import math
from .core import np, pd
from . import models as M
from .p15 import cs_result
from scipy import stats

PROPERTY = "P16"
RULE = ("one case = (1-4 pre periods) x violation pattern (every custom vector over {-1,0,1,2}) x covariance family (diagonal, equicorrelated, negative, generic) x level x target power x "
        "result kind; each case explores the whole M grid, the curve, repeated evaluation, the inverse and the shortcuts; real fits bind the covariance to the estimators")
ASSUMPTIONS = ["at most 4 pre periods, positive definite covariance", "a custom pattern lists its weights in the order of the pre periods"]
ALPHA = (0.01, 0.05, 0.1, 0.25, 1e-4)
POW = (0.8, 0.5, 0.95, 0.2, 0.9999)
GRID = (0.0, 0.05, 0.2, 0.5, 1.0, 2.0, 4.0)


def tail(cv, n, nc):
    """P(noncentral chi2_n(nc) > cv) as the Poisson mixture of central tails."""
    if nc <= 0:
        return stats.chi2.sf(cv, n)
    h = nc / 2
    tot, k0 = 0.0, int(h)
    ks = np.arange(max(0, k0 - 400), k0 + 400)
    return float(np.sum(stats.poisson.pmf(ks, h) * stats.chi2.sf(cv, n + 2 * ks)))


def pattern(kind, n, w=None):
    v = {"linear": [float(n - 1 - j) for j in range(n)], "constant": [1.0] * n, "last_period": [0.0] * (n - 1) + [1.0], "custom": w}[kind]
    v = np.array(v, float)
    r = math.sqrt(sum(v ** 2))
    return v / r if r > 0 else v


def cov(fam, n):
    s = np.array([0.2, 0.5, 0.35, 0.8])[:n]
    if fam == 0:
        C = np.eye(n)
    elif fam == 1:
        C = 0.6 * np.ones((n, n)) + 0.4 * np.eye(n)
    elif fam == 2:
        C = -0.2 * np.ones((n, n)) + 1.2 * np.eye(n)
    else:
        A = M.gen(n * n, 55 + n).reshape(n, n)
        C = A @ A.T + np.eye(n)
        d = np.sqrt(np.diag(C))
        C = C / np.outer(d, d)
    return C * np.outer(s, s) * (1.0 if fam != 3 else 9.0)


def mp_pre(dd, V, mode, name, lab):
    """MultiPeriod result whose pre periods 0..n-1 were estimated (n is the omitted one)."""
    from diff_diff.results import MultiPeriodDiDResults, PeriodEffect
    n = len(V)
    L = [lambda t: t, lambda t: 2000 + t, lambda t: "p%d" % t][lab]
    pre, ref, post = [L(t) for t in range(n)], L(n), [L(n + 1), L(n + 2)]
    eff = [0.3 - 0.2 * j for j in range(n)]
    se = np.sqrt(np.diag(V))
    pe = {p: PeriodEffect(period=p, effect=e, se=s, t_stat=e / s, p_value=0.2, conf_int=(e - s, e + s)) for p, e, s in zip(pre, eff, se)}
    for p in post:
        pe[p] = PeriodEffect(period=p, effect=1.0, se=0.2, t_stat=5.0, p_value=0.0, conf_int=(0.6, 1.4))
    co, VV = None, None
    if mode != 2:
        nm = ["const", name] + ["period_%s" % p for p in pre + post] + ["%s:period_%s" % (name, p) for p in pre + post] + ["x1"]
        co = {k: 0.1 for k in nm}
        for p, e in zip(pre, eff):
            co["%s:period_%s" % (name, p)] = e
        VV = np.diag(np.arange(len(nm)) + 5.0) + 0.2
        ix = [nm.index("%s:period_%s" % (name, p)) for p in pre]
        VV[np.ix_(ix, ix)] = V
        if mode == 1:
            VV = None
    if mode == 2:
        pe[ref] = PeriodEffect(period=ref, effect=0.0, se=0.0, t_stat=0.0, p_value=1.0, conf_int=(0.0, 0.0))
    r = MultiPeriodDiDResults(period_effects=pe, avg_att=1.0, avg_se=0.31, avg_t_stat=1.0, avg_p_value=0.3, avg_conf_int=(0, 1), n_obs=10, n_treated=5, n_control=5,
                              pre_periods=pre + [ref], post_periods=post, coefficients=co, vcov=VV)
    return r, np.array(eff), (V if mode == 0 else np.diag(np.diag(V)))


def cases(tier):
    big = tier == "thorough"
    i = 0
    for n in (1, 2, 3, 4):
        cust = [w for w in itertools.product((-1.0, 0.0, 1.0, 2.0), repeat=n) if any(w)]
        if n == 4 and not big:
            cust = cust[::7]
        for pat, w in [("linear", None), ("constant", None), ("last_period", None)] + [("custom", w) for w in cust]:
            for fam in range(4):
                combos = [(a, p) for a in range(4) for p in range(4)] + [(4, 4), (1, 4)]
                if pat == "custom" and not big:
                    combos = [combos[(i * 5 + 3) % 16], combos[(i * 7) % 16]]
                for a, p in combos:
                    i += 1
                    yield dict(kind="mp", n=n, pat=pat, w=w, fam=fam, a=a, p=p, mode=i % 3, name=("treated", "d", "treat:ed")[i // 3 % 3], lab=i // 9 % 3, sc=(1.0, 1e4, 1.0, 1e-3, 250.0)[i % 5])
                    if fam == 0:
                        yield dict(kind="cs", n=n, pat=pat, w=w, a=a, p=p, se=i % 3, ref=i // 3 % 3, order=i // 9 % 3)
    for T in (4, 5, 6):
        for npre in range(2, T - 1):
            for k in range(12 if big else 6):
                i += 1
                yield dict(kind="fit", T=T, npre=npre, cl=k % 2, lab=k % 3, cov=k % 2 if k > 2 else 0, name=("treated", "d")[k // 2 % 2], seed=k, pat=("linear", "constant", "last_period")[i % 3])
    for s in range(24 if big else 12):
        yield dict(kind="stag", s=s)
    for k in range(16):
        yield dict(kind="refuse", k=k)


def drive(cx, dd, res, eff, V, kind, w, alpha, target, pre_periods=None, sc=1.0):
    n = len(V)
    wt = pattern(kind, n, w)
    q = float(wt @ np.linalg.solve(V, wt))
    cv = stats.chi2.ppf(1 - alpha, n)
    pt = dd.PreTrendsPower(alpha=alpha, power=target, violation_type=kind, violation_weights=None if w is None else np.array(w))
    kw = {} if pre_periods is None else dict(pre_periods=pre_periods)
    r = cx.op(pt.fit, res, **kw)
    ses = np.sqrt(np.diag(V))
    cx.same((r.n_pre_periods, r.violation_type, r.alpha, r.target_power), (n, kind, alpha, target), "labels")
    cx.eq(r.vcov, V, "covariance of the pre-period effects", rtol=1e-7)
    cx.eq(r.pre_period_effects, eff, "pre-period effects", rtol=1e-7)
    cx.eq(r.pre_period_ses, ses, "pre-period standard errors", rtol=1e-7)
    cx.eq(r.critical_value, cv, "critical value")
    # minimum detectable violation
    if q <= 0:
        cx.eq(r.power, alpha, "power of a null pattern", atol=1e-9)
        if target > alpha:
            cx.ok(np.isinf(r.mdv), "a null pattern can never be detected", mdv=r.mdv)
            cx.eq(r.violation_magnitude, max(ses), "default magnitude without a detectable violation", rtol=1e-7)
    else:
        if target <= alpha:
            cx.eq(r.mdv, 0.0, "target not above the level", atol=1e-9)
        else:
            cx.eq(tail(cv, n, r.mdv ** 2 * q), target, "power at the minimum detectable violation", rtol=1e-6)
        cx.eq(r.violation_magnitude, r.mdv, "default magnitude is the minimum detectable violation")
        cx.eq(r.power, max(target, alpha), "power there", rtol=1e-6)
        cx.same(bool(r.power_adequate), bool(r.power >= target), "verdict")
    cx.same(bool(r.is_informative), bool(r.mdv < 2 * max(ses)), "informative verdict")
    last = -1.0
    for m in [g * sc for g in GRID]:
        nc = m * m * q
        want = tail(cv, n, nc)
        rm = cx.op(pt.fit, res, M=m, **kw)
        cx.eq(rm.power, want, "power", M=m, rtol=1e-6, atol=1e-9)
        cx.eq([rm.noncentrality, rm.test_statistic, rm.mdv, rm.violation_magnitude], [nc, n + nc, r.mdv, m], "noncentrality, expected statistic, unchanged MDV", M=m)
        cx.same(bool(rm.power_adequate), bool(rm.power >= target), "verdict", M=m)
        for f, tag in ((lambda: pt.power_at(res, m, **kw), "power_at"), (lambda: rm.power_at(m), "result.power_at"), (lambda: r.power_at(m), "default result.power_at"), (lambda: r.power_at(-m), "sign")):
            cx.eq(cx.op(f), want, tag, M=m, rtol=1e-6, atol=1e-9)
        cx.ok(rm.power >= last - 1e-12, "power never decreases in M", M=m)
        last = rm.power
        if m == 0:
            cx.eq(rm.power, alpha, "size", atol=1e-9)
    # curve
    order = tuple(sc * g for g in (2.0, 0.0, 0.5, 0.5, 4.0))
    c = cx.op(pt.power_curve, res, M_grid=list(order), **kw)
    cx.eq(c.M_values, order, "curve grid")
    cx.eq(c.powers, [tail(cv, n, m * m * q) for m in order], "curve powers", rtol=1e-6, atol=1e-9)
    cx.eq(c.mdv, r.mdv, "curve MDV")
    cx.same((c.alpha, c.target_power, c.violation_type), (alpha, target, kind), "curve labels")
    d = cx.op(c.to_dataframe)
    cx.eq(d[["M", "power"]].values, np.column_stack([c.M_values, c.powers]), "curve table")
    c = cx.op(pt.power_curve, res, n_points=9, **kw)
    cx.same(len(c.M_values), 9, "default curve length")
    cx.ok(c.M_values[0] == 0 and all(np.diff(c.M_values) >= 0), "default grid is increasing from zero")
    if q > 0 and target > alpha:
        cx.eq(c.M_values[-1], 2.5 * r.mdv, "default grid reaches 2.5 times the MDV")
    cx.eq(c.powers, [tail(cv, n, m * m * q) for m in c.M_values], "default curve powers", rtol=1e-6, atol=1e-9)
    # shortcuts
    if kind != "custom":
        s = cx.op(dd.compute_pretrends_power, res, M=0.7 * sc, alpha=alpha, target_power=target, violation_type=kind, **kw)
        cx.eq([s.power, s.mdv], [tail(cv, n, 0.49 * sc * sc * q), r.mdv], "compute_pretrends_power", rtol=1e-6)
        cx.eq(cx.op(dd.compute_mdv, res, alpha=alpha, target_power=target, violation_type=kind, **kw), r.mdv, "compute_mdv")
    h = cx.op(pt.sensitivity_to_honest_did, res, **kw)
    cx.eq([h["mdv"], h["max_pre_se"], h["mdv_in_ses"]], [r.mdv, max(ses), r.mdv / max(ses)], "sensitivity dictionary", rtol=1e-7)
    t = cx.op(r.to_dict)
    cx.eq([t[k] for k in ("power", "mdv", "violation_magnitude", "noncentrality", "critical_value", "test_statistic")],
          [r.power, r.mdv, r.violation_magnitude, r.noncentrality, r.critical_value, r.test_statistic], "dictionary")
    text = cx.op(r.summary)
    cx.ok("%.4f" % r.mdv in text and ("%.1f%%" % (100 * r.power)) in text, "summary shows power and MDV")
    # scale: covariance times 4 doubles the MDV is implied by the formula; refit gives the same numbers
    r2 = cx.op(pt.fit, res, **kw)
    cx.eq([r2.power, r2.mdv], [r.power, r.mdv], "repeated evaluation", rtol=0, atol=0)
    cx.saw(kind, n, r.mdv, r.power, last)


def run(c, cx):
    import diff_diff as dd
    k = c["kind"]
    if k == "mp":
        res, eff, V = mp_pre(dd, cov(c["fam"], c["n"]) * c["sc"] ** 2, c["mode"], c["name"], c["lab"])
        drive(cx, dd, res, eff, V, c["pat"], c["w"], ALPHA[c["a"]], POW[c["p"]], sc=c["sc"])
    elif k == "cs":
        eff = [0.4 - 0.3 * j for j in range(c["n"])]
        res = cs_result(dd, eff, [1.0, 2.0], c["se"], c["ref"], c["order"])
        ses = [(0.2, 0.35, 0.5 + 0.1 * j)[c["se"]] for j in range(c["n"])]
        drive(cx, dd, res, eff, np.diag(np.array(ses) ** 2), c["pat"], c["w"], ALPHA[c["a"]], POW[c["p"]])
    elif k == "fit":
        fit(c, cx, dd)
    elif k == "stag":
        stag(c, cx, dd)
    else:
        refuse(c, cx, dd)


def fit(c, cx, dd):
    """All periods but the reference estimated; covariance from an independent regression."""
    T, npre, n = c["T"], c["npre"], 8
    L = [lambda t: t, lambda t: "p%d" % t, lambda t: 2000 + 2 * t][c["lab"]]
    y = M.gen(n * T, 160 + c["seed"]).reshape(n, T)
    x = M.gen(n * T, 190 + c["seed"]).reshape(n, T)
    nm = c["name"]
    df = pd.DataFrame([{"unit": i, "time": L(t), nm: int(i < 4), "y": y[i, t] + (i < 4) * (t >= npre) * 2.0, "x": x[i, t]} for i in range(n) for t in range(T)])
    ref = npre - 1
    posts = [L(t) for t in range(T) if t != ref]
    pre = [L(t) for t in range(npre - 1)]
    e = dd.MultiPeriodDiD(alpha=0.05, cluster="unit" if c["cl"] else None)
    res = cx.op(e.fit, df, outcome="y", treatment=nm, time="time", post_periods=posts, covariates=["x"] if c["cov"] else None)
    D = (df[nm] == 1).values.astype(float)
    cols = [np.ones(len(df)), D] + [(df.time == p).values.astype(float) for p in posts] + [D * (df.time == p).values for p in posts] + ([df.x.values] if c["cov"] else [])
    b, V, _ = M.ols(np.column_stack(cols), df.y.values, cl=list(df.unit) if c["cl"] else None)
    ix = [2 + len(posts) + posts.index(p) for p in pre]
    drive(cx, dd, res, b[ix], V[np.ix_(ix, ix)], c["pat"], None, 0.05, 0.8, pre_periods=pre[::-1] if c["seed"] % 2 else pre)
    if len(pre) > 2:
        drive(cx, dd, res, b[ix], V[np.ix_(ix, ix)], c["pat"], None, 0.05, 0.6, pre_periods=pre[1:] + pre[:1])
    drive(cx, dd, res, b[ix], V[np.ix_(ix, ix)], "custom", [1.0 + j for j in range(len(pre))], 0.1, 0.5, pre_periods=pre + [L(ref)])
    e = cx.raises("only the omitted period", ValueError, dd.PreTrendsPower().fit, res)


def stag(c, cx, dd):
    s = c["s"]
    y = M.gen(12 * 6, 500 + s).reshape(12, 6)
    rows = [dict(unit=i, time=t, g=(0, 0, 0, 4, 4, 5, 5, 6, 6, 4, 0, 5)[i], y=y[i, t - 1]) for i in range(12) for t in range(1, 7)]
    df = pd.DataFrame(rows)
    kw = dict(outcome="y", unit="unit", time="time", first_treat="g")
    if s % 2:
        res = cx.op(dd.CallawaySantAnna(n_bootstrap=0, base_period=("varying", "universal")[s // 2 % 2], control_group=("never_treated", "not_yet_treated")[s // 4 % 2]).fit, df, aggregate="event_study", **kw)
    else:
        res = cx.op(dd.SunAbraham(n_bootstrap=0).fit, df, **kw)
    es = {e: v for e, v in res.event_study_effects.items() if e < 0 and v["n_groups"] > 0 and np.isfinite(v["se"])}
    o = sorted(es)
    V = np.diag([es[e]["se"] ** 2 for e in o])
    for pat in ("linear", "constant", "last_period"):
        drive(cx, dd, res, [es[e]["effect"] for e in o], V, pat, None, 0.05, (0.8, 0.6)[s % 2])
    drive(cx, dd, res, [es[e]["effect"] for e in o], V, "custom", [(-1.0) ** j * (1 + j) for j in range(len(o))], 0.1, 0.5)


def refuse(c, cx, dd):
    k = c["k"]
    P = dd.PreTrendsPower
    res, eff, V = mp_pre(dd, cov(1, 3), 0, "treated", 0)
    if k < 4:
        cx.raises("alpha", ValueError, P, alpha=(0.0, 1.0, -0.1, 1.5)[k])
    elif k < 7:
        cx.raises("target power", ValueError, P, power=(0.0, 1.0, 2.0)[k - 4])
    elif k == 7:
        cx.raises("unknown pattern", ValueError, P, violation_type="quadratic")
    elif k == 8:
        cx.raises("custom without weights", ValueError, P, violation_type="custom")
    elif k in (9, 10, 11):
        cx.raises("weights of the wrong length", ValueError, P(violation_type="custom", violation_weights=np.ones((2, 4, 0)[k - 9])).fit, res)
    elif k == 12:
        cx.raises("unsupported result", TypeError, P().fit, object())
    elif k == 13:
        r = cs_result(dd, [1.0], [1.0], 0, 0, 0)
        r.event_study_effects = None
        cx.raises("no event study", ValueError, P().fit, r)
        cx.raises("no pre periods", ValueError, P().fit, cs_result(dd, [], [1.0], 0, 1, 0))
    elif k == 14:
        res.pre_periods = []
        cx.raises("no pre periods", ValueError, P().fit, res)
    else:
        w = np.array([1.0, 2.0, 3.0])
        before = repr((res.coefficients, res.vcov.tolist(), w.tolist()))
        p = P(violation_type="custom", violation_weights=w)
        cx.op(p.power_curve, res)
        cx.op(p.fit, res)
        cx.same(repr((res.coefficients, res.vcov.tolist(), w.tolist())), before, "inputs are not modified")
    cx.saw(k)
