"""P04: multi-period estimator against the saturated regression."""
import itertools
from .core import np, pd
from . import models as M

PROPERTY = "P04"
RULE = ("one case = number of periods x every post-period subset x every reference period x cell-count pattern x label "
        "type x covariance option x covariate, and panels with one post period missing one of the groups; distinct by average effect and standard error")
ASSUMPTIONS = ["2..4 periods (thorough 5), 1..3 observations per treatment-period cell, one covariate, one fixed-effect column"]


def plabels(kind, T):
    if kind == 0:
        return list(range(T))
    if kind == 1:
        return [2010 + 3 * i for i in range(T)]
    if kind == 2:
        return ["p%s" % "abcdef"[i] for i in range(T)]
    if kind == 3:
        return [pd.Timestamp("2020-01-01") + pd.Timedelta(days=40 * i) for i in range(T)]
    return [-1.5 + i for i in range(T)]


def cases(tier):
    i = 0
    for T in ((2, 3, 4, 5) if tier == "thorough" else (2, 3, 4)):
        for r in range(1, T):
            for post in itertools.combinations(range(T), r):
                for ref in [None] + list(range(T)):
                    for pat in range(3):
                        for se in range(3):
                            for lab in range(5):
                                i += 1
                                yield dict(T=T, post=post, ref=ref, pat=pat, se=se, lab=lab, cov=i % 2, fe=int(i % 5 == 0),
                                           mode=i % 6, alpha=(0.05, 0.1, 0.01)[i % 3])
        for lab in range(5):
            for pat in range(3):
                yield dict(T=T, post=None, ref=None, pat=pat, se=0, lab=lab, cov=0, fe=0, mode=pat + lab, alpha=0.05)
    for T in (3, 4, 5) if tier == "thorough" else (3, 4):
        for r in range(1, T):
            for post in itertools.combinations(range(T), r):
                for hole in post:
                    for key in (0, 1):
                        for se in range(3):
                            i += 1
                            yield dict(hole=hole, key=key, T=T, post=post, se=se, lab=i % 5, cov=i % 2, mode=i % 6, alpha=(0.05, 0.1, 0.01)[i % 3])
    for nu in (4, 5):
        for T in (3, 4):
            for nt in range(1, nu):
                for post in ([T - 1], [1, T - 1], list(range(1, T))):
                    for ab in (0, 1):
                        i += 1
                        yield dict(absorb=ab, nu=nu, T=T, nt=nt, post=post, lab=i % 5, cov=i % 2, mode=i % 6, alpha=(0.05, 0.1, 0.01)[i % 3], pre=i % 3)
    for k in range(8):
        yield dict(refuse=k)


def run(case, cx):
    import diff_diff as dd
    if "refuse" in case:
        return refuse(case["refuse"], cx, dd)
    if "hole" in case:
        return hole(case, cx, dd)
    if "absorb" in case:
        return absorb(case, cx, dd)
    T, pat = case["T"], case["pat"]
    rows = []
    for t in range(T):
        for d in (0, 1):
            c = 2 if pat == 0 else 1 + (t + d) % 3 if pat == 1 else (3 if (t == 0) == (d == 1) else 2)
            rows += [(d, t)] * c
    if pat == 1:
        rows += [(0, 0), (1, 0), (0, T - 1)]
    d = np.array([r[0] for r in rows])
    t = np.array([r[1] for r in rows])
    n = len(rows)
    lab = plabels(case["lab"], T)
    post = case["post"]
    mpost = list(range(T // 2, T)) if post is None else list(post)
    y = M.gen(n, 17) * 3 + t + 10
    x = M.gen(n, 18)
    f = np.array([(i * 2 + 1) % 3 for i in range(n)])
    cols = [np.ones(n), d] + [(t == p) * 1.0 for p in range(1, T)] + [d * (t == p) for p in mpost]
    j0 = 2 + T - 1
    if case["cov"]:
        cols.append(x)
    X = np.column_stack(cols)
    if case["fe"]:
        X = np.hstack([X, M.dummies(list(f), True)])
    k = X.shape[1]
    if n <= k or np.linalg.matrix_rank(X) < k:
        return
    cl = ["c%d" % ((i * 3) % 5) for i in range(n)] if case["se"] == 2 else None
    df = pd.DataFrame({"y": y, "tr": d, "when": [lab[p] for p in t], "x": x, "f": f, "_row": np.arange(n)})
    kw = dict(alpha=case["alpha"], robust=case["se"] != 1)
    if cl:
        df["cl"] = cl
        kw["cluster"] = "cl"
    df = M.present(df, case["mode"])
    order = df["_row"].to_numpy()
    before = df.copy(deep=True)
    est = dd.MultiPeriodDiD(**kw)
    fkw = dict(outcome="y", treatment="tr", time="when")
    if post is not None:
        fkw["post_periods"] = [lab[p] for p in post][::-1 if case["mode"] % 2 else 1]
    if case["ref"] is not None:
        fkw["reference_period"] = lab[case["ref"]]
    if case["cov"]:
        fkw["covariates"] = ["x"]
        if case["mode"] in (1, 5):       # a redundant covariate: it must change nothing, degrees of freedom included
            df["x2"] = 2.0 * df["x"] if case["mode"] == 1 else 3.0 - df["x"]
            before = df.copy(deep=True)
            fkw["covariates"] = ["x", "x2"]
            est = dd.MultiPeriodDiD(rank_deficient_action="silent", **kw)
    if case["fe"]:
        fkw["fixed_effects"] = ["f"]
    r = cx.op(est.fit, df, **fkw)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    b, V, u = M.ols(X, y, cl, "classical" if case["se"] == 1 else "hc1")
    dfree = n - k
    cx.same(sorted(map(str, r.period_effects)), sorted(str(lab[p]) for p in mpost), "set of reported periods")
    cx.same([str(p) for p in r.pre_periods], [str(lab[p]) for p in range(T) if p not in mpost], "pre periods")
    cx.same(sorted(str(p) for p in r.post_periods), sorted(str(lab[p]) for p in mpost), "post periods")
    for q, p in enumerate(mpost):
        pe = r.period_effects.get(lab[p])
        if not cx.ok(pe is not None, "no effect for period %s" % lab[p]):
            continue
        cx.same(str(pe.period), str(lab[p]), "period label of the record")
        cx.eq(pe.effect, b[j0 + q], "effect in period %s" % lab[p], atol=1e-8)
        cx.eq(pe.se, np.sqrt(V[j0 + q, j0 + q]), "standard error in period %s" % lab[p], rtol=1e-6)
        M.check_inference(cx, pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int, case["alpha"], dfree, "period %s" % lab[p])
        cx.eq(cx.op(r.get_effect, lab[p]).effect, b[j0 + q], "lookup of the period effect", atol=1e-8)
        cx.eq(r.coefficients.get("tr:period_%s" % lab[p]), b[j0 + q], "named coefficient", atol=1e-8)
        if not case["cov"] and not case["fe"] and pat == 0:
            gap = lambda s: y[s & (d == 1)].mean() - y[s & (d == 0)].mean()
            pre = np.isin(t, [s for s in range(T) if s not in mpost])
            cx.eq(pe.effect, gap(t == p) - gap(pre), "effect vs gap in means", atol=1e-8)
    J = list(range(j0, j0 + len(mpost)))
    avg = b[J].mean()
    ase = np.sqrt(V[np.ix_(J, J)].sum()) / len(J)
    cx.eq(r.avg_att, avg, "average effect", atol=1e-8)
    cx.eq(r.avg_se, ase, "standard error of the average", rtol=1e-6)
    M.check_inference(cx, r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, case["alpha"], dfree, "average")
    cx.eq(r.residuals, u[order], "residuals", atol=1e-7)
    cx.eq(r.fitted_values, (y - u)[order], "fitted values", atol=1e-7)
    cx.eq(r.r_squared, 1 - u @ u / ((y - y.mean()) ** 2).sum(), "R-squared")
    cx.same((r.n_obs, r.n_treated, r.n_control), (n, int(d.sum()), int(n - d.sum())), "counts")
    df2 = cx.op(r.to_dataframe)
    cx.same(len(df2), len(mpost), "rows of the exported table")
    cx.saw(avg, ase)


def absorb(case, cx, dd):
    """Balanced panel with absorbed effects: the dummy regression's effects, and degrees of freedom net of every absorbed level."""
    nu, T, nt, post = case["nu"], case["T"], case["nt"], case["post"]
    u, t = np.repeat(np.arange(nu), T), np.tile(np.arange(T), nu)
    n = nu * T
    d = (u >= nu - nt).astype(int)
    lab = plabels(case["lab"], T)
    y = M.gen(n, 57) * 3 + t + 4 * u
    x = M.gen(n, 58)
    region = (u * 2 + 1) % 3          # a second absorbed effect, nested in the units
    ab = [["unit"], ["region", "unit"]][case["absorb"]]
    W = np.column_stack([d * (t == p) for p in post] + ([x] if case["cov"] else []))
    X = np.hstack([W, M.dummies(list(u)), M.dummies(list(t), True)])
    if np.linalg.matrix_rank(X) < X.shape[1]:
        return
    b = np.linalg.lstsq(X, y, rcond=None)[0][:len(post)]
    df = pd.DataFrame({"y": y, "tr": d, "when": [lab[p] for p in t], "x": x, "unit": ["u%d" % i for i in u], "region": region})
    df = M.present(df, case["mode"])
    kw = dict(covariates=["x"]) if case["cov"] else {}
    r = cx.op(dd.MultiPeriodDiD(alpha=case["alpha"]).fit, df, outcome="y", treatment="tr", time="when", post_periods=[lab[p] for p in post], absorb=ab, **kw)
    levels = sum(len(set(c)) - 1 for c in ((u,) if case["absorb"] == 0 else (region, u)))
    dfree = n - (2 + T - 1 + len(post) + case["cov"]) - levels
    for j, p in enumerate(post):
        pe = r.period_effects[lab[p]]
        cx.eq(pe.effect, b[j], "effect in period %s with absorbed effects" % lab[p], atol=1e-8)
        if dfree > 0:
            M.check_inference(cx, pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int, case["alpha"], dfree, "period %s" % lab[p])
    cx.eq(r.avg_att, b.mean(), "average effect with absorbed effects", atol=1e-8)
    if dfree > 0:
        M.check_inference(cx, r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, case["alpha"], dfree, "average")
    cx.saw(r.avg_att, r.avg_se)


def hole(case, cx, dd):
    """A post period in which one group is never observed: its effect is not identified, the others are unaffected."""
    T, post, h = case["T"], list(case["post"]), case["hole"]
    rows = [(d, t) for t in range(T) for d in (0, 1) for _ in range(2 + (t + d) % 2) if not (t == h and d == case["key"])]
    d, t = np.array(rows).T
    n = len(rows)
    lab = plabels(case["lab"], T)
    y = M.gen(n, 37) * 3 + t + 10
    x = M.gen(n, 38)
    keep = [p for p in post if p != h]
    X = np.column_stack([np.ones(n), d] + [(t == p) * 1.0 for p in range(1, T)] + [d * (t == p) for p in keep] + ([x] if case["cov"] else []))
    k = X.shape[1]
    if n <= k or np.linalg.matrix_rank(X) < k:
        return
    cl = ["c%d" % ((i * 3) % 5) for i in range(n)] if case["se"] == 2 else None
    df = pd.DataFrame({"y": y, "tr": d, "when": [lab[p] for p in t], "x": x})
    kw = dict(alpha=case["alpha"], robust=case["se"] != 1, rank_deficient_action="silent" if case["mode"] % 2 else "warn")
    if cl:
        df["cl"] = cl
        kw["cluster"] = "cl"
    df = M.present(df, case["mode"])
    r = cx.op(dd.MultiPeriodDiD(**kw).fit, df, outcome="y", treatment="tr", time="when", post_periods=[lab[p] for p in post], **(dict(covariates=["x"]) if case["cov"] else {}))
    b, V, u = M.ols(X, y, cl, "classical" if case["se"] == 1 else "hc1")
    for p in post:
        pe = r.period_effects[lab[p]]
        if p == h:
            cx.ok(all(np.isnan(v) for v in (pe.effect, pe.se, pe.t_stat, pe.p_value, *pe.conf_int)), "effect of a period without one of the groups", got=[pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int])
            continue
        j = 2 + T - 1 + keep.index(p)
        cx.eq(pe.effect, b[j], "effect in period %s" % lab[p], atol=1e-8)
        cx.eq(pe.se, np.sqrt(V[j, j]), "standard error in period %s" % lab[p], rtol=1e-6)
        M.check_inference(cx, pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int, case["alpha"], n - k, "period %s" % lab[p])
    cx.ok(all(np.isnan(v) for v in (r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, *r.avg_conf_int)), "average over a period that is not identified", got=[r.avg_att, r.avg_se, r.avg_p_value])
    cx.saw(case["key"], *b)


def refuse(k, cx, dd):
    n = 12
    df = pd.DataFrame(dict(y=M.gen(n, 3), d=[0, 1] * 6, t=np.repeat([0, 1, 2], 4)))
    kw = dict(outcome="y", treatment="d", time="t")
    E = dd.MultiPeriodDiD
    T = [
        lambda: E().fit(df, post_periods=[5], **kw),
        lambda: E().fit(df, post_periods=[], **kw),
        lambda: E().fit(df, post_periods=[0, 1, 2], **kw),
        lambda: E().fit(df, reference_period=9, **kw),
        lambda: E().fit(df.assign(t=1), **kw),
        lambda: E().fit(df.assign(d=df.d * 2), **kw),
        lambda: E().fit(df, outcome="q", treatment="d", time="t"),
        lambda: E().fit(df.assign(y=[np.nan] + [1.0] * 11), **kw),
    ]
    cx.raises("invalid call %d" % k, (ValueError, KeyError), T[k])
    r = E().fit(df, post_periods=[1, 2], **kw)
    cx.raises("effect of a pre period", (KeyError, ValueError), r.get_effect, 0)
    cx.saw("refused", k)
