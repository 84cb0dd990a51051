"""P30: estimators agree wherever their estimands coincide; shortcuts equal what they wrap."""
import inspect
import itertools
import warnings
from .core import np, pd
from . import models as M
from . import zoo

PROPERTY = "P30"
RULE = ("one case = balanced panel (numbers of treated and control units, periods, adoption date, outcomes from a small alphabet or generic, unit / time / cohort label types, row order) on which every estimator of the same contrast runs; "
        "or one shortcut x every setting of one or two of its options against the object it wraps; or one way of requesting a result against another")
ASSUMPTIONS = ["2-6 units, 2-5 periods, one adoption date", "synthetic weights are made uniform by a penalty of 1e12 and are then uniform to 1e-9", "the factor model without its low-rank part (infinite penalty) and with flat weights is two-way imputation"]
MIN_OUTCOMES = 20
VALS = (0.0, 1.0, 5.0)


def cases(tier):
    big = tier == "thorough"
    # all outcome tables over a small alphabet for the smallest panels
    for k, v in enumerate(itertools.product(VALS, repeat=4)):
        yield dict(kind="panel", nt=1, nc=1, T=2, g=2, y=list(v), lab=k % 5, order=k % 4)
    tabs = list(itertools.product(VALS[:2], repeat=6)) + list(itertools.product((0.0, 5.0, 2.0), repeat=6))[:: (1 if big else 7)]
    for k, v in enumerate(tabs):
        yield dict(kind="panel", nt=1, nc=1, T=3, g=2 + k % 2, y=list(v), lab=k % 5, order=k % 4)
        yield dict(kind="panel", nt=1 + k % 2, nc=2 - k % 2, T=2, g=2, y=list(v), lab=k % 5, order=k % 4)
    i = 0
    for nt, nc, T in itertools.product((1, 2, 3), (1, 2, 3), (2, 3, 4, 5)):
        for g in range(2, T + 1):
            for s in range(12 if big else 3):
                i += 1
                yield dict(kind="panel", nt=nt, nc=nc, T=T, g=g, y=s, lab=i % 5, order=i % 4)
    for c in itertools.product((1, 2), repeat=4):
        for s in range(4 if big else 2):
            for T in (2, 3):
                i += 1
                yield dict(kind="ddd", n=list(c), T=T, s=s, order=i % 4)
    for w in WRAP:
        opts = WRAP[w][1]
        names = list(opts)
        yield dict(kind="wrap", w=w, set={})
        seen = 0
        for r in (1, 2) if not big else (1, 2, 3):
            for q in itertools.combinations(names, r):
                for idx in itertools.product(*[range(len(opts[x])) for x in q]):
                    seen += 1
                    if r == 1 or big or w != "trop" or seen % 3 == 0:
                        yield dict(kind="wrap", w=w, set={x: j for x, j in zip(q, idx)})
    for k in range(len(WAYS)):
        for s in range(4 if big else 2):
            yield dict(kind="way", k=k, s=s)
    for nt, nc, T, g in itertools.product((2, 3), (2, 3), (3, 4, 5), (2, 3)):
        for opt in range(12):
            yield dict(kind="single", nt=nt, nc=nc, T=T, g=g, opt=opt, s=(nt + nc + opt) % 3)


ULAB = [lambda i: i, lambda i: "u%d" % (9 - i), lambda i: 100.5 - i, lambda i: "%d" % i, lambda i: -3 * i]
TLAB = [lambda t: t, lambda t: 2000 + t, lambda t: t + 10, lambda t: 3 * t, lambda t: t - 2 if t - 2 > 0 else t + 4]


def build(c):
    nt, nc, T, g = c["nt"], c["nc"], c["T"], c["g"]
    n = nt + nc
    if isinstance(c["y"], list):
        y = np.array(c["y"]).reshape(n, T)
    else:
        y = M.gen(n * T, 40 + 11 * c["y"] + n).reshape(n, T) + 0.7 * np.arange(n)[:, None]
    tl = {0: 0, 1: 2000, 2: 10, 3: 0, 4: 5}[c["lab"]]
    step = 3 if c["lab"] == 3 else 1
    tv = lambda t: tl + step * t
    rows = [dict(u=ULAB[c["lab"]](i), t=tv(t + 1), y=float(y[i, t]), d=int(i < nt), post=int(t + 1 >= g), g=tv(g) if i < nt else 0, i=i, tt=t + 1) for i in range(n) for t in range(T)]
    df = pd.DataFrame(rows)
    df["dp"] = df.d * df.post
    o = c["order"]
    if o == 1:
        df = df.iloc[::-1]
    elif o == 2:
        df = df.sort_values(["t", "u"], ascending=[True, False])
    elif o == 3:
        df = df.sort_values(["post", "d", "u"]).reset_index(drop=True)
    return df, y, tv, step


def run(case, cx):
    import diff_diff as dd
    warnings.simplefilter("ignore")
    globals()["r_" + case["kind"]](case, cx, dd)


def r_panel(c, cx, dd):
    df, y, tv, step = build(c)
    nt, nc, T, g = c["nt"], c["nc"], c["T"], c["g"]
    tr, co = y[:nt].mean(axis=0), y[nt:].mean(axis=0)
    gap = tr - co
    did = gap[g - 1:].mean() - gap[:g - 1].mean()
    A = dict(atol=1e-8)
    got = {}

    def is_(name, v, want=None):
        got[name] = v
        cx.eq(v, did if want is None else want, name, **A)

    fit = lambda est, **k: cx.op(est.fit, df.copy(), **k)
    B = dict(outcome="y", treatment="d")
    U = dict(outcome="y", treatment="d", unit="u")
    n = nt + nc
    pers = [tv(t) for t in range(1, T + 1)]
    post = pers[g - 1:]
    silent = dict(rank_deficient_action="silent")
    if n * T > 4:  # (a saturated regression has no variance estimate)
        is_("basic", fit(dd.DifferenceInDifferences(**silent), time="post", **B).att)
    if n * T > n + 2:
        is_("basic, within", fit(dd.DifferenceInDifferences(**silent), time="post", absorb=["u"], **B).att)
        is_("basic, unit dummies", fit(dd.DifferenceInDifferences(**silent), time="post", fixed_effects=["u"], **B).att)
        if n > 2:
            is_("fixed effects", fit(dd.TwoWayFixedEffects(**silent), time="post", **U).att)
    if n > 2:
        for kw in (dict(), dict(absorb=["u"])):
            r = fit(dd.MultiPeriodDiD(**silent), time="t", post_periods=post, reference_period=pers[g - 2], **dict(B, **kw))
            for t in range(g, T + 1):
                is_("event study %d %s" % (t, kw), r.period_effects[pers[t - 1]].effect, gap[t - 1] - gap[:g - 1].mean())
            is_("event study average %s" % kw, r.avg_att)
    S = dict(outcome="y", unit="u", time="t", first_treat="g")
    for m, cg, bp in itertools.product(("reg", "ipw", "dr"), ("never_treated", "not_yet_treated"), ("varying", "universal")):
        if step != 1:  # (base periods are g - 1 in units of time)
            break
        r = fit(dd.CallawaySantAnna(estimation_method=m, control_group=cg, base_period=bp, rank_deficient_action="silent"), aggregate="all", **S)
        for (gg, t), e in r.group_time_effects.items():
            j = (t - tv(1)) // step
            if j >= g - 1:
                is_("group-time %s %s %s %d" % (m, cg, bp, j + 1), e["effect"], gap[j] - gap[g - 2])
            elif bp == "universal":
                is_("group-time pre %s %d" % (m, j + 1), e["effect"], gap[j] - gap[g - 2])
            else:
                is_("group-time pre varying %s %d" % (m, j + 1), e["effect"], gap[j] - gap[j - 1])
        is_("staggered overall", r.overall_att, gap[g - 1:].mean() - gap[g - 2])
        is_("staggered, cohort", r.group_effects[tv(g)]["effect"], gap[g - 1:].mean() - gap[g - 2])
    if step == 1:
        r = fit(dd.SunAbraham(), **S)
        for e, v in r.event_study_effects.items():
            is_("interaction-weighted %d" % e, v["effect"], gap[g - 1 + e] - gap[g - 2])
        is_("interaction-weighted overall", r.overall_att, gap[g - 1:].mean() - gap[g - 2])
    for w in ("approximate", "exact"):
        r = fit(dd.BaconDecomposition(weights=w), **S)
        is_("decomposed coefficient", r.twfe_estimate)
        is_("number of comparisons", len(r.comparisons), 1)
        is_("decomposition", r.comparisons[0].estimate)
    if nc > nt and n >= 3:
        r = fit(dd.SyntheticDiD(lambda_reg=1e12, zeta=1e12, variance_method="placebo", n_bootstrap=2, seed=1), time="t", post_periods=post, **U)
        cx.eq(r.att, did, "unweighted synthetic", atol=1e-6)
    if n >= 3 and (nc > 1 or g > 2) and c["order"] in (0, 2):
        for m in ("twostep", "joint"):
            r, ex = cx.attempt(dd.TROP(method=m, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[float("inf")], n_bootstrap=2, seed=1).fit, df.copy(), outcome="y", treatment="dp", unit="u", time="t")
            if ex is None:
                cx.eq(r.att, did, "two-way imputation (%s)" % m, atol=1e-5)
            else:
                cx.saw("imputation refused", str(ex)[:40])
    if T == 2 and n > 2:
        a = fit(dd.DifferenceInDifferences(), time="post", **B)
        b = fit(dd.MultiPeriodDiD(), time="t", post_periods=post, **B)
        e = b.period_effects[post[0]]
        for f in ("se", "t_stat", "p_value", "conf_int"):
            cx.eq(getattr(e, f), getattr(a, f), "two periods: event study %s" % f, atol=1e-8)
    cx.saw(tuple(np.round(y.ravel(), 3)), g)


def r_ddd(c, cx, dd):
    rows = []
    i = 0
    T = c["T"]
    y = M.gen(200, 7 + c["s"])
    for k, (G, P) in enumerate(itertools.product((0, 1), (0, 1))):
        for _ in range(c["n"][k]):
            for t in range(T):
                for post in (0, 1):
                    rows.append(dict(y=float(y[len(rows) % 200]) + G + 2 * P * post, G=G, P=P, T=post, u=i))
            i += 1
    df = pd.DataFrame(rows)
    df = df.iloc[M_order(len(df), c["order"])]
    one = {}
    for P in (0, 1):
        one[P] = cx.op(dd.DifferenceInDifferences().fit, df[df.P == P].copy(), outcome="y", treatment="G", time="T").att
    two = {}
    for G in (0, 1):
        two[G] = cx.op(dd.DifferenceInDifferences().fit, df[df.G == G].copy(), outcome="y", treatment="P", time="T").att
    for m in ("reg", "ipw", "dr"):
        r = cx.op(dd.TripleDifference(estimation_method=m).fit, df.copy(), outcome="y", group="G", partition="P", time="T")
        cx.eq(r.att, one[1] - one[0], "triple difference (%s) vs two differences in differences" % m, atol=1e-8)
        cx.eq(r.att, two[1] - two[0], "triple difference (%s) vs the other two" % m, atol=1e-8)
        s = cx.op(dd.TripleDifference(estimation_method=m).fit, df.copy(), outcome="y", group="P", partition="G", time="T")
        for f in ("att", "se", "t_stat", "p_value", "conf_int"):
            cx.eq(getattr(s, f), getattr(r, f), "group and partition exchanged (%s): %s" % (m, f), atol=1e-8)
    z = df.copy()
    z.loc[z.P == 0, "y"] = 4.0
    r = cx.op(dd.TripleDifference(estimation_method="reg").fit, z, outcome="y", group="G", partition="P", time="T")
    cx.eq(r.att, one[1], "triple difference with an idle partition", atol=1e-8)
    cx.saw(r.att)


def M_order(n, k):
    return {0: list(range(n)), 1: list(range(n))[::-1], 2: list(range(0, n, 2)) + list(range(1, n, 2)), 3: sorted(range(n), key=lambda i: (i * 7919) % 10007)}[k]


def single(dd, c):
    d = dict(nt=c["nt"], nc=c["nc"], T=c["T"], g=c["g"], y=c["s"], lab=0, order=0)
    return build(d)


def r_single(c, cx, dd):
    """A single cohort: every aggregate is the corresponding single comparison, with its standard error."""
    df, y, tv, step = single(dd, c)
    m, cg, bp = list(itertools.product(("reg", "ipw", "dr"), ("never_treated", "not_yet_treated"), ("varying", "universal")))[c["opt"]]
    S = dict(outcome="y", unit="u", time="t", first_treat="g")
    r = cx.op(dd.CallawaySantAnna(estimation_method=m, control_group=cg, base_period=bp).fit, df.copy(), aggregate="all", **S)
    for e, v in r.event_study_effects.items():
        k = (c["g"], c["g"] + e)
        if k not in r.group_time_effects:
            cx.ok(v["n_groups"] == 0, "event time %d has no comparison behind it" % e)
            continue
        w = r.group_time_effects[k]
        # (standard errors differ by design: a comparison divides by n-1, an aggregate by n)
        cx.eq(v["effect"], w["effect"], "event time %d vs its only comparison" % e, atol=1e-9)
    g = r.group_effects[c["g"]]
    for f, h in (("effect", "att"), ("se", "se"), ("t_stat", "t_stat"), ("p_value", "p_value"), ("conf_int", "conf_int")):
        cx.eq(g[f], getattr(r, "overall_" + h), "single cohort's %s vs the overall one" % f, atol=1e-9)
    # dropping every other period but the two compared leaves the comparison unchanged
    for (gg, t), v in r.group_time_effects.items():
        b = gg - 1 if (t >= gg or bp == "universal") else t - 1
        if b < 1 or b == t:
            continue
        sub = df[df.t.isin((b, t))].copy()
        if t >= gg:
            q = cx.op(dd.DifferenceInDifferences().fit, sub, outcome="y", treatment="d", time="post")
            cx.eq(q.att, v["effect"], "two-period sub-panel (%d, %d)" % (b, t), atol=1e-8)
            q = cx.op(dd.CallawaySantAnna(estimation_method=m, control_group=cg).fit, sub.assign(g=lambda x: np.where(x.d == 1, t, 0), t=lambda x: np.where(x.t == t, t, t - 1)), **S)
            w = q.group_time_effects[(t, t)]
            for f in ("effect", "se", "t_stat", "p_value", "conf_int"):
                cx.eq(w[f], v[f], "two-period sub-panel (%d, %d): %s" % (b, t, f), atol=1e-8)
    for a in (None, "simple", "event_study", "group"):
        q = cx.op(dd.CallawaySantAnna(estimation_method=m, control_group=cg, base_period=bp).fit, df.copy(), aggregate=a, **S)
        for f in ("overall_att", "overall_se", "overall_p_value", "overall_conf_int"):
            cx.eq(getattr(q, f), getattr(r, f), "aggregate=%s: %s" % (a, f), atol=1e-12)
        for f in ("event_study_effects", "group_effects"):
            if getattr(q, f):
                cx.ok(zoo.diff(zoo.flat(getattr(q, f)), zoo.flat(getattr(r, f)), atol=1e-12) is None, "aggregate=%s: %s" % (a, f))
    cx.saw(r.overall_att, c["opt"])


# --------------------------------------------------------------------- shortcuts
def es(dd, s=0):
    return dd.MultiPeriodDiD().fit(zoo.frame("basic", seed=s), post_periods=[4, 5], **zoo.BT)


def cs(dd, s=0):
    return dd.CallawaySantAnna().fit(zoo.frame("stag", seed=s), aggregate="event_study", **zoo.SG)


F = zoo.frame
TR = dict(outcome="y", treatment="dp", unit="u", time="t")
PB = ("y", "d")


def split(kw, names):
    return {k: v for k, v in kw.items() if k in names}, {k: v for k, v in kw.items() if k not in names}


def w_trop(dd, kw):
    kw = dict(dict(lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[1.0], n_bootstrap=3, seed=2, max_iter=15), **kw)
    return lambda: dd.trop(F("basic"), **TR, **kw), lambda: dd.TROP(**kw).fit(F("basic"), **TR)


def uneven():
    # cells of different sizes and spreads (with equal cells the robust and the classical errors coincide), and a copy of a covariate
    d = F("ddd")
    d = d.drop(index=[0, 2, 7, 12, 25]).reset_index(drop=True)
    d.loc[d.post == 1, "y"] *= 1.5
    d["x3"] = 2.0 * d.x
    return d


def w_ddd(dd, kw):
    a, b = split(kw, ("covariates",))
    return lambda: dd.triple_difference(uneven(), **zoo.DD3, **kw), lambda: dd.TripleDifference(**b).fit(uneven(), **zoo.DD3, **a)


def w_bacon(dd, kw):
    return lambda: dd.bacon_decompose(F("stag"), **zoo.SG, **kw), lambda: dd.BaconDecomposition(**kw).fit(F("stag"), **zoo.SG)


def w_twdec(dd, kw):
    return lambda: dd.TwoWayFixedEffects().decompose(F("stag"), **zoo.SG, **kw), lambda: dd.BaconDecomposition(**kw).fit(F("stag"), **zoo.SG)


def w_honest(dd, kw):
    r = es(dd)
    return lambda: dd.compute_honest_did(r, **kw), lambda: dd.HonestDiD(**dict(dict(method="relative_magnitude", M=1.0), **kw)).fit(r)


def w_honest_cs(dd, kw):
    r = cs(dd)
    return lambda: dd.compute_honest_did(r, **kw), lambda: dd.HonestDiD(**dict(dict(method="relative_magnitude", M=1.0), **kw)).fit(r)


def w_power(dd, kw):
    a, b = split(kw, ("alpha",))
    b = dict(dict(n_treated=20, n_control=30, sigma=2.0, effect_size=1.0), **b)
    return lambda: dd.compute_power(**a, **b), lambda: dd.PowerAnalysis(**a).power(**b).power


def w_mde(dd, kw):
    a, b = split(kw, ("alpha", "power"))
    b = dict(dict(n_treated=20, n_control=30, sigma=2.0), **b)
    return lambda: dd.compute_mde(**a, **b), lambda: dd.PowerAnalysis(**a).mde(**b).mde


def w_size(dd, kw):
    a, b = split(kw, ("alpha", "power"))
    b = dict(dict(effect_size=1.0, sigma=2.0), **b)
    return lambda: dd.compute_sample_size(**a, **b), lambda: dd.PowerAnalysis(**a).sample_size(**b).required_n


def pre_kw(kw):
    a = {("power" if k == "target_power" else k): v for k, v in kw.items() if k in ("alpha", "target_power", "violation_type")}
    return a, {k: v for k, v in kw.items() if k == "pre_periods"}


def w_pre(dd, kw):
    r = cs(dd)
    a, b = pre_kw(kw)
    return lambda: dd.compute_pretrends_power(r, **kw), lambda: dd.PreTrendsPower(**a).fit(r, M=kw.get("M"), **b)


def w_mdv(dd, kw):
    r = cs(dd)
    a, b = pre_kw(kw)
    return lambda: dd.compute_mdv(r, **kw), lambda: dd.PreTrendsPower(**a).fit(r, **b).mdv


def w_timing(dd, kw):
    d = F("basic")
    kw = dict(dict(fake_treatment_period=2), **kw)
    return lambda: dd.run_placebo_test(d, "y", "d", "t", test_type="fake_timing", **kw), lambda: dd.placebo_timing_test(d, "y", "d", "t", **kw)


def w_group(dd, kw):
    d = F("basic")
    kw = dict(dict(fake_treatment_group=[101, 103], post_periods=[4, 5]), **kw)
    k2 = dict(kw)
    k2["fake_treated_units"] = k2.pop("fake_treatment_group")
    return lambda: dd.run_placebo_test(d, "y", "d", "t", unit="u", test_type="fake_group", **kw), lambda: dd.placebo_group_test(d, "y", "t", "u", treatment="d", **k2)


def w_perm(dd, kw):
    d = F("basic")
    kw = dict(dict(n_permutations=11, seed=4), **kw)
    return lambda: dd.run_placebo_test(d, "y", "d", "post", unit="u", test_type="permutation", **kw), lambda: dd.permutation_test(d, "y", "d", "post", "u", **kw)


def w_loo(dd, kw):
    d = F("basic")
    return lambda: dd.run_placebo_test(d, "y", "d", "post", unit="u", test_type="leave_one_out", **kw), lambda: dd.leave_one_out_test(d, "y", "d", "post", "u", **kw)


AL = dict(alpha=[0.01, 0.2])
WRAP = {
    "trop": (w_trop, dict(method=["joint"], alpha=[0.2], seed=[5], n_bootstrap=[2, 4], lambda_time_grid=[[0.5], [0.0, 1.0]], lambda_unit_grid=[[0.5]], lambda_nn_grid=[[float("inf")], [0.1, 5.0]], variance_method=["jackknife"], max_iter=[3], tol=[1e-3])),
    "triple_difference": (w_ddd, dict(covariates=[["x"], ["x", "x2"], ["x", "x3"]], estimation_method=["reg", "ipw"], robust=[False], cluster=["u"], alpha=[0.01, 0.2], rank_deficient_action=["silent", "error"])),
    "bacon_decompose": (w_bacon, dict(weights=["exact", "approximate"])), "decompose": (w_twdec, dict(weights=["exact", "approximate"])),
    "compute_honest_did": (w_honest, dict(AL, method=["smoothness", "combined"], M=[0.0, 0.5, 2.0])), "compute_honest_did_cs": (w_honest_cs, dict(AL, method=["smoothness", "combined"], M=[0.0, 0.5, 2.0])),
    "compute_power": (w_power, dict(AL, effect_size=[0.3, -1.0], n_treated=[5], n_control=[50], sigma=[0.5], n_pre=[3], n_post=[4], rho=[0.4])),
    "compute_mde": (w_mde, dict(AL, power=[0.5, 0.95], n_treated=[5], n_control=[50], sigma=[0.5], n_pre=[3], n_post=[4], rho=[0.4])),
    "compute_sample_size": (w_size, dict(AL, power=[0.5, 0.95], effect_size=[0.3], sigma=[0.5], n_pre=[3], n_post=[4], rho=[0.4], treat_frac=[0.2])),
    "compute_pretrends_power": (w_pre, dict(AL, M=[0.0, 0.7, 3.0], target_power=[0.5, 0.95], violation_type=["constant", "last_period"], pre_periods=[[-2, -3]])),
    "compute_mdv": (w_mdv, dict(AL, target_power=[0.5, 0.95], violation_type=["constant", "last_period"], pre_periods=[[-2, -3]])),
    "placebo fake_timing": (w_timing, dict(AL, fake_treatment_period=[3], post_periods=[[4, 5], [5]])), "placebo fake_group": (w_group, dict(AL, fake_treatment_group=[[101], [103, 106]], post_periods=[[5], [3, 4, 5]])),
    "placebo permutation": (w_perm, dict(AL, n_permutations=[5], seed=[0, 9])), "placebo leave_one_out": (w_loo, dict(AL)),
}


def r_wrap(c, cx, dd):
    f, opts = WRAP[c["w"]]
    kw = {k: opts[k][j] for k, j in c["set"].items()}
    a, b = f(dd, kw)
    p, e1 = cx.attempt(a)
    q, e2 = cx.attempt(b)
    if e1 is not None or e2 is not None:
        cx.ok(type(e1) is type(e2), "%s(%s): shortcut %r, wrapped %r" % (c["w"], kw, e1, e2))
        cx.saw(c["w"], "refused")
        return
    d = zoo.diff(zoo.flat(p), zoo.flat(q), rtol=1e-12, atol=1e-14)
    cx.ok(d is None, "%s(%s) vs what it wraps: %s" % (c["w"], kw, d))
    cx.saw(c["w"], str(sorted(zoo.flat(p).items(), key=str))[:3000])


# --------------------------------------------------------------------- ways of asking
def way_formula(dd, s):
    d = F("basic", seed=s)
    d["z z"] = d.x
    E = dd.DifferenceInDifferences
    for fm, kw in (("y ~ d * post", {}), ("y ~ d + post + d:post", {}), ("y ~ d*post + x", dict(covariates=["x"])), ("y ~ d*post + x + x2", dict(covariates=["x", "x2"])), ("y~d*post+x2+x", dict(covariates=["x2", "x"]))):
        yield fm, lambda fm=fm: E().fit(d, formula=fm), lambda kw=kw: E().fit(d, **zoo.B2, **kw)


def way_cs(dd, s):
    d = F("stag", seed=s)
    C = dd.CallawaySantAnna
    full = lambda: C().fit(d, aggregate="all", **zoo.SG)
    for a, f in (("event_study", "event_study_effects"), ("group", "group_effects"), ("simple", "group_time_effects"), (None, "group_time_effects")):
        yield "aggregate %s" % a, lambda a=a, f=f: getattr(C().fit(d, aggregate=a, **zoo.SG), f), lambda f=f: getattr(full(), f)
        yield "overall with aggregate %s" % a, lambda a=a: C().fit(d, aggregate=a, **zoo.SG).overall_conf_int, lambda: full().overall_conf_int
    for lv in ("event_study", "group", "group_time"):
        yield "frame " + lv, lambda lv=lv: len(full().to_dataframe(lv)), lambda lv=lv: len(getattr(full(), lv + "_effects"))
    for cov in ([], None):
        yield "no covariates as %r" % (cov,), lambda cov=cov: C().fit(d, covariates=cov, **zoo.SG), lambda: C().fit(d, **zoo.SG)
    yield "never treated as infinity", lambda: {k: v["effect"] for k, v in C().fit(d.assign(g=d.g.replace(0, np.inf).astype(float)), **zoo.SG).group_time_effects.items()}, lambda: {k: v["effect"] for k, v in C().fit(d, **zoo.SG).group_time_effects.items()}


def way_multi(dd, s):
    d = F("basic", seed=s)
    E = dd.MultiPeriodDiD
    a = lambda **k: E().fit(d, **dict(zoo.BT, **k))
    yield "post periods in another order", lambda: _mp(a(post_periods=[5, 4])), lambda: _mp(a(post_periods=[4, 5]))
    yield "default reference", lambda: a(post_periods=[4, 5]).avg_att, lambda: a(post_periods=[4, 5], reference_period=a(post_periods=[4, 5]).pre_periods[0]).avg_att
    yield "no covariates as []", lambda: a(post_periods=[4, 5], covariates=[]), lambda: a(post_periods=[4, 5])
    yield "numpy periods", lambda: a(post_periods=list(np.array([4, 5]))).avg_se, lambda: a(post_periods=[4, 5]).avg_se
    yield "default post periods", lambda: a(), lambda: a(post_periods=[3, 4, 5])
    r = a(post_periods=[4, 5])
    yield "get_effect", lambda: [r.get_effect(p) for p in (4, 5)], lambda: [r.period_effects[p] for p in (4, 5)]


def _mp(r):
    return (r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, r.period_effects)


def way_misc(dd, s):
    d = F("basic", seed=s)
    g = F("stag", seed=s)
    D = dd.DifferenceInDifferences
    yield "no covariates as []", lambda: D().fit(d, covariates=[], **zoo.B2), lambda: D().fit(d, **zoo.B2)
    yield "boolean indicators", lambda: D().fit(d.assign(d=d.d.astype(bool), post=d.post.astype(bool)), **zoo.B2).conf_int, lambda: D().fit(d, **zoo.B2).conf_int
    yield "positional arguments", lambda: D().fit(d, "y", "d", "post"), lambda: D().fit(d, **zoo.B2)
    yield "results attribute", lambda: _after(D(), d), lambda: D().fit(d, **zoo.B2)
    yield "cluster by unit is the default", lambda: dd.TwoWayFixedEffects(cluster="u").fit(d, unit="u", **zoo.B2), lambda: dd.TwoWayFixedEffects().fit(d, unit="u", **zoo.B2)
    yield "cluster by unit is the default (interaction-weighted)", lambda: dd.SunAbraham(cluster="u").fit(g, **zoo.SG), lambda: dd.SunAbraham().fit(g, **zoo.SG)
    yield "sdid default post periods", lambda: dd.SyntheticDiD(n_bootstrap=4, seed=1).fit(d, unit="u", **zoo.BT), lambda: dd.SyntheticDiD(n_bootstrap=4, seed=1).fit(d, unit="u", post_periods=[3, 4, 5], **zoo.BT)
    yield "static and function p-values", lambda: D().fit(d, **zoo.B2).p_value, lambda: _p(dd, D().fit(d, **zoo.B2))
    yield "event study of two periods is basic", lambda: dd.MultiPeriodDiD().fit(d[d.t.isin((3, 4))], post_periods=[4], **zoo.BT).avg_conf_int, lambda: D().fit(d[d.t.isin((3, 4))], **zoo.B2).conf_int
    yield "singleton fixed effect groups", lambda: D(rank_deficient_action="silent").fit(d, fixed_effects=["u"], **zoo.B2).att, lambda: D(rank_deficient_action="silent").fit(d, absorb=["u"], **zoo.B2).att
    yield "two absorbed effects vs dummies", lambda: D(rank_deficient_action="silent").fit(d, fixed_effects=["u", "t"], **zoo.B2).att, lambda: D(rank_deficient_action="silent").fit(d, absorb=["u", "t"], **zoo.B2).att


def _after(est, d):
    est.fit(d, **zoo.B2)
    return est.results_


def _p(dd, r):
    from scipy import stats
    return 2 * stats.t.sf(abs(r.t_stat), r.n_obs - 4)


def way_honest(dd, s):
    r = es(dd, s)
    H = dd.HonestDiD
    for m in ("relative_magnitude", "smoothness", "combined"):
        for Mv in (0.0, 0.5, 1.5):
            yield "%s, M=%s at fit time" % (m, Mv), lambda m=m, Mv=Mv: _b(H(method=m).fit(r, M=Mv)), lambda m=m, Mv=Mv: _b(H(method=m, M=Mv).fit(r))
            yield "%s, M=%s in a sensitivity analysis" % (m, Mv), lambda m=m, Mv=Mv: tuple(H(method=m).sensitivity_analysis(r, M_grid=[Mv, 2.0]).bounds[0]) + tuple(H(method=m).sensitivity_analysis(r, M_grid=[Mv, 2.0]).robust_cis[0]), lambda m=m, Mv=Mv: _b(H(method=m, M=Mv).fit(r))
        yield m + " breakdown", lambda m=m: H(method=m).breakdown_value(r, tol=1e-4), lambda m=m: H(method=m).breakdown_value(es(dd, s), tol=1e-4)


def _b(h):
    return (h.lb, h.ub, h.ci_lb, h.ci_ub)


def way_power(dd, s):
    P = dd.PowerAnalysis
    kw = dict(n_treated=20 + s, n_control=30, sigma=2.0, n_pre=2, n_post=3, rho=0.3)
    for e in (0.4, 1.0, 2.5):
        yield "curve at %s" % e, lambda e=e: float(P().power_curve(effect_sizes=[e, 3.0], **kw).power.iloc[0]), lambda e=e: P().power(effect_size=e, **kw).power
    yield "default effect is the detectable one", lambda: round(P(power=0.7).power(effect_size=P(power=0.7).mde(**kw).mde, **kw).power, 4), lambda: 0.7
    yield "panel factor of one period is the basic design", lambda: P().mde(n_treated=9, n_control=9, sigma=1.0, n_pre=1, n_post=1).mde, lambda: P().mde(n_treated=9, n_control=9, sigma=1.0).mde


WAYS = [way_formula, way_cs, way_multi, way_misc, way_honest, way_power]


def r_way(c, cx, dd):
    for name, a, b in WAYS[c["k"]](dd, c["s"]):
        p, q = cx.op(a), cx.op(b)
        d = zoo.diff(zoo.flat(p), zoo.flat(q), rtol=1e-7, atol=1e-8)
        cx.ok(d is None, "%s: %s" % (name, d))
        cx.saw(name, str(zoo.flat(p))[:200])
