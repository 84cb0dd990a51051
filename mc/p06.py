"""P06: cohort-time effects against explicit 2x2 comparisons."""
import itertools
from .core import np, pd
from . import models as M
from . import csmodel as C

PROPERTY = "P06"
RULE = ("one case = one assignment of units to cohorts (every multiset over never/always/early/mid/late/after-the-end) x base "
        "period x control group x anticipation x method x never-treated coding, or one missing-cell pattern; distinct by the "
        "whole table of effects")
ASSUMPTIONS = ["4-6 units, 3-5 periods incl. one gapped calendar; missing cells: every single and every pair on 5x4 panels",
               "covariate variants on fixed 16-unit panels with overlap; logit agreement to 1e-4"]
CONF = list(itertools.product(("varying", "universal"), ("never_treated", "not_yet_treated"), (0, 1), ("dr", "ipw", "reg")))
AFF = ((1e4, 5e4), (1.0, 2000.0), (-0.01, 0.5), (100.0, -30.0), (1e-3, 0.0))
PER = {4: [1, 2, 3, 4], 5: [1, 2, 3, 4, 5], 3: [1, 2, 3], -4: [1, 2, 4, 5], -3: [2004, 2005, 2006, 2007], -5: [1, 2, 3, 5, 6]}


def cases(tier):
    big = tier == "thorough"
    i = 0
    # simplest first
    for N, per, opts in ((4, 3, (0, 2, 3)), (5, 4, (0, 1, 2, 3, 4, 6)), (4, -4, (0, 2, 4, 5)), (4, -3, (0, 2006, 2007))) + (((6, 5, (0, 2, 3, 4, 5)),) if big else ()):
        for coh in itertools.combinations_with_replacement(opts, N):
            if 0 not in coh or not any(coh):
                continue
            for ci, cf in enumerate(CONF):
                i += 1
                yield dict(kind="coh", coh=coh, per=per, cf=ci, never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6)
    for coh in ((0, 0, 2, 3, 4), (0, 0, 3, 3, 2)):
        for r in (1, 2):
            for miss in itertools.combinations(range(20), r):
                for ci in ((0, 4, 12, 16) if r == 1 else ((sum(miss) * 5) % 24,)):
                    i += 1
                    yield dict(kind="coh", coh=coh, per=4, cf=ci, missing=miss, never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6)
    for seed in range(12 if not big else 60):
        for ci, cf in enumerate(CONF):
            for nx in (1, 2):
                i += 1
                yield dict(kind="cov", seed=seed, cf=ci, nx=nx, mode=i % 6, dup=int(i % 7 == 0))
                if seed % 3 == 0:
                    # covariates measured in other units; covariates missing in one unit-period
                    yield dict(kind="cov", seed=seed, cf=ci, nx=nx, mode=i % 6, dup=0, aff=i % len(AFF))
                    yield dict(kind="cov", seed=seed, cf=ci, nx=nx, mode=i % 6, dup=0, hole=(i * 7 + seed) % 80)
    for k in range(12):
        yield dict(kind="refuse", k=k)


def run(case, cx):
    import diff_diff as dd
    if case["kind"] == "refuse":
        return refuse(case["k"], cx, dd)
    if case["kind"] == "cov":
        return cov(case, cx, dd)
    base, ctl, a, meth = CONF[case["cf"]]
    per = PER[case["per"]]
    coh = case["coh"]
    perm = [(j * 2 + 1) % len(coh) if len(coh) % 2 else len(coh) - 1 - j for j in range(len(coh))]
    coh = [coh[p] for p in perm]
    df, Y, ul = C.panel(coh, per, seed=len(coh), missing=case.get("missing", ()), never=case["never"], lab=case["lab"], mode=case["mode"])
    present = [i for i in range(len(coh)) if any((i, t) in Y for t in per)]
    want = C.att_gt(coh, per, Y, base, ctl, a)
    est = dd.CallawaySantAnna(control_group=ctl, anticipation=a, estimation_method=meth, base_period=base, alpha=0.1)
    before = df.copy(deep=True)
    if not want:
        cx.raises("nothing estimable", ValueError, est.fit, df, outcome="y", unit="unit", time="time", first_treat="ft")
        cx.saw("empty")
        return
    r = cx.op(est.fit, df, outcome="y", unit="unit", time="time", first_treat="ft")
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    got = {(float(g), float(t)): v for (g, t), v in r.group_time_effects.items()}
    cx.same(sorted(got), sorted((float(g), float(t)) for g, t in want), "set of reported cohort-period pairs")
    for (g, t), m in want.items():
        v = got.get((float(g), float(t)))
        if v is None:
            continue
        tag = "effect(%s,%s) %s/%s/a=%d/%s" % (g, t, base, ctl, a, meth)
        cx.eq(v["effect"], m["effect"], tag, atol=1e-8)
        cx.eq(v["se"], m["se"], tag + " standard error", rtol=1e-6, atol=1e-9)
        cx.same((int(v["n_treated"]), int(v["n_control"])), (m["nt"], m["nc"]), tag + " counts")
        if m["se"] > 1e-9:
            M.check_inference(cx, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], 0.1, None, tag)
        else:
            cx.ok(np.isnan(v["t_stat"]) and np.isnan(v["p_value"]), tag + ": inference from a zero standard error", t=v["t_stat"])
    cx.same([float(g) for g in r.groups], sorted({float(coh[i]) for i in present if coh[i]}), "cohorts")
    cx.same([float(t) for t in r.time_periods], [float(t) for t in per], "periods")
    cx.same((int(r.n_treated_units), int(r.n_control_units)), (sum(1 for c in coh if c), sum(1 for c in coh if not c)), "unit counts")
    cx.same(int(r.n_obs), len(df), "observation count")
    cx.saw(*[m["effect"] for m in want.values()])


def cov(case, cx, dd):
    base, ctl, a, meth = CONF[case["cf"]]
    per = [1, 2, 3, 4]
    coh = [0] * 7 + [2] * 5 + [3] * 4 + [4] * 4
    N = len(coh)
    s = case["seed"]
    xs = M.gen(N * 4 * 2, 900 + s).reshape(N, 4, 2)
    ys = M.gen(N * 4, 1900 + s).reshape(N, 4)
    rows = []
    for i in range(N):
        for j, t in enumerate(per):
            rows.append((i, t, ys[i, j] + xs[i, j, 0] * 0.3 + (2 if coh[i] and t >= coh[i] else 0), coh[i], xs[i, j, 0], xs[i, j, 1]))
    df = pd.DataFrame(rows, columns=["unit", "time", "y", "ft", "x1", "x2"])
    df["x3"] = 2 * df.x1 - 1
    covs = ["x1", "x2"][:case["nx"]]
    Y = {(r.unit, r.time): r.y for r in df.itertuples()}
    Xm = {(r.unit, r.time): [r.x1, r.x2][:case["nx"]] for r in df.itertuples()}
    want = C.att_gt(coh, per, Y, base, ctl, a)
    dup = case["dup"] and meth == "reg"
    if "aff" in case:
        df["x1"] = df.x1 * AFF[case["aff"]][0] + AFF[case["aff"]][1]
    hole = None
    if "hole" in case:
        hole = (case["hole"] % N, 1 + case["hole"] // N)
        df.loc[(df.unit == hole[0]) & (df.time == hole[1]), covs[-1]] = np.nan
    est = dd.CallawaySantAnna(control_group=ctl, anticipation=a, estimation_method=meth, base_period=base, rank_deficient_action="silent")
    r, warned = cx.warns(lambda: est.fit(M.present(df, case["mode"]), outcome="y", unit="unit", time="time", first_treat="ft",
                                         covariates=covs + (["x3"] if dup else [])))
    fell = 0
    cx.same(sorted((int(g), int(t)) for g, t in r.group_time_effects), sorted(want), "pairs with covariates")
    for (g, t), m in want.items():
        b = g - 1 - a if base == "universal" or t >= g - a else t - 1
        tr = [i for i in range(N) if coh[i] == g]
        co = [i for i in range(N) if coh[i] == 0 or (ctl != "never_treated" and coh[i] != g and coh[i] > max(t, b))]
        dt = np.array([Y[i, t] - Y[i, b] for i in tr])
        dc = np.array([Y[i, t] - Y[i, b] for i in co])
        Xt = np.array([Xm[i, b] for i in tr])
        Xc = np.array([Xm[i, b] for i in co])
        v = r.group_time_effects[g, t]
        cx.same((int(v["n_treated"]), int(v["n_control"])), (len(tr), len(co)), "counts with covariates")
        M.check_inference(cx, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], 0.05, None, "covariate effect")
        if hole and hole[1] == b and hole[0] in tr + co:
            # a covariate missing in the base period: announced, and that comparison is the unconditional one
            fell += 1
            cx.eq([v["effect"], v["se"]], [m["effect"], m["se"]], "comparison with an incomplete covariate (%s,%s)" % (g, t), rtol=1e-8)
            continue
        if meth != "reg":
            p, bb = C.logit(np.vstack([Xt, Xc]), np.r_[np.ones(len(tr)), np.zeros(len(co))])
            if not np.isfinite(bb).all() or np.abs(bb).max() > 8 or p.max() > 0.97 or p.min() < 0.01:
                continue       # close to separation: the propensity optimum is ill-conditioned
        cx.eq(v["effect"], C.cov_att(dt, dc, Xt, Xc, meth), "covariate-adjusted effect(%s,%s) %s" % (g, t, meth),
              rtol=1e-7 if meth == "reg" else 2e-4, atol=1e-8 if meth == "reg" else 2e-4)
        cx.eq(v["se"], C.cov_se(dt, dc, Xt, Xc, meth), "standard error with covariates (%s,%s) %s" % (g, t, meth),
              rtol=1e-7 if meth == "reg" else 2e-3, atol=1e-9)
        cx.saw(v["effect"])
    cx.same(sum("issing" in str(w) for w in warned), fell, "announced fallbacks")


def refuse(k, cx, dd):
    df, Y, ul = C.panel([0, 0, 2, 3], [1, 2, 3])
    E = dd.CallawaySantAnna
    F = lambda d, **k2: E().fit(d, **{**dict(outcome="y", unit="unit", time="time", first_treat="ft"), **k2})
    T = [lambda: F(df, outcome="zz"), lambda: F(df, unit="zz"), lambda: F(df, time="zz"), lambda: F(df, first_treat="zz"),
         lambda: F(df, covariates=["zz"]), lambda: F(df[df.ft > 0]), lambda: E(control_group="all"),
         lambda: E(estimation_method="ols"), lambda: E(bootstrap_weights="normal"), lambda: E(rank_deficient_action="drop"),
         lambda: E(base_period="first"), lambda: F(df.assign(ft=0))]
    cx.raises("invalid call %d" % k, ValueError, T[k])
    cx.saw(k)
