"""P25: data generators produce panels whose truth is what was requested."""
import itertools
import math
import warnings
from fractions import Fraction
from .core import np, pd
from . import models as M

PROPERTY = "P25"
RULE = ("one case = generator x sizes x timing x share x effect path x switches x seed; the generated table is compared row by row with the data-generating equation, "
        "whose unknown draws are eliminated by running the same seed with the noise, the unit effects, the effect or the factor strength changed")
ASSUMPTIONS = ["1-12 units (shares: every whole percentage of 1-100 units), 1-6 periods, seeds 0-3", "the distribution of the draws is judged only through the exact equations: distinct per unit and per observation, linear in the requested scale, reproducible"]
MIN_OUTCOMES = 20
GEN = ("did", "stag", "factor", "ddd", "panel", "event")
EFF = (0.0, 2.0, -3.5, 0.25)
FR = (0.0, 0.5, 1.0, 0.3)


def cases(tier):
    big = tier == "thorough"
    i = 0
    for n, T, tp, fr in itertools.product((1, 2, 3, 5, 8), (1, 2, 3, 4, 6), range(0, 7), range(4)):
        if tp > T:
            continue
        for e in range(4 if big else 2):
            i += 1
            yield dict(g="did", n=n, T=T, tp=tp, fr=fr, e=(e * 2 + i) % 4, s=i % 4, tr=i % 3)
            for pt in (0, 1):
                yield dict(g="panel", n=n, T=T, tp=tp, fr=fr, e=(e * 2 + i) % 4, s=i % 4, pt=pt, tv=(1.0, 0.0, -2.5)[i % 3])
    for n, T, fr in itertools.product((1, 2, 4, 7, 12), (2, 3, 4, 6), range(4)):
        for k, co in enumerate([None] + [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(1, 6), r)] + [[2, 1], [1, 1, 2]]):
            for dyn in (0, 1):
                for e in range(4 if big else 1):
                    i += 1
                    if big or i % 2:
                        yield dict(g="stag", n=n, T=T, fr=fr, co=co, dyn=dyn, e=(e + i) % 4, gr=(0.1, 0.0, -0.5)[i % 3], s=i % 4, tr=i % 3)
    for n, pre, post, nt in itertools.product((1, 2, 4, 6), (0, 1, 3), (1, 2, 3), (0, 1, 2, 4, 6, 7)):
        for nf in (0, 1, 2, 3):
            for e in range(2 if big else 1):
                i += 1
                yield dict(g="factor", n=n, pre=pre, post=post, nt=nt, nf=nf, e=(e + i) % 4, s=i % 4, fs=(1.0, 0.0, 2.5)[i % 3], sh=(0.5, 0.0, -1.5)[i // 3 % 3])
    for n in (1, 2, 3, 5):
        for cov in (0, 1):
            for e in range(4):
                for k in range(8 if big else 4):
                    i += 1
                    yield dict(g="ddd", n=n, cov=cov, e=e, k=k, s=i % 4)
    for n, pre, post, fr in itertools.product((1, 2, 3, 6), (0, 1, 2, 4), (0, 1, 3), range(4)):
        for e in range(4 if big else 2):
            i += 1
            yield dict(g="event", n=n, pre=pre, post=post, fr=fr, e=(e + i) % 4, s=i % 4)
    for g in ("did", "stag", "panel", "event"):
        for n in list(range(1, 101)) if big else (7, 20, 50, 60, 75, 90, 100):
            yield dict(g="share", of=g, n=n)
    for k in range(14):
        yield dict(g="refuse", k=k)
    for k in range(6):
        for s in range(8 if big else 3):
            yield dict(g="recover", k=k, s=s)
    for n in (3, 5):
        for co in ([1], [1, 3], [1, 2, 4]):
            yield dict(g="cohorts", n=n, co=co)


def run(case, cx):
    import diff_diff.prep as P
    warnings.simplefilter("ignore")
    globals()["r_" + case["g"]](case, cx, P)


def rows(cx, f, **k):
    a = cx.op(f, **k)
    b = cx.op(f, **k)
    cx.ok(M.frame_equal(a, b), "the same seed gave different data")
    return a


def ints(cx, d, cols):
    for c in cols:
        cx.ok(pd.api.types.is_integer_dtype(d[c]) or len(d) == 0, "%s is not integer" % c)


def grid(cx, d, u, t, n, T):
    want = {(i, p) for i in range(n) for p in range(T)}
    got = list(zip(d[u], d[t])) if len(d) else []
    cx.ok(len(got) == len(want) and set(got) == want, "units x periods", rows=len(got), want=len(want))
    return len(got) == len(want) and set(got) == want


def cell(d, u="unit", t="period"):
    return {(r[u], r[t]): r for r in d.to_dict("records")}


def equations(cx, make, model, tau, unit_sd=True, noise=True):
    """model(row) = outcome without draws; draws eliminated by rerunning the same seed at other scales."""
    z = make(**({"unit_fe_sd": 0.0} if unit_sd else {}), **({"noise_sd": 0.0} if noise else {}))
    for k, r in z.items():
        cx.eq(r["outcome"], model(r) + r["true_effect"], "outcome without noise of %s" % (k,), atol=1e-9)
    if unit_sd:
        a, b = make(unit_fe_sd=1.0, noise_sd=0.0), make(unit_fe_sd=3.0, noise_sd=0.0)
        fe = {}
        for k in z:
            u = a[k]["outcome"] - z[k]["outcome"]
            cx.eq(b[k]["outcome"] - z[k]["outcome"], 3 * u, "unit effects are not proportional to their standard deviation", atol=1e-9)
            fe.setdefault(k[0], []).append(u)
        for u, v in fe.items():
            cx.ok(max(v) - min(v) < 1e-9, "the unit effect of unit %s varies over time" % (u,))
        first = [v[0] for v in fe.values()]
        cx.ok(len({round(v, 9) for v in first}) == len(first), "units share their effect")
        cx.ok(all(abs(v) < 8 for v in first), "unit effects are out of scale", fe=first)
    if noise:
        a, b = (make(noise_sd=s, **({"unit_fe_sd": 0.0} if unit_sd else {})) for s in (1.0, 4.0))
        e = [a[k]["outcome"] - z[k]["outcome"] for k in z]
        for k, v in zip(z, e):
            cx.eq(b[k]["outcome"] - z[k]["outcome"], 4 * v, "noise is not proportional to its standard deviation", atol=1e-9)
        cx.ok(len({round(v, 9) for v in e}) == len(e), "observations share their noise")
        cx.ok(all(abs(v) < 8 for v in e), "noise is out of scale")
        if unit_sd:
            f, g = make(noise_sd=2.0, unit_fe_sd=1.5), make(noise_sd=0.0, unit_fe_sd=1.5)
            for k, v in zip(z, e):
                cx.eq(f[k]["outcome"] - g[k]["outcome"], 2 * v, "noise depends on the unit effects", atol=1e-9)


def effect_only(cx, a, b, delta, extra=("outcome", "true_effect")):
    """b = a with another effect: only the treated outcomes move, by delta(row)."""
    cx.ok(set(a) == set(b), "changing the effect changes the rows")
    for k in a:
        if k not in b:
            return
        for c in a[k]:
            if c not in extra:
                cx.ok(a[k][c] == b[k][c], "changing the effect changes %s" % c)
        cx.eq(b[k]["outcome"] - a[k]["outcome"], delta(a[k]), "changing the effect moves the outcome of %s" % (k,), atol=1e-9)
        cx.eq(b[k]["true_effect"] - a[k]["true_effect"], delta(a[k]), "recorded effect of %s" % (k,), atol=1e-12)


def share(n, f):
    return math.floor(n * Fraction(str(f)))


def two_by_two(c, cx, P, f, name, kw, n, T, tp, fr, tau, trend, extra=None):
    d = rows(cx, f, **kw)
    cols = {"unit", "period", "treated", "post", "outcome", "true_effect"} | set(extra or ())
    if len(d):
        cx.ok(set(d.columns) == cols, "columns", got=list(d.columns))
    if not grid(cx, d, "unit", "period", n, T):
        return
    ints(cx, d, ("unit", "period", "treated", "post") + tuple(extra or ()))
    nt = share(n, fr)
    C = cell(d)
    for (u, t), r in C.items():
        cx.ok(r["treated"] in (0, 1) and r["treated"] == C[u, 0]["treated"], "treatment varies within unit %d" % u)
        cx.ok(r["post"] == int(t >= tp), "post of period %d" % t, got=r["post"])
        cx.ok(r["true_effect"] == (tau if r["treated"] and r["post"] else 0), "true effect of %d, %d" % (u, t), got=r["true_effect"])
        if extra:
            cx.ok(r["event_time"] == t - tp, "event time of %d" % t)
    cx.ok(sum(C[u, 0]["treated"] for u in range(n)) == nt if T else True, "number of treated units", want=nt)
    make = lambda **k: cell(cx.op(f, **dict(kw, **k)))
    equations(cx, make, trend, tau)
    effect_only(cx, C, make(treatment_effect=tau + 1.25), lambda r: 1.25 * r["treated"] * r["post"])
    if c["n"] > 1:
        o = make(seed=c["s"] + 1)
        cx.ok(any(o[k]["outcome"] != C[k]["outcome"] for k in C), "another seed gave the same draws")
        cx.ok(all(o[k]["treated"] == C[k]["treated"] and o[k]["true_effect"] == C[k]["true_effect"] for k in C), "the seed changes the design")
    cx.saw(name, n, T, tp, nt, tau, round(float(d.outcome.sum()), 6))


def r_did(c, cx, P):
    tr = (0.5, 0.0, -2.0)[c["tr"]]
    fr, tau = FR[c["fr"]], EFF[c["e"]]
    kw = dict(n_units=c["n"], n_periods=c["T"], treatment_effect=tau, treatment_fraction=fr, treatment_period=c["tp"], time_trend=tr, unit_fe_sd=2.0, noise_sd=1.0, seed=c["s"])
    two_by_two(c, cx, P, P.generate_did_data, "did", kw, c["n"], c["T"], c["tp"], fr, tau, lambda r: 10 + tr * r["period"])


def r_panel(c, cx, P):
    fr, tau = FR[c["fr"]], EFF[c["e"]]
    kw = dict(n_units=c["n"], n_periods=c["T"], treatment_effect=tau, treatment_fraction=fr, treatment_period=c["tp"], parallel_trends=bool(c["pt"]), trend_violation=c["tv"], unit_fe_sd=2.0, noise_sd=1.0, seed=c["s"])
    if not 1 <= c["tp"] < c["T"]:
        cx.raises("treatment period %d of %d" % (c["tp"], c["T"]), (ValueError,), P.generate_panel_data, **kw)
        cx.saw("panel refused")
        return
    two_by_two(c, cx, P, P.generate_panel_data, "panel", kw, c["n"], c["T"], c["tp"], fr, tau, lambda r: 10 + r["period"] * (1 + (c["tv"] if r["treated"] and not c["pt"] else 0)))


def r_event(c, cx, P):
    fr, tau = FR[c["fr"]], EFF[c["e"]]
    kw = dict(n_units=c["n"], n_pre=c["pre"], n_post=c["post"], treatment_effect=tau, treatment_fraction=fr, unit_fe_sd=2.0, noise_sd=1.0, seed=c["s"])
    T = c["pre"] + c["post"]
    if T == 0:
        d = cx.op(P.generate_event_study_data, **kw)
        cx.ok(len(d) == 0, "rows without periods")
        return
    two_by_two(c, cx, P, P.generate_event_study_data, "event", kw, c["n"], T, c["pre"], fr, tau, lambda r: 10 + 0.5 * r["period"], extra=("event_time",))


def r_stag(c, cx, P):
    n, T, fr, tau, tr = c["n"], c["T"], FR[c["fr"]], EFF[c["e"]], (0.1, 0.0, -2.0)[c["tr"]]
    co, gr = c["co"], c["gr"] if c["dyn"] else 0.0
    kw = dict(n_units=n, n_periods=T, cohort_periods=co, never_treated_frac=fr, treatment_effect=tau, dynamic_effects=bool(c["dyn"]), effect_growth=c["gr"], time_trend=tr, unit_fe_sd=2.0, noise_sd=0.5, seed=c["s"])
    eff = co if co is not None else ([3, 5, 7] if T >= 8 else [T // 3, 2 * T // 3])
    if any(g < 1 or g >= T for g in eff):
        cx.raises("cohorts %s of %d periods" % (eff, T), (ValueError,), P.generate_staggered_data, **kw)
        cx.saw("stag refused")
        return
    d = rows(cx, P.generate_staggered_data, **kw)
    cx.ok(set(d.columns) == {"unit", "period", "outcome", "first_treat", "treated", "treat", "true_effect"}, "columns", got=list(d.columns))
    if not grid(cx, d, "unit", "period", n, T):
        return
    ints(cx, d, ("unit", "period", "first_treat", "treated", "treat"))
    C = cell(d)
    path = lambda r, b: b * (1 + gr * (r["period"] - r["first_treat"])) if r["treated"] else 0.0
    for (u, t), r in C.items():
        g = r["first_treat"]
        cx.ok(g == C[u, 0]["first_treat"] and (g == 0 or g in eff), "cohort of unit %d" % u, got=g)
        cx.ok(r["treat"] == int(g > 0) and r["treated"] == int(g > 0 and t >= g), "indicators of %d, %d" % (u, t), row=r)
        cx.eq(r["true_effect"], path(r, tau), "effect path of %d, %d" % (u, t), atol=1e-12)
    cx.ok(sum(C[u, 0]["treat"] == 0 for u in range(n)) == share(n, fr), "number of never-treated units", want=share(n, fr))
    make = lambda **k: cell(cx.op(P.generate_staggered_data, **dict(kw, **k)))
    equations(cx, make, lambda r: 10 + tr * r["period"], tau)
    effect_only(cx, C, make(treatment_effect=tau + 1.25), lambda r: path(r, 1.25))
    e2 = make(effect_growth=c["gr"] + 1.0)
    effect_only(cx, C, e2, lambda r: tau * (r["period"] - r["first_treat"]) if r["treated"] and c["dyn"] else 0.0)
    cx.saw("stag", n, T, tuple(C[u, 0]["first_treat"] for u in range(n)), tau)


def r_factor(c, cx, P):
    n, nt, T, tau, nf = c["n"], c["nt"], c["pre"] + c["post"], EFF[c["e"]], c["nf"]
    kw = dict(n_units=n, n_pre=c["pre"], n_post=c["post"], n_treated=nt, n_factors=nf, treatment_effect=tau, factor_strength=c["fs"], treated_loading_shift=c["sh"], unit_fe_sd=1.0, noise_sd=0.5, seed=c["s"])
    if nt < 1 or nt > n:
        cx.raises("%d treated of %d" % (nt, n), (ValueError,), P.generate_factor_data, **kw)
        cx.saw("factor refused")
        return
    d = rows(cx, P.generate_factor_data, **kw)
    cx.ok(set(d.columns) == {"unit", "period", "outcome", "treated", "treat", "true_effect"}, "columns", got=list(d.columns))
    if not grid(cx, d, "unit", "period", n, T):
        return
    ints(cx, d, ("unit", "period", "treated", "treat"))
    C = cell(d)
    for (u, t), r in C.items():
        cx.ok(r["treat"] == int(u < nt) and r["treated"] == int(u < nt and t >= c["pre"]), "indicators of %d, %d" % (u, t), row=r)
        cx.ok(r["true_effect"] == (tau if r["treated"] else 0), "effect of %d, %d" % (u, t))
    make = lambda **k: cell(cx.op(P.generate_factor_data, **dict(kw, **k)))
    beta = lambda t: 2.0 * t / (T - 1) if T > 1 else 0.0
    equations(cx, lambda **k: make(factor_strength=0.0, **k), lambda r: 10 + r["treat"] + beta(r["period"]), tau)
    effect_only(cx, C, make(treatment_effect=tau - 2.0), lambda r: -2.0 * r["treated"])
    q = dict(unit_fe_sd=0.0, noise_sd=0.0)
    z, f1, f2 = make(factor_strength=0.0, **q), make(factor_strength=1.0, **q), make(factor_strength=-2.5, **q)
    L = np.array([[f1[u, t]["outcome"] - z[u, t]["outcome"] for t in range(T)] for u in range(n)])
    for u, t in z:
        cx.eq(f2[u, t]["outcome"] - z[u, t]["outcome"], -2.5 * L[u, t], "interactive effects are not proportional to their strength", atol=1e-9)
    sv = np.linalg.svd(L, compute_uv=False)
    cx.ok(int((sv > 1e-9).sum()) == min(nf, n, T), "rank of the interactive effects", sv=sv, want=nf)
    s0 = make(factor_strength=1.0, treated_loading_shift=0.0, **q)
    s1 = make(factor_strength=1.0, treated_loading_shift=3.0, **q)
    D = np.array([[s1[u, t]["outcome"] - s0[u, t]["outcome"] for t in range(T)] for u in range(n)])
    cx.ok(np.abs(D[nt:]).max(initial=0) < 1e-9 and np.abs(D[:nt] - D[0]).max() < 1e-9 and (nf == 0 or np.abs(D[0]).max() > 1e-6), "shift of the treated loadings", shift=D)
    mid = np.array([[f1[u, t]["outcome"] - s0[u, t]["outcome"] for t in range(T)] for u in range(n)])
    cx.ok(np.abs(mid - D * c["sh"] / 3.0).max() < 1e-9, "loadings are not linear in the shift")
    cx.saw("factor", n, T, nt, nf, round(float(d.outcome.sum()), 6))


def r_ddd(c, cx, P):
    n, tau = c["n"], EFF[c["e"]]
    ge, pe, te = [(2.0, 1.0, 0.5), (0.0, 0.0, 0.0), (-1.0, 3.0, 0.25), (0.5, -2.0, 4.0)][c["k"] % 4]
    kw = dict(n_per_cell=n, treatment_effect=tau, group_effect=ge, partition_effect=pe, time_effect=te, noise_sd=1.0, add_covariates=bool(c["cov"]), seed=c["s"] + c["k"])
    d = rows(cx, P.generate_ddd_data, **kw)
    cols = {"outcome", "group", "partition", "time", "unit_id", "true_effect"} | ({"age", "education"} if c["cov"] else set())
    cx.ok(set(d.columns) == cols, "columns", got=list(d.columns))
    cx.ok(len(d) == 8 * n and set(d.unit_id) == set(range(8 * n)), "unit identifiers", rows=len(d))
    cnt = {}
    for r in d.to_dict("records"):
        k = (r["group"], r["partition"], r["time"])
        cnt[k] = cnt.get(k, 0) + 1
        cx.ok(r["true_effect"] == (tau if k == (1, 1, 1) else 0), "effect of cell %s" % (k,))
        if c["cov"]:
            cx.ok(r["education"] in (12, 14, 16, 18) and -40 < r["age"] < 120, "covariates", row=r)
    cx.ok(all(cnt.get(k) == n for k in itertools.product((0, 1), repeat=3)) and len(cnt) == 8, "cell sizes", got=cnt)
    make = lambda **k: cell(cx.op(P.generate_ddd_data, **dict(kw, **k)), "unit_id", "time")
    cov = (lambda r: 0.1 * r["age"] + 0.5 * r["education"]) if c["cov"] else (lambda r: 0.0)
    base = lambda r: 50 + ge * r["group"] + pe * r["partition"] + te * r["time"] + 1.5 * r["group"] * r["partition"] + r["group"] * r["time"] + 0.5 * r["partition"] * r["time"] + cov(r)
    equations(cx, make, base, tau, unit_sd=False)
    C = make()
    effect_only(cx, C, make(treatment_effect=tau + 1.25), lambda r: 1.25 * (r["group"] * r["partition"] * r["time"]))
    o = make(add_covariates=not c["cov"])
    for k in C:
        w, v = (C[k], o[k]) if c["cov"] else (o[k], C[k])
        cx.eq(w["outcome"] - v["outcome"], 0.1 * w["age"] + 0.5 * w["education"], "adding covariates changes the draws", atol=1e-9)
    if c["cov"] and n > 1:
        cx.ok(len({r["age"] for r in C.values()}) == 8 * n, "units share their age")
    cx.saw("ddd", n, tau, c["k"], round(float(d.outcome.sum()), 6))


def r_share(c, cx, P):
    """Every whole percentage."""
    n = c["n"]
    for pc in range(101):
        f = pc / 100
        want = n * pc // 100
        if c["of"] == "did":
            d = cx.op(P.generate_did_data, n_units=n, n_periods=1, treatment_fraction=f, seed=0)
            got = int(d.treated.sum())
        elif c["of"] == "stag":
            d = cx.op(P.generate_staggered_data, n_units=n, n_periods=2, cohort_periods=[1], never_treated_frac=f, seed=0)
            got = int((d.treat == 0).sum()) // 2
        elif c["of"] == "panel":
            d = cx.op(P.generate_panel_data, n_units=n, n_periods=2, treatment_period=1, treatment_fraction=f, seed=0)
            got = int(d.treated.sum()) // 2
        else:
            d = cx.op(P.generate_event_study_data, n_units=n, n_pre=1, n_post=0, treatment_fraction=f, seed=0)
            got = int(d.treated.sum())
        cx.same(got, want, "units in a share of %d%% of %d (%s)" % (pc, n, c["of"]))
    cx.saw(c["of"], n)


def r_cohorts(c, cx, P):
    """Over the seeds every requested cohort occurs, and no other."""
    seen = set()
    for s in range(40):
        d = cx.op(P.generate_staggered_data, n_units=c["n"], n_periods=5, cohort_periods=c["co"], never_treated_frac=0.34, seed=s)
        g = d.drop_duplicates("unit").first_treat
        seen |= set(g)
    cx.same(seen, {0} | set(c["co"]), "cohorts that occur over 40 seeds")
    cx.saw(tuple(c["co"]), c["n"])


def r_refuse(c, cx, P):
    T = [lambda: P.generate_panel_data(treatment_period=0), lambda: P.generate_panel_data(treatment_period=-1), lambda: P.generate_panel_data(treatment_period=8), lambda: P.generate_panel_data(n_periods=3, treatment_period=3),
         lambda: P.generate_staggered_data(cohort_periods=[0, 3]), lambda: P.generate_staggered_data(cohort_periods=[3, 10]), lambda: P.generate_staggered_data(cohort_periods=[-1]), lambda: P.generate_staggered_data(cohort_periods=[]),
         lambda: P.generate_factor_data(n_treated=0), lambda: P.generate_factor_data(n_treated=51), lambda: P.generate_factor_data(n_units=3, n_treated=4), lambda: P.generate_factor_data(n_treated=-2),
         lambda: P.generate_staggered_data(n_periods=3, cohort_periods=[1, 3]), lambda: P.generate_did_data(noise_sd=-1.0)]
    cx.raises("invalid settings %d" % c["k"], (ValueError,), T[c["k"]])
    cx.saw(c["k"])


def r_recover(c, cx, P):
    """Without noise the matching estimator returns the requested effect exactly."""
    import diff_diff as dd
    s = c["s"]
    tau = EFF[1 + s % 3] + 0.125 * s
    A = dict(atol=1e-7)
    k = c["k"]
    if k == 0:
        d = P.generate_did_data(n_units=6, n_periods=4, treatment_effect=tau, noise_sd=0.0, seed=s)
        cx.eq(cx.op(dd.DifferenceInDifferences().fit, d, outcome="outcome", treatment="treated", time="post").att, tau, "basic estimate", **A)
    elif k == 1:
        d = P.generate_staggered_data(n_units=12, n_periods=6, cohort_periods=[2, 4], treatment_effect=tau, noise_sd=0.0, seed=s)
        r = cx.op(dd.CallawaySantAnna().fit, d, outcome="outcome", unit="unit", time="period", first_treat="first_treat")
        for (g, t), e in r.group_time_effects.items():
            if t >= g:
                cx.eq(e["effect"], float(d[(d.first_treat == g) & (d.period == t)].true_effect.mean()), "group-time effect", **A)
    elif k == 2:
        d = P.generate_ddd_data(n_per_cell=3, treatment_effect=tau, noise_sd=0.0, seed=s)
        cx.eq(cx.op(dd.TripleDifference(estimation_method="reg").fit, d, outcome="outcome", group="group", partition="partition", time="time").att, tau, "triple difference", **A)
    elif k == 3:
        d = P.generate_panel_data(n_units=6, n_periods=5, treatment_period=2, treatment_effect=tau, noise_sd=0.0, seed=s)
        cx.eq(cx.op(dd.TwoWayFixedEffects(rank_deficient_action="silent").fit, d, outcome="outcome", treatment="treated", time="post", unit="unit").att, tau, "fixed effects", **A)
    elif k == 4:
        d = P.generate_event_study_data(n_units=6, n_pre=3, n_post=2, treatment_effect=tau, noise_sd=0.0, seed=s)
        r = cx.op(dd.MultiPeriodDiD().fit, d, outcome="outcome", treatment="treated", time="period", post_periods=[3, 4])
        for p, e in r.period_effects.items():
            cx.eq(e.effect, tau, "event study effect", **A)
    else:
        d = P.generate_factor_data(n_units=6, n_pre=3, n_post=2, n_treated=2, n_factors=0, treatment_effect=tau, noise_sd=0.0, seed=s)
        r = cx.op(dd.DifferenceInDifferences().fit, d.assign(post=(d.period >= 3).astype(int)), outcome="outcome", treatment="treat", time="post")
        cx.eq(r.att, tau, "no factors", **A)
    cx.saw(k, s, tau)
