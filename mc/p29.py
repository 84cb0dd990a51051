"""P29: estimates are equivariant to units of measurement and immune to common shocks."""
import itertools
import re
import warnings
from .core import np, pd
from . import models as M
from . import zoo

PROPERTY = "P29"
RULE = ("one case = estimator with one combination of its options x one base panel (complete or with one missing row) x one transformation of the outcomes (scalings, a constant, a shock to each single period or set of periods, "
        "to each single unit, a constant added to the treated after treatment) or of the data (time labels moved, every row duplicated under new unit names): the two full results are compared field by field")
ASSUMPTIONS = ["synthetic weights are fitted to levels without an intercept, so unit and period shocks are judged for them only where the weights cannot react", "the factor-model distance weights are fitted to levels: judged with the unit weight switched off",
               "scalings between 2^-30 and 2^30 (at least 1/1024 for the synthetic weights and 1 for the factor model, whose tolerances are absolute)"]
MIN_OUTCOMES = 20
CHUNK = 4


class Item(zoo.Entry):
    """An estimator with options; inv: which shocks cannot move it."""

    def __init__(self, name, make, args, kind, inv, **kw):
        super().__init__(name, make, args, kind, **kw)
        self.inv = inv


def items():
    L = []
    B2, BT, SG, D3 = zoo.B2, zoo.BT, zoo.SG, zoo.DD3
    PP = dict(post_periods=[4, 5])
    opt = [("", {}), ("-cl", dict(cluster="u")), ("-cls", dict(robust=False))]
    for s, o in opt:
        L.append(Item("did" + s, "DifferenceInDifferences", B2, "basic", "scale const post unit-eff treat dup", init=o))
        L.append(Item("did-cov" + s, "DifferenceInDifferences", dict(B2, covariates=["x", "x2"]), "basic", "scale const post treat dup", init=o))
        L.append(Item("did-fe" + s, "DifferenceInDifferences", dict(B2, fixed_effects=["fe"]), "basic", "scale const post unit-eff treat dup", init=o))
        L.append(Item("did-absorb" + s, "DifferenceInDifferences", dict(B2, absorb=["u"]), "basic", "scale const post unit treat dup", init=o))
        L.append(Item("multi" + s, "MultiPeriodDiD", BT, "basic", "scale const period unit-eff treat dup", init=o, extra=PP))
        L.append(Item("multi-cov" + s, "MultiPeriodDiD", dict(BT, covariates=["x"]), "basic", "scale const period treat dup", init=o, extra=PP))
        L.append(Item("multi-absorb-cov" + s, "MultiPeriodDiD", dict(BT, covariates=["x"], absorb=["u"]), "basic", "scale const period unit treat dup", init=o, extra=PP))
        L.append(Item("multi-ref" + s, "MultiPeriodDiD", BT, "basic", "scale const period unit-eff treat dup", init=o, extra=dict(reference_period=2, post_periods=[4, 5])))
    for a in (0.05, 0.3):
        L.append(Item("twfe-%s" % a, "TwoWayFixedEffects", dict(B2, unit="u"), "basic", "scale const post unit treat dup", init=dict(alpha=a)))
        L.append(Item("twfe-cov-%s" % a, "TwoWayFixedEffects", dict(B2, unit="u", covariates=["x"]), "basic", "scale const post unit treat dup", init=dict(alpha=a)))
    L.append(Item("did-wild", "DifferenceInDifferences", B2, "basic", "scale const post treat", init=dict(cluster="u", inference="wild_bootstrap", n_bootstrap=25, seed=7), rnd=True))
    L.append(Item("twfe-wild", "TwoWayFixedEffects", dict(B2, unit="u"), "basic", "scale const post unit", init=dict(inference="wild_bootstrap", n_bootstrap=25, seed=7), rnd=True))
    for m, cg, bp, an, cov in itertools.product(("dr", "reg", "ipw"), ("never_treated", "not_yet_treated"), ("varying", "universal"), (0, 1), (0, 1)):
        L.append(Item("cs-%s-%s-%s-%d-%d" % (m, cg[:5], bp[:3], an, cov), "CallawaySantAnna", dict(SG, covariates=["x"]) if cov else SG, "stag",
                      "scale const period unit dup" + ("" if an else " treat"), init=dict(estimation_method=m, control_group=cg, base_period=bp, anticipation=an), extra=dict(aggregate="all")))
    L.append(Item("cs-boot", "CallawaySantAnna", SG, "stag", "scale const period unit treat", init=dict(n_bootstrap=40, seed=7), extra=dict(aggregate="all"), rnd=True))
    for cg, an, cov in itertools.product(("never_treated", "not_yet_treated"), (0, 1), (0, 1)):
        L.append(Item("sa-%s-%d-%d" % (cg[:5], an, cov), "SunAbraham", dict(SG, covariates=["x"]) if cov else SG, "stag", "scale const period unit dup" + ("" if an else " treat"), init=dict(control_group=cg, anticipation=an)))
    L.append(Item("sa-boot", "SunAbraham", SG, "stag", "scale const period unit", init=dict(n_bootstrap=8, seed=7), rnd=True))
    for w in ("approximate", "exact"):
        L.append(Item("bacon-" + w, "BaconDecomposition", SG, "stag", "scale const period unit treat dup", init=dict(weights=w)))
    for m, cov, o in itertools.product(("reg", "ipw", "dr"), (0, 1), (0, 1, 2)):
        L.append(Item("ddd-%s-%d-%d" % (m, cov, o), "TripleDifference", dict(D3, covariates=["x"]) if cov else D3, "ddd", "scale const post cell treat dup",
                      init=dict(estimation_method=m, robust=o != 1, **({"cluster": "u"} if o == 2 else {}))))
    for v in ("placebo", "bootstrap"):
        L.append(Item("sdid-" + v, "SyntheticDiD", dict(BT, unit="u"), "basic", "scale const treat", init=dict(variance_method=v, n_bootstrap=10, seed=7), rnd=True, extra=PP))
    L.append(Item("sdid-cov", "SyntheticDiD", dict(BT, unit="u", covariates=["x"]), "basic", "scale const", init=dict(n_bootstrap=6, seed=7), rnd=True, extra=PP))
    T = dict(outcome="y", treatment="dp", unit="u", time="t")
    for m in ("twostep", "joint"):
        L.append(Item("trop-" + m, "TROP", T, "basic", "scale const period unit treat", init=dict(method=m, lambda_time_grid=[0.0, 0.5], lambda_unit_grid=[0.0], lambda_nn_grid=[float("inf")], n_bootstrap=3, seed=7), rnd=True))
        L.append(Item("trop-nn-" + m, "TROP", T, "basic", "scale-nn const treat", init=dict(method=m, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[2.0], n_bootstrap=3, seed=7, max_iter=300, tol=1e-12), rnd=True))
    L.append(Item("placebo-timing", "placebo_timing_test", BT, "basic", "scale const period-eff unit-eff treat", extra=dict(fake_treatment_period="@pre1", post_periods=[4, 5])))
    L.append(Item("placebo-group", "placebo_group_test", dict(outcome="y", time="t", unit="u", treatment="d"), "basic", "scale const period-eff unit-eff treat", extra=dict(fake_treated_units="@ctrl", post_periods=[4, 5])))
    L.append(Item("permutation", "permutation_test", dict(B2, unit="u"), "basic", "scale const post", extra=dict(n_permutations=12, seed=7), rnd=True))
    L.append(Item("loo", "leave_one_out_test", dict(B2, unit="u"), "basic", "scale const post treat"))
    for n, f in (("trend", lambda dd: dd.check_parallel_trends), ("equivalence", lambda dd: dd.equivalence_test_trends), ("trend-robust", lambda dd: dd.check_parallel_trends_robust)):
        L.append(Item(n, f, dict(outcome="y", time="t", treatment_group="d", **({} if n == "trend" else {"unit": "u"})), "basic", ("scale+ const" if n == "equivalence" else "scale const") + (" treat" if n != "trend" else "") + (" unit" if n != "trend" else ""),
                      extra=dict({} if n == "trend" else {"pre_periods": "@pre"}, **({"n_permutations": 9, "seed": 7} if n == "trend-robust" else {})), rnd=n == "trend-robust"))
    for n, e in (("multi", "MultiPeriodDiD"), ("cs", "CallawaySantAnna")):
        a = dict(BT) if n == "multi" else dict(SG)
        ex = {} if n == "multi" else dict(aggregate="event_study")
        k = "basic" if n == "multi" else "stag"
        L.append(Item(n + "-honest", e, a, k, "scale+ const period" + (" unit" if n == "cs" else ""), extra=ex, post=lambda dd, r: dd.HonestDiD(method="relative_magnitude", M=0.7).sensitivity_analysis(r, M_grid=[0.0, 0.5, 1.0])))
        if n == "cs":
            L.append(Item(n + "-power", e, a, k, "scale const period unit", extra=ex, post=lambda dd, r: dd.PreTrendsPower().fit(r)))
    return L


ALL = items()
BY = {e.name: e for e in ALL}
SC = (2.0, 1 / 1024, 1000.0, -1.0, -3.0, 2.0 ** -30, 2.0 ** 30)


def cases(tier):
    big = tier == "thorough"
    for e in ALL:
        slow = e.name.startswith("trop") or e.name.startswith("sdid")
        inv = e.inv.split()
        for s in range((6 if not slow else 2) if big else 2 if not slow else 1):
            drops = [None] + ([(3 * s + 5), (7 * s + 26)] if e.kind == "stag" or e.name.startswith("twfe") else [])
            for dr in drops:
                T = []
                for w in inv:
                    if w == "scale":
                        T += [("scale", c) for c in SC if not (e.name.startswith("trop") and abs(c) < 1 or e.name.startswith("sdid") and abs(c) < 1e-6)]
                    elif w in ("scale+", "scale-nn"):
                        T += [(w, c) for c in SC if c > 0 and not (e.name.startswith("trop") and c < 1e-6)]
                    elif w == "const":
                        T += [("const", c) for c in (10.0, -1e4)]
                    elif w in ("period", "period-eff") and not (dr is not None and e.name.startswith("bacon")):
                        n = 6 if e.kind == "stag" else 5
                        T += [(w, [t]) for t in range(1, n + 1)] + [(w, [1, 3]), (w, [2, n])]
                    elif w == "post":
                        T += [("post", c) for c in (3.0, -250.0)]
                    elif w in ("unit", "unit-eff"):
                        n = 12 if e.kind == "stag" else 9
                        if dr is None or e.name.startswith(("twfe", "cs", "sa")):
                            T += [(w, [u]) for u in range(n if not slow else 3)] + [(w, [0, n - 1])]
                    elif w == "cell":
                        T += [("cell", c) for c in range(7)]
                    elif w == "treat":
                        T += [("treat", c) for c in (2.5, -40.0)]
                    elif w == "dup":
                        if dr is None:
                            T.append(("dup", 0))
                for j, t in enumerate(T):
                    if not big and e.name.startswith(("cs", "sa")) and (j + s + len(e.name)) % 3 and t[0] in ("unit", "period"):
                        continue
                    yield dict(e=e.name, s=s, drop=dr, t=t[0], k=t[1])


SIGNED = set("att avg_att overall_att effect estimate coefficients residuals original_effect original_att original_estimate placebo_effect placebo_effects twfe_estimate treatment_effects leave_one_out_effects mean_effect trend_difference mean_difference "
             "weighted_avg_earlier_vs_later weighted_avg_later_vs_earlier weighted_avg_treated_vs_never permutation_distribution group_means fitted_values pre_period_effects treated_trend control_trend".split())
ABS = set("se avg_se overall_se treated_trend_se control_trend_se original_se mdv violation_magnitude pre_treatment_fit pre_period_ses event_study_ses group_effect_ses group_time_ses overall_att_se".split())
SIGN0 = set("t_stat avg_t_stat overall_t_stat t_statistic".split())
INV = set("p_value avg_p_value overall_p_value r_squared n_obs n_treated n_control unit_weights time_weights weight power noncentrality is_significant test_statistic n_groups total_weight_earlier_vs_later event_study_p_values group_effect_p_values "
          "group_time_p_values overall_att_p_value total_weight_later_vs_earlier total_weight_treated_vs_never wasserstein_p_value ks_p_value variance_ratio cohort_weights pscore_stats n_clusters".split())
CI = set("conf_int avg_conf_int overall_conf_int ci event_study_cis group_effect_cis group_time_cis overall_att_ci".split())
DEG2 = {"vcov"}
EFFECT = set("att avg_att overall_att effect estimate original_effect twfe_estimate treatment_effects leave_one_out_effects weighted_avg_earlier_vs_later weighted_avg_later_vs_earlier weighted_avg_treated_vs_never mean_effect".split())
CONT = re.compile(r"^\.?(coefficients|group_means|unit_effects|time_effects|treatment_effects|leave_one_out_effects|unit_weights|time_weights|bounds|robust_cis|pscore_stats|covariate_balance)\b|\.(event_study_cis|event_study_ses|event_study_p_values|group_effect_cis|group_effect_ses|group_effect_p_values|group_time_cis|group_time_ses|group_time_p_values)\b|^\.(cohort_weights)\b")
TOK = re.compile(r"[A-Za-z_]\w*")


def leaf(p):
    m = CONT.search(p)
    if m:
        return next(g for g in m.groups() if g)
    t = TOK.findall(p)
    return t[-1] if t else p


def same(cx, a, b, msg, rtol=1e-5, atol=1e-7):
    if isinstance(a, (float, np.ndarray)) and not isinstance(a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind == "f" and y.dtype.kind == "f":
            cx.ok(x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True), "%s: %s, expected %s" % (msg, x.ravel()[:5], y.ravel()[:5]))
            return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        cx.ok(np.array_equal(a, b), "%s: %s, expected %s" % (msg, a, b))
    else:
        cx.ok(a == b, "%s: %r, expected %r" % (msg, a, b))


def is_post(e, path, df):
    """Does the effect at this path belong to treated observations after treatment?"""
    n = leaf(path)
    if path.startswith(".period_effects") or path.startswith(".group_time_effects") or path.startswith(".event_study_effects") or path.startswith(".cohort_effects"):
        nums = [int(q) for q in re.findall(r"-?\d+", path.split("]")[0])]
        if path.startswith(".period_effects"):
            return nums[0] >= 4
        if path.startswith(".group_time_effects"):
            return nums[1] >= nums[0]
        if path.startswith(".event_study_effects"):
            return nums[0] >= 0
        return nums[1] >= 0
    if path.startswith(".group_effects"):
        return True
    if n == "original_effect":
        return True
    return e.name not in ("placebo-timing", "placebo-group", "equivalence", "trend-robust")


def run(case, cx):
    import diff_diff as dd
    warnings.simplefilter("ignore")
    e = BY[case["e"]]
    df = zoo.frame(e.kind, seed=case["s"])
    df["y"] = (df.y * 64).round() / 64
    if case["drop"] is not None:
        df = df.drop(index=case["drop"] % len(df)).reset_index(drop=True)
    t, k = case["t"], case["k"]
    only = t.endswith("-eff")
    t = t[:-4] if only else t
    d = df.copy()
    over = {}
    if t.startswith("scale"):
        d["y"] = d.y * k
        if t == "scale-nn":
            over = dict(lambda_nn_grid=[2.0 * k])
    elif t == "const":
        d["y"] = d.y + k
    elif t == "period":
        for j, p in enumerate(k):
            d.loc[d.t == p, "y"] += 6.0 - 20 * j
    elif t == "post":
        d.loc[d.post == 1, "y"] += k
    elif t == "unit":
        us = sorted(d.u.unique())
        for j, u in enumerate(k):
            d.loc[d.u == us[u], "y"] += -8.0 + 31 * j
    elif t == "cell":
        # anything that does not vary over all three dimensions at once
        G, P, T = d.d, d.part, d.post
        d["y"] = d.y + 4.0 * [G, P, T, G * P, G * T, P * T, 1 - G * T][k]
    elif t == "treat":
        if e.kind == "ddd":
            d.loc[(d.d == 1) & (d.part == 1) & (d.post == 1), "y"] += k
        else:
            d.loc[(d.g > 0) & (d.t >= d.g), "y"] += k
    elif t == "dup":
        e2 = d.copy()
        e2["u"] = e2.u + 1000
        e2["cl"] = e2.cl + 1000
        d = pd.concat([d, e2], ignore_index=True)
    a = zoo.flat(cx.op(e.call, dd, df.copy(), extra=zoo.fill(e, df)))
    b = zoo.flat(cx.op(e.call, dd, d.copy(), extra=zoo.fill(e, d), **over))
    cx.saw(e.name, t, str(k), len(a))
    msg = "%s, %s %s: " % (e.name, t, k)
    if t != "dup":
        cx.ok(set(a) == set(b), msg + "the reported entries differ: %s" % sorted(set(a) ^ set(b))[:4])
    scale_atol = 1e-7 * max(1.0, float(np.abs(d.y).max()) / 10)
    for p in a:
        if p not in b:
            continue
        x, y, n = a[p], b[p], leaf(p)
        num = isinstance(x, (float, np.ndarray)) and not isinstance(x, bool)
        if t.startswith("scale"):
            c = k
            if n in SIGNED and num:
                same(cx, y, x * c, msg + p, atol=1e-7 * abs(c))
            elif n in ABS and num:
                same(cx, y, x * abs(c), msg + p, atol=1e-7 * abs(c))
            elif n in DEG2 and num:
                same(cx, y, x * c * c, msg + p, atol=1e-7 * c * c)
            elif n in SIGN0 and num:
                same(cx, y, x * np.sign(c), msg + p)
            elif n in INV:
                same(cx, y, x, msg + p)
            elif n in CI and num:
                if e.rnd and c < 0:
                    continue       # percentile ends of a finite set of draws
                same(cx, y, x * c if c > 0 else (x * c)[..., ::-1], msg + p, atol=1e-7 * abs(c))
            elif num and c > 0 and np.asarray(x).dtype.kind == "f":
                ok = np.shape(x) == np.shape(y) and any(np.allclose(y, np.asarray(x) * c ** q, rtol=1e-5, atol=1e-6 * c ** q, equal_nan=True) for q in (0, 1, 2))
                if n != "decomposition_error":
                    cx.ok(ok, "%s%s: %s became %s under scaling by %s" % (msg, p, np.ravel(x)[:5], np.ravel(y)[:5], c))
            continue
        if n in ("coefficients", "fitted_values", "group_means", "decomposition_error", "permutation_distribution", "bootstrap_distribution") or n not in SIGNED | ABS | SIGN0 | INV | CI | DEG2:
            continue
        if only and n not in EFFECT:
            continue
        if n == "r_squared" and t != "const":
            continue
        if t in ("const", "period", "post", "unit", "cell"):
            if n in ("treated_trend", "control_trend", "pre_treatment_fit") and t != "const":
                continue
            if n in ("treated_trend_se", "control_trend_se") and t != "const":
                continue
            same(cx, y, x, msg + p, atol=scale_atol, rtol=1e-4 if n in SIGN0 | {"p_value"} else 1e-5)
        elif t == "treat":
            if n in EFFECT and num:
                same(cx, y, (x + k) if is_post(e, p, df) else x, msg + p, atol=scale_atol)
            elif n in CI and num and not p.startswith(".bootstrap"):
                same(cx, y, (x + k) if is_post(e, p, df) else x, msg + p, atol=scale_atol)
            elif n in ABS and n not in ("violation_magnitude",) and not e.name.endswith("wild"):
                same(cx, y, x, msg + p, atol=scale_atol)
        elif t == "dup":
            if n in EFFECT and n != "leave_one_out_effects" and not e.name.startswith("sdid"):
                same(cx, y, x, msg + p, atol=scale_atol)
