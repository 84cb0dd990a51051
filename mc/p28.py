"""P28: exports, summaries and plots show exactly the result's numbers."""
import contextlib
import copy
import dataclasses
import importlib
import io
import itertools
import math
import re
import sys
from .core import np, pd
from . import models as M
from . import zoo

PROPERTY = "P28"
RULE = ("one case = result class x value pattern (ordinary, negative, missing inference, all missing, extreme, significance boundaries, numpy scalars, infinite statistic) x level x every optional part present or absent, or a fitted result of every estimator; "
        "its dictionary, frames, text and printed output are compared field by field and number by number with the stored attributes, and the result and the global state with their copies; or plot function x effect pattern x option setting, whose drawn artists are read back")
ASSUMPTIONS = ["1-6 effects per result, 10 levels", "text is read as rows of numbers in order: labels, values at printed precision, stars; layout is not judged", "plots are read from the Agg artists: positions, not colours"]
MIN_OUTCOMES = 20
LV = (0.05, 0.1, 0.01, 0.07, 0.32, 0.005, 0.001, 0.2, 0.025, 0.5)
PAT = ("plain", "neg", "noinf", "nan", "big", "edge", "np", "inf", "tiny")
EDGE = (0.001, 0.01, 0.05, 0.1, 0.0009, 0.0099, 0.0499, 0.0999)


def mod(name):
    importlib.import_module("diff_diff." + name)
    return sys.modules["diff_diff." + name]


class Num:
    """Supply of distinct numbers of one pattern."""

    def __init__(self, pat, k=0):
        self.p, self.k = pat, k

    def x(self, lo=0.0, inf=False):
        """Any number; inf: part of the inference."""
        self.k += 1
        v = 0.1234567 + 0.0371113 * (self.k * 7 % 23) + self.k * 1.000137
        if self.p == "nan" or (inf and self.p == "noinf"):
            return float("nan")
        if self.p == "neg":
            v = -v
        if self.p == "big":
            v *= 123456.7
        if self.p == "tiny":
            v *= 1e-5
        return np.float64(v) if self.p == "np" else v

    def pos(self, inf=False):
        v = self.x(inf=inf)
        return abs(v)

    def n(self):
        self.k += 1
        v = 11 + self.k * 13
        return np.int64(v) if self.p == "np" else v

    def p_(self):
        self.k += 1
        if self.p in ("nan", "noinf"):
            return float("nan")
        if self.p == "edge":
            return EDGE[self.k % len(EDGE)]
        return (0.0001, 0.0312, 0.7512, 0.0062, 0.0731)[self.k % 5] + self.k * 1e-6

    def inf_(self):
        """effect, se, t, p, interval"""
        e = self.x()
        s = self.pos(inf=True)
        t = self.x(inf=True)
        if self.p == "inf":
            t = math.inf
        return e, s, t, self.p_(), (self.x(inf=True), self.x(inf=True))


def stars(p):
    return M.stars(p)


# --- text ---------------------------------------------------------------
TOK = re.compile(r"(?<![\w.])[-+]?(?:\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|nan|inf)(?!\w|\.\d)|(?<![\w.])[-+]?\d+(?:\.\d+)?(?=x\b)", re.I)
DROP = [re.compile(r"\((?:[^()]*\s)?(?:19|20)\d\d\)"), re.compile(r"\b2x2\b", re.I)]


def numbers(line):
    return [(m.group(0), line[m.end():m.end() + 1] == "%") for m in TOK.finditer(line)]


def clean(line):
    for d in DROP:
        line = d.sub(" ", line)
    return line


class Lvl(float):
    """A level that must be printed exactly."""


class Pct(float):
    """Printed as a percentage."""


class Rough(float):
    """Printed to any number of decimals."""


class RoughPct(Pct):
    pass


def shows(tok, pct, v):
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return tok.lstrip("+") == str(int(v))
    f = float(v)
    if math.isnan(f):
        return tok.lower().strip("+-") == "nan"
    if math.isinf(f):
        return tok.lower() == ("inf" if f > 0 else "-inf")
    try:
        got = float(tok)
    except ValueError:
        return False
    if math.isnan(got) or math.isinf(got):
        return False
    if isinstance(v, Pct) != pct and not isinstance(v, Lvl):
        return False
    if isinstance(v, Pct):
        f *= 100
    if isinstance(v, Lvl):
        return abs(got - f) < 1e-7
    d = len(tok.split(".")[1]) if "." in tok and "e" not in tok.lower() else 0
    need = 0 if isinstance(v, (Rough, RoughPct)) else 1 if isinstance(v, Pct) else 3
    return d >= need and abs(got - f) <= 0.5000001 * 10.0 ** -d + 1e-9 * abs(f)


def check_text(cx, text, rows, tag):
    """Rows: (label, [numbers], trailing text or None), in order; every number of the text belongs to one row."""
    if not cx.ok(isinstance(text, str), tag + ": the summary is not text"):
        return
    lines = [clean(l) for l in text.splitlines() if not l.lstrip().lower().startswith("signif. codes")]
    i = 0
    for label, vals, tail in rows:
        while i < len(lines):
            line = lines[i]
            i += 1
            pos = line.lower().find(label.lower())
            rest = line if pos < 0 else line[:pos] + " " * len(label) + line[pos + len(label):]
            nums = numbers(rest)
            if pos >= 0 and len(nums) == len(vals) and all(shows(t, q, v) for (t, q), v in zip(nums, vals)):
                if tail is not None:
                    end = list(TOK.finditer(rest))[-1].end() if nums else pos + len(label)
                    t = rest[end:].strip().strip("]%").strip()
                    cx.ok(t == tail, "%s: row %r ends with %r instead of %r" % (tag, label, t, tail))
                break
            if pos >= 0 and (nums or (vals and label)):
                cx.bad("%s: row %r shows %s instead of %s" % (tag, label, [t for t, _ in nums], [repr(v) for v in vals]))
                return
            if numbers(line):
                cx.bad("%s: unexplained numbers in %r (expected row %r)" % (tag, line.strip(), label))
                return
        else:
            cx.bad("%s: no row %r with %s" % (tag, label, [repr(v) for v in vals]))
            return
    for line in lines[i:]:
        cx.ok(not numbers(line), "%s: unexplained numbers in %r" % (tag, line.strip()))


def level(a):
    return Lvl(100 * (1 - a))


def estrow(label, e, s, t, p):
    return (label, [e, s, t, p], stars(p))


def ci_row(r, ci, a=None):
    return ("Confidence Interval", [level(r.alpha if a is None else a), ci[0], ci[1]], "")


# --- specifications -----------------------------------------------------
def did_rows(r, a=None):
    out = [("Observations", [r.n_obs], ""), ("Treated", [r.n_treated], ""), ("Control", [r.n_control], "")]
    if r.r_squared is not None:
        out.append(("R-squared", [r.r_squared], ""))
    if r.inference_method != "analytical":
        out.append(("Inference method", [], r.inference_method))
        if r.n_bootstrap is not None:
            out.append(("Bootstrap replications", [r.n_bootstrap], ""))
        if r.n_clusters is not None:
            out.append(("Number of clusters", [r.n_clusters], ""))
    return out + [estrow("ATT", r.att, r.se, r.t_stat, r.p_value), ci_row(r, r.conf_int, a)]


def did_dict(r):
    d = dict(att=r.att, se=r.se, t_stat=r.t_stat, p_value=r.p_value, conf_int_lower=r.conf_int[0], conf_int_upper=r.conf_int[1],
             n_obs=r.n_obs, n_treated=r.n_treated, n_control=r.n_control, r_squared=r.r_squared, inference_method=r.inference_method)
    if r.n_bootstrap is not None:
        d["n_bootstrap"] = r.n_bootstrap
    if r.n_clusters is not None:
        d["n_clusters"] = r.n_clusters
    return d


def mp_rows(r, a=None):
    out = [("Observations", [r.n_obs], ""), ("Treated", [r.n_treated], ""), ("Control", [r.n_control], ""),
           ("Pre-treatment periods", [len(r.pre_periods)], ""), ("Post-treatment periods", [len(r.post_periods)], "")]
    if r.r_squared is not None:
        out.append(("R-squared", [r.r_squared], ""))
    for p in r.post_periods:
        e = r.period_effects[p]
        out.append(estrow(str(p), e.effect, e.se, e.t_stat, e.p_value))
    return out + [estrow("ATT", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value), ci_row(r, r.avg_conf_int, a)]


def mp_dict(r):
    d = dict(avg_att=r.avg_att, avg_se=r.avg_se, avg_t_stat=r.avg_t_stat, avg_p_value=r.avg_p_value, avg_conf_int_lower=r.avg_conf_int[0],
             avg_conf_int_upper=r.avg_conf_int[1], n_obs=r.n_obs, n_treated=r.n_treated, n_control=r.n_control,
             n_pre_periods=len(r.pre_periods), n_post_periods=len(r.post_periods), r_squared=r.r_squared)
    for p, e in r.period_effects.items():
        d["effect_period_%s" % p] = e.effect
        d["se_period_%s" % p] = e.se
        d["pval_period_%s" % p] = e.p_value
    return d


def mp_frame(r):
    return [dict(period=p, effect=e.effect, se=e.se, t_stat=e.t_stat, p_value=e.p_value, conf_int_lower=e.conf_int[0], conf_int_upper=e.conf_int[1],
                 is_significant=bool(e.p_value < 0.05)) for p, e in r.period_effects.items()]


def sdid_rows(r, a=None):
    out = [("Observations", [r.n_obs], ""), ("Treated", [r.n_treated], ""), ("Control", [r.n_control], ""),
           ("Pre-treatment periods", [len(r.pre_periods)], ""), ("Post-treatment periods", [len(r.post_periods)], "")]
    if r.lambda_reg is not None:
        out.append(("Regularization", [r.lambda_reg], ""))
    if r.pre_treatment_fit is not None:
        out.append(("Pre-treatment fit", [r.pre_treatment_fit], ""))
    out.append(("Variance method", [], ":" + r.variance_method))
    if r.variance_method == "bootstrap" and r.n_bootstrap is not None:
        out.append(("Bootstrap replications", [r.n_bootstrap], ""))
    out += [estrow("ATT", r.att, r.se, r.t_stat, r.p_value), ci_row(r, r.conf_int, a)]
    if r.unit_weights:
        top = sorted(r.unit_weights.items(), key=lambda kv: -kv[1])[:5]
        out += [("Unit %s:" % u, [w], "") for u, w in top if w > 0.001]
        out.append(("units with weight", [sum(1 for w in r.unit_weights.values() if w > 0.001), 0.001], None))
    return out


def sdid_dict(r):
    d = dict(att=r.att, se=r.se, t_stat=r.t_stat, p_value=r.p_value, conf_int_lower=r.conf_int[0], conf_int_upper=r.conf_int[1],
             n_obs=r.n_obs, n_treated=r.n_treated, n_control=r.n_control, n_pre_periods=len(r.pre_periods), n_post_periods=len(r.post_periods),
             variance_method=r.variance_method, lambda_reg=r.lambda_reg, pre_treatment_fit=r.pre_treatment_fit)
    if r.n_bootstrap is not None:
        d["n_bootstrap"] = r.n_bootstrap
    return d


def stag_rows(r, a=None):
    out = [("Total observations", [r.n_obs], ""), ("Treated units", [r.n_treated_units], ""), ("Control units", [r.n_control_units], ""),
           ("Treatment cohorts", [len(r.groups)], ""), ("Time periods", [len(r.time_periods)], ""), ("Control group", [], ":" + r.control_group)]
    if hasattr(r, "base_period"):
        out.append(("Base period", [], ":" + r.base_period))
    out += [estrow("ATT", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value), ci_row(r, r.overall_conf_int, a)]
    for d in (r.event_study_effects, getattr(r, "group_effects", None)):
        for k in sorted(d or {}):
            out.append(estrow(str(k), *[d[k][f] for f in ("effect", "se", "t_stat", "p_value")]))
    return out


def eff_frame(d, key):
    return [{key: k, **{f: v[f] for f in ("effect", "se", "t_stat", "p_value")}, "conf_int_lower": v["conf_int"][0], "conf_int_upper": v["conf_int"][1]}
            for k, v in sorted(d.items())]


def gt_frame(r):
    out = []
    for (g, t), v in r.group_time_effects.items():
        out.append(dict(group=g, time=t, effect=v["effect"], se=v["se"], t_stat=v["t_stat"], p_value=v["p_value"], conf_int_lower=v["conf_int"][0], conf_int_upper=v["conf_int"][1]))
    return out


def ddd_rows(r, a=None):
    out = [("Estimation method", [], ":" + r.estimation_method), ("Total observations", [r.n_obs], ""),
           ("Treated group, Eligible", [r.n_treated_eligible], ""), ("Treated group, Ineligible", [r.n_treated_ineligible], ""),
           ("Control group, Eligible", [r.n_control_eligible], ""), ("Control group, Ineligible", [r.n_control_ineligible], "")]
    if r.r_squared is not None:
        out.append(("R-squared", [r.r_squared], ""))
    if r.inference_method != "analytical":
        out.append(("Inference method", [], ":" + r.inference_method))
        if r.n_bootstrap is not None:
            out.append(("Bootstrap replications", [r.n_bootstrap], ""))
        if r.n_clusters is not None:
            out.append(("Number of clusters", [r.n_clusters], ""))
    out += [estrow("ATT", r.att, r.se, r.t_stat, r.p_value), ci_row(r, r.conf_int, a)]
    for d in (r.group_means, r.pscore_stats):
        out += [(str(k), [v], "") for k, v in (d or {}).items()]
    return out


def ddd_dict(r):
    d = {k: getattr(r, k) for k in "att se t_stat p_value n_obs n_treated_eligible n_treated_ineligible n_control_eligible n_control_ineligible estimation_method inference_method".split()}
    d.update(conf_int_lower=r.conf_int[0], conf_int_upper=r.conf_int[1])
    for k in ("r_squared", "n_bootstrap", "n_clusters"):
        if getattr(r, k) is not None:
            d[k] = getattr(r, k)
    return d


def trop_rows(r, a=None):
    out = [("Observations", [r.n_obs], ""), ("Treated units", [r.n_treated], ""), ("Control units", [r.n_control], ""), ("Treated observations", [r.n_treated_obs], ""),
           ("Pre-treatment periods", [r.n_pre_periods], ""), ("Post-treatment periods", [r.n_post_periods], ""),
           ("Lambda (time decay)", [r.lambda_time], ""), ("Lambda (unit distance)", [r.lambda_unit], ""), ("Lambda (nuclear norm)", [r.lambda_nn], ""),
           ("Effective rank", [Rough(r.effective_rank)], ""), ("LOOCV score", [r.loocv_score], ""), ("Variance method", [], ":" + r.variance_method)]
    if r.variance_method == "bootstrap" and r.n_bootstrap is not None:
        out.append(("Bootstrap replications", [r.n_bootstrap], ""))
    return out + [estrow("ATT", r.att, r.se, r.t_stat, r.p_value), ci_row(r, r.conf_int, a)]


def trop_dict(r):
    d = {k: getattr(r, k) for k in "att se t_stat p_value n_obs n_treated n_control n_treated_obs n_pre_periods n_post_periods lambda_time lambda_unit lambda_nn effective_rank loocv_score variance_method".split()}
    d.update(conf_int_lower=r.conf_int[0], conf_int_upper=r.conf_int[1])
    return d


def plac_rows(r):
    out = [("Placebo Test Results", [], ":" + r.test_type), ("Placebo effect", [r.placebo_effect], ""), ("Standard error", [r.se], ""), ("T-statistic", [r.t_stat], ""), ("P-value", [r.p_value], ""),
           ("% CI", [level(r.alpha), r.conf_int[0], r.conf_int[1]], ""), ("Observations", [r.n_obs], "")]
    if r.original_effect is not None:
        out.append(("Original ATT", [r.original_effect], ""))
        if r.original_se is not None:
            out.append(("Original SE", [r.original_se], ""))
    if r.n_permutations is not None:
        out.append(("Number of permutations", [r.n_permutations], ""))
    if r.fake_period is not None:
        out.append(("Fake treatment period", [r.fake_period] if isinstance(r.fake_period, (int, np.integer)) else [], "" if isinstance(r.fake_period, (int, np.integer)) else ":" + str(r.fake_period)))
    if r.leave_one_out_effects is not None:
        e = list(r.leave_one_out_effects.values())
        m = sum(e) / len(e)
        sd = math.sqrt(sum((v - m) ** 2 for v in e) / (len(e) - 1)) if len(e) > 1 else float("nan")
        anynan = any(math.isnan(v) for v in e)
        out += [("Units analyzed", [len(e)], ""), ("Mean", [m], ""), ("Std. dev", [sd], ""), ("Min", [float("nan") if anynan else min(e)], ""), ("Max", [float("nan") if anynan else max(e)], "")]
    return out + [("significant placebo effect", [Lvl(r.alpha)], None)]


def plac_dict(r):
    d = {k: getattr(r, k) for k in "test_type placebo_effect se t_stat p_value n_obs is_significant".split()}
    d.update(conf_int_lower=r.conf_int[0], conf_int_upper=r.conf_int[1])
    for k in ("original_effect", "original_se", "n_permutations"):
        if getattr(r, k) is not None:
            d[k] = getattr(r, k)
    return d


def hon_rows(r):
    out = [("Method", [], None), ("Restriction parameter", [float(r.M)], ""), ("CI method", [], ":" + r.ci_method), ("Point estimate", [r.original_estimate], ""), ("Standard error", [r.original_se], ""),
           ("Identified set", [r.lb, r.ub], ""), ("Robust CI", [level(r.alpha), r.ci_lb, r.ci_ub], ""), ("robust to violations", [], ":" + ("Yes" if r.ci_lb > 0 or r.ci_ub < 0 else "No"))]
    if r.method == "relative_magnitude":
        out.append(("bounded at", [Rough(r.M)], None))
    elif r.method == "smoothness":
        if r.M != 0:
            out.append(("bounded by", [float(r.M)], None))
    else:
        out.append(("Combined", [Rough(r.M)], None))
    word = "POSITIVE" if r.ci_lb > 0 else "NEGATIVE" if r.ci_ub < 0 else "Cannot rule out zero"
    return out + [(word, [Rough(r.M)], None)]


def hon_dict(r):
    d = {k: getattr(r, k) for k in "lb ub ci_lb ci_ub M method original_estimate original_se alpha ci_method".split()}
    d.update(is_significant=bool(r.ci_lb > 0 or r.ci_ub < 0), identified_set_width=r.ub - r.lb, ci_width=r.ci_ub - r.ci_lb)
    return d


def sens_rows(r):
    out = [("Method", [], ":" + r.method), ("Original estimate", [r.original_estimate], ""), ("Original SE", [r.original_se], ""), ("M values tested", [len(r.M_values)], "")]
    if r.breakdown_M is not None:
        out += [("Breakdown value", [r.breakdown_M], ""), ("robust to violations", [r.breakdown_M], None)]
    else:
        out.append(("Breakdown value", [], None))
    return out + [("", [m, b[0], b[1], c[0], c[1]], "") for m, b, c in zip(r.M_values, r.bounds, r.robust_cis)]


def sens_frame(r):
    return [dict(M=m, lb=b[0], ub=b[1], ci_lb=c[0], ci_ub=c[1], is_significant=bool(c[0] > 0 or c[1] < 0)) for m, b, c in zip(r.M_values, r.bounds, r.robust_cis)]


def pow_rows(r):
    return [("Design", [], ":" + r.design), ("Significance level", [r.alpha], ""), ("Alternative", [], ":" + r.alternative), ("Treated units", [r.n_treated], ""), ("Control units", [r.n_control], ""),
            ("Total units", [r.n_treated + r.n_control], ""), ("Pre-treatment periods", [r.n_pre], ""), ("Post-treatment periods", [r.n_post], ""), ("Residual SD", [r.sigma], ""),
            ("Intra-cluster correlation", [r.rho], ""), ("Effect size", [r.effect_size], ""), ("Power:", [Pct(r.power)], ""), ("Minimum detectable effect", [r.mde], ""), ("Required sample size", [r.required_n], "")]


def pow_dict(r):
    return {k: getattr(r, k) for k in "power mde required_n effect_size alpha alternative n_treated n_control n_pre n_post sigma rho design".split()}


def sim_rows(r):
    return [("Estimator", [], ":" + r.estimator_name), ("Number of simulations", [r.n_simulations], ""), ("True treatment effect", [r.true_effect], ""), ("Significance level", [r.alpha], ""),
            ("Power (rejection rate)", [Pct(r.power)], ""), ("Standard error", [r.power_se], ""), ("CI:", [Lvl(95), r.power_ci[0], r.power_ci[1]], ""), ("Mean estimate", [r.mean_estimate], ""),
            ("Bias", [r.mean_estimate - r.true_effect], ""), ("Std. deviation", [r.std_estimate], ""), ("RMSE", [math.sqrt((r.mean_estimate - r.true_effect) ** 2 + r.std_estimate ** 2)], ""),
            ("Mean standard error", [r.mean_se], ""), ("Coverage", [Pct(r.coverage)], "")]


def sim_dict(r):
    d = {k: getattr(r, k) for k in "power power_se rejection_rate mean_estimate std_estimate mean_se coverage n_simulations true_effect alpha estimator_name".split()}
    b = r.mean_estimate - r.true_effect
    d.update(power_ci_lower=r.power_ci[0], power_ci_upper=r.power_ci[1], bias=b, rmse=math.sqrt(b * b + r.std_estimate ** 2))
    return d


def pre_rows(r):
    out = [("Number of pre-periods", [r.n_pre_periods], ""), ("Significance level", [r.alpha], ""), ("Target power", [Pct(r.target_power)], ""), ("Violation type", [], ":" + r.violation_type),
           ("Violation magnitude", [r.violation_magnitude], ""), ("Power to detect", [Pct(r.power)], ""), ("Minimum detectable violation", [r.mdv], ""), ("Test statistic", [r.test_statistic], ""),
           ("Critical value", [r.critical_value], ""), ("Non-centrality", [r.noncentrality], "")]
    if r.power >= r.target_power:
        out += [("meets target", [RoughPct(r.power), RoughPct(r.target_power)], None), ("would detect", [r.violation_magnitude], None)]
    else:
        out += [("below target", [RoughPct(r.power), RoughPct(r.target_power)], None), ("Would need", [r.mdv, RoughPct(r.target_power)], None)]
    return out + [("(MDV)", [r.mdv], "")]


def pre_dict(r):
    d = {k: getattr(r, k) for k in "power mdv violation_magnitude violation_type alpha target_power n_pre_periods test_statistic critical_value noncentrality".split()}
    se = max(r.pre_period_ses) if len(r.pre_period_ses) else 1.0
    d.update(is_informative=bool(r.mdv < 2 * se), power_adequate=bool(r.power >= r.target_power))
    return d


BT = (("treated_vs_never", "Treated vs Never-treated"), ("earlier_vs_later", "Earlier vs Later treated"), ("later_vs_earlier", "Later vs Earlier"))


def bac_rows(r):
    w = sum(c.weight for c in r.comparisons)
    s = sum(c.weight * c.estimate for c in r.comparisons)
    out = [("Total observations", [r.n_obs], ""), ("Treatment timing groups", [r.n_timing_groups], ""), ("Never-treated units", [r.n_never_treated], ""), ("comparisons", [len(r.comparisons)], ""),
           ("TWFE Estimate", [r.twfe_estimate], ""), ("Weighted Sum", [float(s)], ""), ("Decomposition Error", [r.decomposition_error], "")]
    for k, lab in BT:
        tw, av = getattr(r, "total_weight_" + k), getattr(r, "weighted_avg_" + k)
        if tw > 0:
            av = 0.0 if av is None else av
            out.append((lab, [tw, av, tw * av], None))
    out.append(("Total", [float(w), float(s)], ""))
    if r.total_weight_later_vs_earlier > 0.01:
        out.append(("forbidden", [Pct(r.total_weight_later_vs_earlier)], None))
    return out


def bac_frame(r):
    return [dict(treated_group=c.treated_group, control_group=c.control_group, comparison_type=c.comparison_type, estimate=c.estimate, weight=c.weight, n_treated=c.n_treated,
                 n_control=c.n_control, time_start=c.time_window[0], time_end=c.time_window[1]) for c in r.comparisons]


def wild_rows(r):
    return [("Bootstrap SE", [r.se], ""), ("p-value", [r.p_value], ""), ("t-stat", [r.t_stat_original], ""), ("CI", [level(r.alpha), r.ci_lower, r.ci_upper], ""),
            ("Number of clusters", [r.n_clusters], ""), ("Bootstrap reps", [r.n_bootstrap], ""), ("Weight type", [], ":" + r.weight_type)]


def reg_dict(r):
    return dict(coefficient=r.coefficient, se=r.se, t_stat=r.t_stat, p_value=r.p_value, conf_int=r.conf_int, df=r.df, alpha=r.alpha)


# class name -> (rows, dict, frames{name: (call, expected rows, sorted?)}, relevel)
def frames_of(r):
    n = type(r).__name__
    one = lambda d: (lambda: r.to_dataframe(), lambda: [d(r)], None)
    if n in DICTS:
        out = {"frame": one(DICTS[n])} if n not in ("MultiPeriodDiDResults", "InferenceResult") else {}
    else:
        out = {}
    if n == "MultiPeriodDiDResults":
        out["frame"] = (r.to_dataframe, lambda: mp_frame(r), None)
    if n == "SyntheticDiDResults":
        out["weights"] = (r.get_unit_weights_df, lambda: [dict(unit=u, weight=w) for u, w in r.unit_weights.items()], "weight")
        out["tweights"] = (r.get_time_weights_df, lambda: [dict(period=u, weight=w) for u, w in r.time_weights.items()], None)
    if n == "CallawaySantAnnaResults":
        out["gt"] = (r.to_dataframe, lambda: gt_frame(r), None)
        out["gt2"] = (lambda: r.to_dataframe(level="group_time"), lambda: gt_frame(r), None)
        out["es"] = (lambda: r.to_dataframe(level="event_study"), r.event_study_effects and (lambda: eff_frame(r.event_study_effects, "relative_period")), None)
        out["group"] = (lambda: r.to_dataframe(level="group"), r.group_effects and (lambda: eff_frame(r.group_effects, "group")), None)
        out["bad"] = (lambda: r.to_dataframe(level="nonsense"), None, None)
    if n == "SunAbrahamResults":
        out["es"] = (r.to_dataframe, lambda: eff_frame(r.event_study_effects, "relative_period"), None)
        out["cohort"] = (lambda: r.to_dataframe(level="cohort"), r.cohort_effects and (lambda: [dict(cohort=g, relative_period=e, effect=v["effect"], se=v["se"], weight=v.get("weight", float("nan")))
                                                                                      for (g, e), v in sorted(r.cohort_effects.items())]), None)
        out["bad"] = (lambda: r.to_dataframe(level="nonsense"), None, None)
    if n == "TROPResults":
        out["te"] = (r.get_treatment_effects_df, lambda: [dict(unit=u, time=t, effect=v) for (u, t), v in r.treatment_effects.items()], None)
        out["ue"] = (r.get_unit_effects_df, lambda: [dict(unit=u, effect=v) for u, v in r.unit_effects.items()], None)
        out["time"] = (r.get_time_effects_df, lambda: [dict(time=u, effect=v) for u, v in r.time_effects.items()], None)
    if n == "SensitivityResults":
        out["frame"] = (r.to_dataframe, lambda: sens_frame(r), None)
    if n == "SimulationPowerResults":
        out["curve"] = (r.power_curve_df, lambda: [dict(effect_size=a, power=b) for a, b in zip(r.effect_sizes, r.powers)], None)
    if n == "PreTrendsPowerCurve":
        out["frame"] = (r.to_dataframe, lambda: [dict(M=a, power=b) for a, b in zip(r.M_values, r.powers)], None)
    if n == "BaconDecompositionResults":
        out["frame"] = (r.to_dataframe, lambda: bac_frame(r), None)
    return out


ROWS = dict(DiDResults=did_rows, MultiPeriodDiDResults=mp_rows, SyntheticDiDResults=sdid_rows, CallawaySantAnnaResults=stag_rows, SunAbrahamResults=stag_rows, TripleDifferenceResults=ddd_rows,
            TROPResults=trop_rows, PlaceboTestResults=plac_rows, HonestDiDResults=hon_rows, SensitivityResults=sens_rows, PowerResults=pow_rows, SimulationPowerResults=sim_rows,
            PreTrendsPowerResults=pre_rows, BaconDecompositionResults=bac_rows, WildBootstrapResults=wild_rows)
RELEVEL = ("DiDResults", "MultiPeriodDiDResults", "SyntheticDiDResults", "CallawaySantAnnaResults", "SunAbrahamResults", "TripleDifferenceResults", "TROPResults")
DICTS = dict(DiDResults=did_dict, MultiPeriodDiDResults=mp_dict, SyntheticDiDResults=sdid_dict, TripleDifferenceResults=ddd_dict, TROPResults=trop_dict, PlaceboTestResults=plac_dict,
             HonestDiDResults=hon_dict, PowerResults=pow_dict, SimulationPowerResults=sim_dict, PreTrendsPowerResults=pre_dict, InferenceResult=reg_dict)
HEAD = dict(DiDResults=("att", "se", "p_value"), MultiPeriodDiDResults=("avg_att", "avg_se"), SyntheticDiDResults=("att", "se", "p_value"), CallawaySantAnnaResults=("overall_att", "overall_se"),
            SunAbrahamResults=("overall_att", "overall_se"), TripleDifferenceResults=("att", "se", "p_value"), TROPResults=("att", "se", "p_value"), HonestDiDResults=("lb", "ub", "ci_lb", "ci_ub"),
            PowerResults=("power", "mde", "required_n"), PreTrendsPowerResults=("power", "mdv", "violation_magnitude"), BaconDecompositionResults=("twfe_estimate",))


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (float, np.floating, int, np.integer)) and isinstance(b, (float, np.floating, int, np.integer)):
        a, b = float(a), float(b)
        return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    try:
        return bool(a == b)
    except Exception:
        return False


def records(cx, got, want, tag, sort=None, loose=False):
    if not cx.ok(isinstance(got, pd.DataFrame), tag + ": not a frame"):
        return
    if not cx.ok(len(got) == len(want), "%s: %d rows for %d entries" % (tag, len(got), len(want))):
        return
    if not want:
        return
    cols = list(want[0])
    if not cx.ok(sorted(map(str, got.columns)) == sorted(cols), "%s: columns %s instead of %s" % (tag, list(got.columns), cols)):
        return
    rows = [{c: got[c].iloc[i] for c in cols} for i in range(len(got))]
    if sort:
        v = [x[sort] for x in rows]
        ok = [x for x in v if not math.isnan(x)]
        cx.ok(all(a >= b for a, b in zip(ok, ok[1:])), tag + ": not in descending order")
        key = lambda x: str([k for k in x.values() if not isinstance(k, float)][:1])
        rows, want = sorted(rows, key=key), sorted(want, key=key)
    for x, w in zip(rows, want):
        for c in cols:
            if w[c] is None:
                cx.ok(x[c] is None or (isinstance(x[c], float) and math.isnan(x[c])), "%s: %s is %r, stored nothing" % (tag, c, x[c]))
            else:
                cx.ok(same(x[c], w[c]), "%s: %s is %r, stored %r" % (tag, c, x[c], w[c]))


def freeze(o, seen=()):
    if id(o) in seen:
        return "loop"
    s = seen + (id(o),)
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return (type(o).__name__,) + tuple((k, freeze(v, s)) for k, v in vars(o).items())
    if isinstance(o, dict):
        return ("dict",) + tuple((repr(k), freeze(v, s)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(freeze(v, s) for v in o)
    if isinstance(o, np.ndarray):
        return ("array", o.shape, o.dtype.str, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return (type(o).__name__, o.to_string(), repr(o.index.tolist()), repr(getattr(o, "columns", None)))
    if callable(o) or (hasattr(o, "__dict__") and not isinstance(o, (pd.Timestamp,))):
        return type(o).__name__
    return repr(o)


def world():
    import matplotlib
    s = np.random.get_state()
    return (repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())), repr([pd.get_option(k) for k in ("display.max_rows", "display.precision", "display.float_format", "display.width")]),
            repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))), s[1].tobytes(), s[2], matplotlib.get_backend())


def exports(cx, r, tag=""):
    """Every export of one result against its stored numbers."""
    n = type(r).__name__
    before, w0 = freeze(r), world()
    if n in DICTS:
        d, e = cx.attempt(r.to_dict)
        if e is not None:
            cx.bad("%s%s.to_dict failed: %s: %s" % (tag, n, type(e).__name__, e))
        else:
            want = DICTS[n](r)
            cx.ok(set(d) == set(want), "%s%s.to_dict: keys %s" % (tag, n, sorted(set(map(str, d)) ^ set(map(str, want)))))
            for k in want:
                if k in d:
                    cx.ok(same(d[k], want[k]), "%s%s.to_dict: %s is %r, stored %r" % (tag, n, k, d[k], want[k]))
            for k in list(d):
                d[k] = "spoiled"
            cx.ok(freeze(r) == before, "%s%s: changing the exported dictionary changes the result" % (tag, n))
            cx.ok("spoiled" not in repr(list(r.to_dict().values())), "%s%s: the exported dictionary is shared" % (tag, n))
    for name, (call, want, sort) in frames_of(r).items():
        f, e = cx.attempt(call)
        if not want:
            if want is None:
                cx.ok(isinstance(e, ValueError), "%s%s: frame %r of something not computed is not refused" % (tag, n, name))
            continue
        if e is not None:
            cx.bad("%s%s: frame %r failed: %s: %s" % (tag, n, name, type(e).__name__, e))
            continue
        records(cx, f, want(), "%s%s frame %r" % (tag, n, name), sort)
        for c in f.columns:
            if f[c].dtype.kind == "f":
                f.loc[:, c] = -7.25
        cx.ok(freeze(r) == before, "%s%s: changing the exported frame changes the result" % (tag, n))
    if n in ROWS:
        t, e = cx.attempt(r.summary)
        if e is not None:
            cx.bad("%s%s.summary failed: %s: %s" % (tag, n, type(e).__name__, e))
        else:
            rows = []
            for lab, vals, tail in ROWS[n](r):
                if tail is not None and tail.startswith(":"):
                    tail = tail[1:]
                    ok = any(lab.lower() in l.lower() and l.rstrip().endswith(tail) for l in t.splitlines())
                    cx.ok(ok, "%s%s.summary: no line %r with %r" % (tag, n, lab, tail))
                elif vals:
                    rows.append((lab, vals, tail))
            check_text(cx, t, rows, "%s%s.summary" % (tag, n))
            cx.saw(re.sub(r"\d", "0", t)[-300:])
            cx.ok(r.summary() == t, tag + n + ": a second summary differs")
            if hasattr(r, "print_summary"):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    cx.op(r.print_summary)
                cx.ok(buf.getvalue().strip("\n") == t.strip("\n"), tag + n + ": the printed summary is not the summary")
            if n in RELEVEL:
                for a in (0.1, 0.05, 0.02):
                    u = cx.op(r.summary, alpha=a)
                    if same(a, r.alpha):
                        cx.ok(u == t, tag + n + ": asking for the stored level changes the summary")
                        continue
                    diff = [(x, y) for x, y in itertools.zip_longest(t.splitlines(), u.splitlines()) if x != y]
                    if not diff:
                        continue
                    ok = cx.ok(len(diff) == 1 and "Confidence Interval" in (diff[0][0] or ""), tag + n + ": another level changes more than the interval")
                    if ok:
                        a1, a0 = [q for q, _ in numbers(diff[0][1])], [q for q, _ in numbers(diff[0][0])]
                        if len(a1) == 3 and shows(a1[0], True, level(a)) and a1[1:] == a0[1:]:
                            if "nan" not in a1[1]:
                                cx.finding("K-LEVEL", "%s.summary(alpha=%g) prints the %g%% interval under the requested level" % (n, a, 100 * (1 - r.alpha)))
                        else:
                            relevel(cx, r, a, a1, tag + n)
    h = HEAD.get(n)
    if h:
        s = repr(r)
        toks = [t for t, _ in numbers(clean(s))]
        for k in h:
            v = getattr(r, k)
            v = v if isinstance(v, (int, np.integer)) else float(v)
            cx.ok(any(shows(t, False, v) for t in toks), "%s%s: the short form %r does not show %s = %r" % (tag, n, s, k, v))
    p = getattr(r, "p_value", getattr(r, "overall_p_value", getattr(r, "avg_p_value", None)))
    if p is not None and hasattr(type(r), "significance_stars"):
        val = lambda q: q() if callable(q) else q
        cx.ok(val(r.significance_stars) == stars(p), tag + n + ": stars %r for p=%r" % (val(r.significance_stars), p))
        if n != "PlaceboTestResults":
            cx.ok(bool(val(r.is_significant)) == bool(p < r.alpha), tag + n + ": significant: %r for p=%r at %r" % (r.is_significant, p, r.alpha))
    cx.ok(freeze(r) == before, "%s%s: exporting changed the result" % (tag, n))
    cx.ok(world() == w0, "%s%s: exporting changed global display, plotting or random state" % (tag, n))


def relevel(cx, r, a, toks, tag):
    """A recomputed interval must be the effect plus and minus a quantile of the stored kind."""
    from scipy import stats as st
    eff = getattr(r, "att", getattr(r, "overall_att", getattr(r, "avg_att", None)))
    se = getattr(r, "se", getattr(r, "overall_se", getattr(r, "avg_se", None)))
    ci = getattr(r, "conf_int", getattr(r, "overall_conf_int", getattr(r, "avg_conf_int", None)))
    if not (len(toks) == 3 and shows(toks[0], True, level(a)) and np.isfinite(se) and se > 0):
        cx.bad(tag + ": unreadable interval at another level %s" % toks)
        return
    c0 = (ci[1] - ci[0]) / 2 / se
    z0, z1 = st.norm.ppf(1 - r.alpha / 2), st.norm.ppf(1 - a / 2)
    half = (float(toks[2]) - float(toks[1])) / 2 / se
    cx.ok(half >= z1 * 0.98 and half <= max(c0 / z0, 1) ** 4 * z1 * 1.05 and abs((float(toks[1]) + float(toks[2])) / 2 - eff) < 1e-3 * (1 + abs(eff)), tag + ": interval at another level is not the effect and its error")


# --- results ------------------------------------------------------------
def lab(kind, i):
    return (i + 1, 2010 + i, "q%d" % (i + 1), pd.Timestamp(2001, 1, 1) + pd.DateOffset(years=i), "a long period label %s" % "xyzwvu"[i % 6], -2 + i)[kind]


def effd(N, ref=False):
    e, s, t, p, ci = N.inf_()
    if ref:
        return dict(effect=0.0, se=float("nan"), t_stat=float("nan"), p_value=float("nan"), conf_int=(float("nan"), float("nan")), n_groups=0)
    return dict(effect=e, se=s, t_stat=t, p_value=p, conf_int=ci, n_groups=2)


def opt(c, k, v):
    return v if c["o"] >> k & 1 else None


def make(c):
    """One result of class c['cls']."""
    N = Num(PAT[c["pat"]], c.get("k", 0))
    a = LV[c["a"]]
    k = c["cls"]
    m = c.get("m", 3)
    if k == "did":
        return mod("results").DiDResults(*N.inf_(), N.n(), N.n(), N.n(), alpha=a, r_squared=opt(c, 0, 0.731), inference_method="wild_bootstrap" if c["o"] & 8 else "analytical",
                                         n_bootstrap=opt(c, 1, 99), n_clusters=opt(c, 2, 7), coefficients={"x": 1.5}, vcov=np.eye(2))
    if k == "mp":
        R = mod("results")
        lk = c["lk"]
        post = [lab(lk, 3 + i) for i in range(m)]
        if c["o"] & 2:
            post = post[::-1]
        pe = {p: R.PeriodEffect(p, *N.inf_()) for p in post}
        return R.MultiPeriodDiDResults(pe, *N.inf_(), N.n(), N.n(), N.n(), [lab(lk, i) for i in range(1 + c["o"] % 3)], post, alpha=a, r_squared=opt(c, 0, 0.731))
    if k == "sdid":
        ws = [[1.0], [0.25, 0.5, 0.25], [0.4, 0.3, 0.2, 0.05, 0.03, 0.02], [0.0, 0.999, 0.001], [0.0011, 0.9979, 0.0005, 0.0005], [0.125] * 8, [0.1, 0.3, 0.0, 0.6, 0.0]][c["w"]]
        return mod("results").SyntheticDiDResults(*N.inf_(), N.n(), N.n(), N.n(), {lab(c["lk"], 0) if i == 0 else (lab(c["lk"], i) if c["lk"] != 4 else "unit " + "abcdefgh"[i]): w for i, w in enumerate(ws)}, {lab(c["lk"], i): w for i, w in enumerate((0.3, 0.0, 0.7)[:m])},
                                                  [lab(c["lk"], i) for i in range(m)], [lab(c["lk"], 5)], alpha=a, variance_method="bootstrap" if c["o"] & 1 else "placebo",
                                                  lambda_reg=opt(c, 1, N.pos()), pre_treatment_fit=opt(c, 2, N.pos()), n_bootstrap=opt(c, 3, 88), placebo_effects=opt(c, 0, np.arange(4.0)))
    if k in ("cs", "sa"):
        es = [-2, 3, -1, 0, 5][:m]
        ev = {e: effd(N, ref=(e == -1 and c["o"] & 4)) for e in (sorted(es) if c["o"] & 1 else es)}
        gr = [2010 + 2 * i for i in range(1 + c["lk"] % 3)][:: -1 if c["o"] & 1 else 1]
        tp = list(range(2008, 2008 + 4 + c["lk"]))
        if k == "cs":
            gt = {(g, t): effd(N) for g in gr for t in tp if t >= g}
            return mod("staggered_results").CallawaySantAnnaResults(gt, *N.inf_(), sorted(gr), tp, N.n(), N.n(), N.n(), alpha=a, control_group="not_yet_treated" if c["o"] & 8 else "never_treated",
                                                                    base_period="universal" if c["o"] & 4 else "varying", event_study_effects=opt(c, 1, ev), group_effects=opt(c, 0, {g: effd(N) for g in gr}))
        co = {(g, e): dict(effect=N.x(), se=N.pos(inf=True), **({"weight": N.pos()} if c["o"] & 2 else {})) for g in gr for e in es}
        return mod("sun_abraham").SunAbrahamResults(ev, *N.inf_(), {e: {g: 1.0 / len(gr) for g in gr} for e in es}, sorted(gr), tp, N.n(), N.n(), N.n(), alpha=a, cohort_effects=opt(c, 3, co))
    if k == "ddd":
        return mod("triple_diff").TripleDifferenceResults(*N.inf_(), N.n(), N.n(), N.n(), N.n(), N.n(), ("dr", "reg", "ipw")[m % 3], alpha=a, r_squared=opt(c, 0, 0.731),
                                                          group_means=opt(c, 1, {"Treated, Eligible, Pre": N.x(), "Control, Eligible, Post": N.x(), "other": N.x()}), pscore_stats=opt(c, 2, {"P_mean": N.x(), "P_min": N.x()}),
                                                          inference_method="bootstrap" if c["o"] & 8 else "analytical", n_bootstrap=opt(c, 0, 99), n_clusters=opt(c, 2, 7))
    if k == "trop":
        T = mod("trop").TROPResults
        v = dict(zip(("att", "se", "t_stat", "p_value", "conf_int"), N.inf_()))
        for f in ("n_obs", "n_treated", "n_control", "n_treated_obs", "n_pre_periods", "n_post_periods"):
            v[f] = N.n()
        for f in ("lambda_time", "lambda_unit", "lambda_nn", "effective_rank", "loocv_score"):
            v[f] = math.inf if c["o"] & 4 and f == "lambda_nn" else N.pos()
        v.update(unit_effects={lab(c["lk"], i): N.x() for i in range(m)}, time_effects={i: N.x() for i in range(m)}, treatment_effects={(lab(c["lk"], i), t): N.x() for i in range(m) for t in range(2)},
                 factor_matrix=np.eye(2), variance_method="bootstrap" if c["o"] & 1 else "jackknife", alpha=a, n_bootstrap=opt(c, 1, 99), bootstrap_distribution=None)
        return T(**v)
    if k == "plac":
        q = N.inf_()
        return mod("diagnostics").PlaceboTestResults(("fake_timing", "fake_group", "permutation", "leave_one_out")[m % 4], *q, N.n(), bool(q[3] < a), alpha=a, original_effect=opt(c, 0, N.x()), original_se=opt(c, 1, N.pos()),
                                                     leave_one_out_effects=opt(c, 2, {i: N.x() for i in range(max(m, 1))}), fake_period=opt(c, 3, lab(c["lk"], 2) if c["lk"] in (0, 1, 2) else None), n_permutations=opt(c, 0, 55),
                                                     fake_group=opt(c, 3, [1, 2]))
    if k in ("hon", "sens"):
        s = (1, -1)[c["o"] & 1]
        lo, hi, cl, ch = sorted((N.x(), N.x())) + sorted((N.x(), N.x()))
        if c["o"] & 2:
            cl = -abs(cl)
            ch = abs(ch)
        me = ("smoothness", "relative_magnitude", "combined")[m % 3]
        if k == "hon":
            return mod("honest_did").HonestDiDResults(lo, hi, cl, ch, (0.0, 0.5, 1.75, 2)[c["o"] >> 2 & 3], me, N.x(), N.pos(), alpha=a, ci_method=("FLCI", "C-LF")[c["o"] & 1])
        n = max(m, 1)
        return mod("honest_did").SensitivityResults(np.array([0.25 * i for i in range(n)]), [(N.x(), N.x()) for _ in range(n)], [(N.x(), N.x()) for _ in range(n)], opt(c, 2, 0.3725), me, N.x(), N.pos(), alpha=a)
    if k == "power":
        return mod("power").PowerResults(0.1237 + 0.09 * (c["o"] % 9), N.pos(), N.n(), N.x(), a, ("two-sided", "greater", "less")[m % 3], N.n(), N.n(), N.n(), N.n(), N.pos(), 0.2371, design=("basic_did", "panel")[c["o"] & 1])
    if k == "sim":
        return mod("power").SimulationPowerResults(0.1237 + 0.09 * (c["o"] % 9), 0.0411, (0.1021, 0.3733), 0.1237, N.x(), N.pos(), N.pos(), 0.9412, N.n(), [0.5, 1.5, 2.5][:max(m, 1)], [0.2, 0.5, 0.9][:max(m, 1)], N.x(), a, "SomeEstimator",
                                                   simulation_results=opt(c, 0, [{"estimate": 1.0}]))
    if k == "pre":
        n = max(m, 1)
        return mod("pretrends").PreTrendsPowerResults(0.1237 + 0.09 * (c["o"] % 9), math.inf if c["o"] & 4 else N.pos(), N.pos(), ("linear", "constant", "last_period", "custom")[m % 4], a, (0.8, 0.65)[c["o"] & 1], n, N.x(inf=True), N.pos(), N.pos(),
                                                      np.array([N.x() for _ in range(n)]), np.array([N.pos() for _ in range(n)]), np.eye(n))
    if k == "curve":
        n = max(m, 2)
        return mod("pretrends").PreTrendsPowerCurve(np.array([0.5 * i for i in range(n)]), np.array([0.05 + 0.17 * i for i in range(n)]), math.inf if c["o"] & 4 else 0.8725, a, (0.8, 0.65)[c["o"] & 1], "linear")
    if k == "bacon":
        B = mod("bacon")
        cs, tw, av = [], {}, {}
        ty = [t for j, (t, _) in enumerate(BT) if c["o"] >> j & 1]
        for j, (t, _) in enumerate(BT):
            mine = []
            if t in ty:
                for q in range(1 + (m + j) % 2):
                    mine.append(B.Comparison2x2(2010 + j + q, "never_treated" if j == 0 else 2015 + q, t, N.x(), (0.5 / len(ty) + 0.01 * j) / (1 + (m + j) % 2) if c["lk"] else 0.004, N.n(), N.n(), (2001 + j, 2009 + q)))
            cs += mine
            tw[t] = float(sum(x.weight for x in mine))
            av[t] = (sum(x.weight * x.estimate for x in mine) / tw[t]) if mine else None
        return B.BaconDecompositionResults(N.x(), cs[:: -1 if c["o"] & 8 else 1], *[tw[t] for t, _ in BT], *[av[t] for t, _ in BT], N.n(), N.n(), [2010, 2012], n_obs=N.n(), decomposition_error=0.000123)
    if k == "wild":
        return mod("utils").WildBootstrapResults(N.pos(inf=True), N.p_(), N.x(inf=True), N.x(inf=True), N.x(inf=True), N.n(), N.n(), ("webb", "rademacher", "mammen")[m % 3], alpha=a)
    return mod("linalg").InferenceResult(*N.inf_(), df=opt(c, 0, 17), alpha=a)


CLS = {"did": 1, "mp": 3, "sdid": 7, "cs": 4, "sa": 4, "ddd": 2, "trop": 3, "plac": 4, "hon": 3, "sens": 4, "power": 3, "sim": 3, "pre": 4, "curve": 3, "bacon": 2, "wild": 3, "reg": 1}


def cases(tier):
    big = tier == "thorough"
    i = 0
    for cls, pat, o in itertools.product(CLS, range(len(PAT)), range(16)):
        for m in range(CLS[cls]):
            for lk in range(6 if big else 2):
                for a in range(len(LV)) if big else ((i % len(LV)),):
                    i += 1
                    yield dict(kind="class", cls=cls, pat=pat, o=o, m=m + (cls in ("mp", "cs", "sa", "trop")), lk=(lk * 3 + i) % 6 if not big else lk, a=a, w=(m + i) % 7 if cls != "sdid" else m, k=i % 17)
    for e in zoo.ALL:
        for s in range(3 if big else 1):
            yield dict(kind="fit", e=e.name, s=s)
    for k in range(len(MORE)):
        for a in (0.05, 0.1, 0.07):
            yield dict(kind="fit", e=k, s=0, a=a)
    yield from plot_cases(big)


def run(c, cx):
    if c["kind"] == "class":
        r = make(c)
        exports(cx, r)
        for k in ("period_effects",):
            for p, e in (getattr(r, k, None) or {}).items():
                cx.ok(e.significance_stars == stars(e.p_value), "stars of a period")
                cx.ok(e.is_significant is bool(e.p_value < 0.05), "significance of a period")
                cx.ok(r.get_effect(p) is e or same(r.get_effect(p).effect, e.effect), "the effect of a period is that of another one")
        if hasattr(r, "get_effect"):
            _, e = cx.attempt(r.get_effect, "no such period")
            cx.ok(isinstance(e, KeyError), "an unknown period has an effect")
    elif c["kind"] == "fit":
        fitted(c, cx)
    else:
        PLOTS[c["f"]](c, cx)


def _mp(dd, a):
    return dd.MultiPeriodDiD(alpha=a).fit(zoo.frame("basic"), **zoo.BT)


def _cs(dd, a, **k):
    return dd.CallawaySantAnna(alpha=a, **k).fit(zoo.frame("stag"), aggregate="event_study", **zoo.SG)


MORE = [lambda dd, a: [dd.HonestDiD(method=m, M=x, alpha=a).fit(q(dd, a)) for m in ("relative_magnitude", "smoothness") for x in (0.0, 0.5, 1.3) for q in (_mp, _cs)],
        lambda dd, a: [dd.PreTrendsPower(alpha=a, violation_type=v).fit(_cs(dd, a)) for v in ("linear", "constant", "last_period")] + [dd.PreTrendsPower(alpha=a).power_curve(_cs(dd, a))],
        lambda dd, a: [dd.PowerAnalysis(alpha=a, alternative=s).mde(20, 30, 1.5, n_pre=p, n_post=2, rho=0.3) for s in ("two-sided", "greater", "less") for p in (1, 3)],
        lambda dd, a: [dd.PowerAnalysis(alpha=a).power(0.7, 20, 30, 1.5), dd.PowerAnalysis(alpha=a).sample_size(0.7, 1.5)],
        lambda dd, a: dd.simulate_power(dd.DifferenceInDifferences(alpha=a), n_units=20, n_simulations=12, effect_sizes=[0.5, 2.0], alpha=a, seed=3, progress=False),
        lambda dd, a: [dd.CallawaySantAnna(alpha=a, base_period="universal", control_group="not_yet_treated").fit(zoo.frame("stag"), aggregate=g, **zoo.SG) for g in (None, "simple", "event_study", "group", "all")],
        lambda dd, a: [dd.SunAbraham(alpha=a).fit(zoo.frame("stag"), **zoo.SG), dd.TripleDifference(alpha=a).fit(zoo.frame("ddd"), **zoo.DD3), dd.SyntheticDiD(alpha=a, variance_method="placebo", n_bootstrap=8, seed=1).fit(zoo.frame("basic"), unit="u", **zoo.BT)],
        lambda dd, a: [dd.LinearRegression(alpha=a).fit(np.column_stack([M.gen(8, 3), M.gen(8, 9)]), M.gen(8, 5)).get_inference(i) for i in (0, 1, 2)],
        lambda dd, a: [dd.placebo_timing_test(zoo.frame("basic"), "y", "d", "t", 2, post_periods=[4, 5], alpha=a), dd.permutation_test(zoo.frame("basic"), "y", "d", "post", "u", n_permutations=9, alpha=a, seed=2)]]


def fitted(c, cx):
    import diff_diff as dd
    if isinstance(c["e"], int):
        r, x = cx.attempt(lambda: MORE[c["e"]](dd, c["a"]))
        name = "more %d" % c["e"]
    else:
        e = zoo.BY[c["e"]]
        name = e.name
        df = zoo.frame(e.kind, c["s"])
        r, x = cx.attempt(lambda: e.call(dd, df, extra=zoo.fill(e, df)))
    if x is not None:
        cx.bad("%s failed: %s: %s" % (name, type(x).__name__, x))
        return
    seen = []

    def walk(o, d=0):
        if d > 4 or any(o is q for q in seen):
            return
        if type(o).__name__ in ROWS or type(o).__name__ in DICTS or type(o).__name__ == "PreTrendsPowerCurve":
            seen.append(o)
            exports(cx, o, name + ": ")
        if dataclasses.is_dataclass(o) and not isinstance(o, type):
            for v in vars(o).values():
                walk(v, d + 1)
        elif isinstance(o, dict):
            for v in list(o.values())[:30]:
                walk(v, d + 1)
        elif isinstance(o, (list, tuple)):
            for v in o[:30]:
                walk(v, d + 1)
        elif hasattr(o, "results_"):
            walk(o.results_, d + 1)

    r0 = freeze(r)
    walk(r)
    cx.ok(freeze(r) == r0, name + ": exporting changed a result")
    cx.ok(seen or name in ("trend", "trend-robust", "equivalence"), name + ": no result object")
    cx.saw(name, len(seen))



# --- plots --------------------------------------------------------------
def drawn(ax):
    """What is on the axes, in data coordinates."""
    from matplotlib import colors as mc
    from matplotlib.collections import LineCollection, PathCollection, PolyCollection
    d = dict(points=[], lines=[], h=[], v=[], seg=[], fill=[], scatter=[], span=[], bars=[], text=[t.get_text() for t in ax.texts], labels=[])
    for l in ax.get_lines():
        x, y = [np.asarray(q, dtype=float) for q in (l.get_xdata(orig=False), l.get_ydata(orig=False))]
        bx, by = l.get_transform().contains_branch_seperately(ax.transData)
        if by and not bx:
            d["h"].append(float(y[0]))
            d["labels"].append(l.get_label())
        elif bx and not by:
            d["v"].append(float(x[0]))
            d["labels"].append(l.get_label())
        elif l.get_marker() in ("_", "|"):
            continue
        else:
            hollow = mc.to_rgba(l.get_markerfacecolor())[:3] == (1.0, 1.0, 1.0) if l.get_marker() not in (None, "None", "", " ") else None
            if len(x) == 1 and hollow is not None:
                d["points"].append((float(x[0]), float(y[0]), hollow))
            else:
                d["lines"].append((list(map(float, x)), list(map(float, y)), l.get_label()))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            d["seg"] += [(float(s[0][0]), float(min(s[:, 1])), float(max(s[:, 1]))) for s in c.get_segments() if len(s) == 2 and np.isfinite(s).all()]
        elif isinstance(c, PathCollection):
            d["scatter"].append((sorted(tuple(map(float, q)) for q in np.asarray(c.get_offsets())), c.get_label()))
        elif isinstance(c, PolyCollection) or hasattr(c, "get_paths"):
            d["fill"].append(sorted({(round(float(a), 9), round(float(b), 9)) for q in c.get_paths() for a, b in q.vertices}))
    for p in ax.patches:
        tx, ty = p.get_transform().contains_branch_seperately(ax.transData) if not hasattr(p, "get_x") else (True, True)
        b = p.get_extents().transformed(ax.transData.inverted())
        box = p.get_x(), p.get_width(), p.get_height()
        dx, dy = (p.get_data_transform() if hasattr(p, "get_data_transform") else p.get_transform()).contains_branch_seperately(ax.transData)
        (d["bars"] if dy else d["span"]).append(tuple(map(float, box)))
    return d


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-8 * (1 + np.abs(b)))))


def near_set(a, b):
    return len(a) == len(b) and near(sorted(map(tuple, a)) if a and isinstance(a[0], (tuple, list)) else sorted(a), sorted(map(tuple, b)) if b and isinstance(b[0], (tuple, list)) else sorted(b))


def draw(cx, c, fn, inputs, *a, refused=False, shows=True, **k):
    """Run a plot function; returns what is drawn or None."""
    import matplotlib
    import matplotlib.pyplot as plt
    plt.close("all")
    calls = []
    real = plt.show
    plt.show = lambda *q, **w: calls.append(1)
    mode = c.get("ax", 0)
    before, w0 = freeze(inputs), world()
    other = None
    try:
        if mode == 1:
            fig, (other, k["ax"]) = plt.subplots(1, 2)
            k["ax"].plot([0.0, 1.0], [9.0, 9.0], label="mine")
        figs = plt.get_fignums()
        if shows:
            k["show"] = bool(c.get("show", 0))
        ax, e = cx.attempt(fn, *a, **k)
        now = plt.get_fignums()
        cx.ok(freeze(inputs) == before, "plotting changes its input")
        cx.ok(world() == w0, "plotting changes global display, plotting or random state")
        cx.ok(len(calls) == (1 if shows and k["show"] and e is None else 0), "the figure is shown %d times" % len(calls))
        if refused:
            cx.ok(isinstance(e, refused), "not refused with %s but %r" % (refused.__name__, e))
            return None
        if e is not None:
            cx.bad("plotting failed: %s: %s" % (type(e).__name__, e))
            return None
        if mode == 1:
            cx.ok(ax is k["ax"] and now == figs, "the given axes are not the ones drawn on")
            cx.ok(not other.lines and not other.collections and not other.patches and not other.texts, "something is drawn on other axes")
        else:
            cx.ok(len(now) == len(figs) + 1, "%d figures opened" % (len(now) - len(figs)))
        ax.figure.canvas.draw()
        d = drawn(ax)
        if mode == 1:
            mine = [l for l in d["lines"] if l[2] == "mine"]
            cx.ok(mine == [([0.0, 1.0], [9.0, 9.0], "mine")], "what was on the axes is gone")
            d["lines"] = [l for l in d["lines"] if l[2] != "mine"]
        d["ticks"] = [float(x) for x in ax.get_xticks()]
        d["ticklabels"] = [t.get_text() for t in ax.get_xticklabels()]
        d["titles"] = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
        lg = ax.get_legend()
        d["legend"] = [t.get_text() for t in lg.get_texts() if t.get_text() != "mine"] if lg else []
        d["ylim"] = ax.get_ylim()
        cx.saw(c["f"], len(d["points"]), len(d["seg"]), len(d["lines"]), len(d["h"]), len(d["v"]), len(d["span"]), tuple(p[2] for p in d["points"]), d["ticklabels"][:5])
        return d
    finally:
        plt.show = real
        plt.close("all")


Z = {0.05: 1.959963984540054, 0.1: 1.6448536269514722, 0.01: 2.5758293035489004, 0.32: 0.994457883209753}


def c_(cx, got, want, msg):
    cx.ok(got == want if not isinstance(want, (list, float)) else near(got, want), "%s: %r instead of %r" % (msg, got, want))


ESL = (lambda i: i - 2, lambda i: 2010 + i, lambda i: "ebdac"[i], lambda i: pd.Timestamp(2001 + i, 1, 1), lambda i: (i - 2) * 1.0, lambda i: 3 * i - 4)


def event(c, cx):
    from diff_diff import visualization as V
    n = c["n"]
    per = [ESL[c["lk"]](i) for i in range(n)]
    N = Num("plain", c.get("k", 0))
    eff = {p: (float("nan") if c["em"] >> i & 1 else N.x() * (-1) ** i) for i, p in enumerate(per)}
    se = {p: (float("nan") if c["sm"] >> i & 1 else N.pos() / 4) for i, p in enumerate(per)}
    ref = None if c["ref"] < 0 else (per[c["ref"]] if c["ref"] < n else 999)
    a = (0.05, 0.1, 0.01, 0.32)[c["a"]]
    k = dict(alpha=a)
    o = c["o"]
    if ref is not None:
        k["reference_period"] = ref
    for b, name in enumerate(("show_zero_line", "show_reference_line", "shade_pre")):
        if o >> b & 1:
            k[name] = False
    src = c["src"]
    ci, pre, hollow = {}, None, ref
    order = sorted(per) if not isinstance(per[0], str) else sorted(per)
    if src == "dict":
        args, inp = (), (eff, se)
        k.update(effects=eff, se=se)
    elif src in ("frame", "frameci"):
        order = per[::-1] if o & 8 else list(per)
        df = pd.DataFrame({"period": order, "effect": [eff[p] for p in order], "se": [se[p] for p in order]}, index=range(5, 5 + n))
        if src == "frameci":
            ci = {p: (eff[p] - (0.5 + i), eff[p] + 0.25 * (i + 1) - (3.0 if i == 1 else 0)) for i, p in enumerate(order)}
            ci = {p: (min(v), max(v)) for p, v in ci.items()}
            df["conf_int_lower"] = [ci[p][0] for p in order]
            df["conf_int_upper"] = [ci[p][1] for p in order]
        args, inp = (df,), df
    elif src == "mp":
        R = mod("results")
        post = per[1:] or per
        pre = [ESL[c["lk"]](i - 9) if c["lk"] in (0, 1, 4, 5) else "zzz" for i in range(2)] if not o & 8 else per[:2]
        pe = {p: R.PeriodEffect(p, eff[p], se[p], 1.0, 0.5, (9.0, 10.0)) for p in per}
        r = R.MultiPeriodDiDResults(pe, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), 10, 5, 5, pre, post)
        args, inp, order = (r,), r, list(post)
    else:
        E = {p: dict(effect=eff[p], se=se[p], t_stat=1.0, p_value=0.5, conf_int=(9.0, 10.0), n_groups=0 if (o & 8 and i == n // 2) else 2) for i, p in reversed(list(enumerate(per)))}
        if src == "cs":
            r = mod("staggered_results").CallawaySantAnnaResults({}, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), [3], [1, 2, 3], 10, 5, 5, event_study_effects=E)
        else:
            r = mod("sun_abraham").SunAbrahamResults(E, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), {}, [3], [1, 2, 3], 10, 5, 5)
        args, inp = (r,), r
        if ref is None:
            hollow = per[n // 2] if o & 8 else -1
    if c.get("per"):
        order = {1: order[::-1], 2: order[:1], 3: order[1:] + [998]}[c["per"]]
        k["periods"] = list(order)
    if src in ("cs", "sa"):
        pre = [p for p in order if p < 0]
    if c.get("pre"):
        pre = k["pre_periods"] = {1: order[:1], 2: order[:2][::-1], 3: []}[c["pre"]]
    base = 0.0
    e1, s1 = dict(eff), dict(se)
    if ref is not None and ref in eff and math.isfinite(eff[ref]):
        base = eff[ref]
        e1 = {p: v - base for p, v in eff.items()}
        s1[ref] = float("nan")
    shown = [p for p in order if p in e1 and not math.isnan(e1[p])]
    d = draw(cx, c, V.plot_event_study, inp, *args, refused=False if shown else ValueError, **k)
    if d is None:
        return
    pts = sorted(d["points"])
    cx.ok(near([p[:2] for p in pts], [[i, e1[p]] for i, p in enumerate(shown)]) if shown else not pts, "points %s instead of %s" % (pts, [(i, e1[p]) for i, p in enumerate(shown)]))
    cx.ok([bool(p[2]) for p in pts] == [p == hollow for p in shown], "hollow markers %s, reference %r of %s" % ([p[2] for p in pts], hollow, shown))
    seg = []
    for i, p in enumerate(shown):
        if math.isfinite(s1[p]):
            lo, hi = (ci[p][0] - base, ci[p][1] - base) if p in ci else (e1[p] - Z[a] * s1[p], e1[p] + Z[a] * s1[p])
            seg.append((i, lo, hi))
    cx.ok(near_set(d["seg"], seg), "intervals %s instead of %s" % (d["seg"], seg))
    cx.ok(d["ticklabels"] == [str(p) for p in shown] or len(shown) != len(set(map(str, shown))), "tick labels %s for %s" % (d["ticklabels"], shown))
    c_(cx, d["ticks"], [float(i) for i in range(len(shown))], "ticks")
    c_(cx, d["h"], [] if o & 1 else [0.0], "horizontal lines")
    c_(cx, d["v"], [float(shown.index(hollow))] if not o & 2 and hollow in shown else [], "vertical lines")
    px = [shown.index(p) for p in (pre or []) if p in shown]
    want = [(min(px) - 0.5, max(px) - min(px) + 1.0)] if px and not o & 4 else []
    cx.ok(near([q[:2] for q in d["span"]], want) if want else not d["span"], "shading %s instead of %s" % (d["span"], want))
    cx.ok(not d["lines"] and not d["bars"] and not d["fill"], "something else is drawn")


def groups(c, cx):
    from diff_diff import visualization as V
    N = Num("plain", c["k"])
    gs = [2012, 2010, 2015, 2011][:c["n"]]
    gt = {}
    for t in (2014, 2010, 2012, 2011, 2016) if c["o"] & 1 else (2010, 2011, 2012, 2014, 2016):
        for g in gs:
            if (t + g) % 5 != 3:
                v = effd(N)
                if c["o"] & 2 and (t + g) % 3 == 0:
                    v["se"] = float("nan")
                if c["o"] & 4 and (t + g) % 4 == 0:
                    v["effect"] = v["se"] = float("nan")
                gt[(g, t)] = v
    r = mod("staggered_results").CallawaySantAnnaResults(gt, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), sorted(gs), [1, 2, 3], 10, 5, 5)
    a = (0.05, 0.1, 0.01, 0.32)[c["a"]]
    k = dict(alpha=a)
    want = sorted(gs)
    if c["o"] & 8:
        want = k["groups"] = gs[::-1][:2] + [1999]
    d = draw(cx, c, V.plot_group_effects, r, r, **k)
    if d is None:
        return
    want = [g for g in want if g in gs]
    exp, seg = [], []
    for g in want:
        ts = sorted(t for q, t in gt if q == g)
        exp.append((list(map(float, ts)), [gt[g, t]["effect"] for t in ts], "Cohort %s" % g))
        seg += [(t, gt[g, t]["effect"] - Z[a] * gt[g, t]["se"], gt[g, t]["effect"] + Z[a] * gt[g, t]["se"]) for t in ts if math.isfinite(gt[g, t]["se"]) and math.isfinite(gt[g, t]["effect"])]
    got = d["lines"] + [([p[0]], [p[1]], None) for p in d["points"]]
    cx.ok(len(got) == len(exp) and all(near(x[0], y[0]) and near(x[1], y[1]) for x, y in zip(got, exp)), "cohort lines %s instead of %s" % (got, exp))
    cx.ok(d["legend"] == [e[2] for e in exp], "legend %s" % d["legend"])
    cx.ok(near_set(d["seg"], seg), "intervals differ: %s instead of %s" % (sorted(d["seg"])[:6], sorted(seg)[:6]))
    c_(cx, d["h"], [0.0], "horizontal lines")
    c_(cx, d["v"], [], "vertical lines")


def sens(c, cx):
    from diff_diff import visualization as V
    r = make(dict(cls="sens", pat=c["pat"], k=c["k"], a=0, m=c["n"], o=c["o"]))
    k = {}
    sb, sc, br = [not c["o"] >> b & 1 for b in (3, 4, 5)]
    for v, q in ((sb, "show_bounds"), (sc, "show_ci"), (br, "breakdown_line")):
        if not v:
            k[q] = False
    d = draw(cx, c, V.plot_sensitivity, r, r, **k) if c["way"] == 0 else draw(cx, c, r.plot, r, shows=False, **k)
    if d is None:
        return
    cx.ok(near_set(d["h"], [r.original_estimate, 0.0]), "horizontal lines %s for the estimate %r" % (d["h"], r.original_estimate))
    bl = br and r.breakdown_M is not None
    c_(cx, d["v"], [r.breakdown_M] if bl else [], "breakdown line")
    if bl:
        cx.ok(any(shows(t, False, Rough(r.breakdown_M)) for l in d["legend"] if "reakdown" in l for t, _ in numbers(l)), "breakdown label %s" % d["legend"])
    M_ = list(map(float, r.M_values))
    ys = sorted(tuple(l[1]) for l in d["lines"]) + sorted((p[1],) for p in d["points"])
    cx.ok(all(near(l[0], M_) for l in d["lines"]) and near_set(ys, [tuple(b[j] for b in r.robust_cis) for j in (0, 1)] if sc else []), "interval lines %s for %s" % (d["lines"], r.robust_cis))
    if sb and np.isfinite(np.array(r.bounds)).all():
        want = {(round(m, 9), round(float(b[j]), 9)) for m, b in zip(M_, r.bounds) for j in (0, 1)}
        got = set(d["fill"][0]) if d["fill"] else set()
        cx.ok(got == want, "identified set %s instead of %s" % (sorted(got), sorted(want)))
    if not sb:
        cx.ok(not d["fill"], "bounds drawn although switched off")


def honest(c, cx):
    from diff_diff import visualization as V
    N = Num("plain", c["k"])
    n, R = c["n"], mod("results")
    per = [ESL[c["lk"]](i) for i in range(n)]
    eff = {p: N.x() * (-1) ** i for i, p in enumerate(per)}
    se = {p: N.pos() / 4 for p in per}
    if c["o"] & 1:
        orig = R.MultiPeriodDiDResults({p: R.PeriodEffect(p, eff[p], se[p], 1.0, 0.5, (9.0, 10.0)) for p in per}, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), 10, 5, 5, [], per)
    else:
        orig = mod("staggered_results").CallawaySantAnnaResults({}, 1.0, 0.5, 2.0, 0.04, (0.0, 2.0), [3], [1, 2, 3], 10, 5, 5,
                                                                event_study_effects={p: dict(effect=eff[p], se=se[p], t_stat=1.0, p_value=0.5, conf_int=(9.0, 10.0), n_groups=1) for p in per[::-1]})
    a = (0.05, 0.1, 0.01, 0.32)[c["a"]]
    lo, hi = ((-40.0, 40.0), (0.5, 1.0), (-3.0, 2.0))[c["b"]]
    bd = {p: dict(ci_lb=eff[p] - 1.0 - i, ci_ub=eff[p] + 2.0 + i) for i, p in enumerate(per)} if c["o"] & 2 else None
    r = mod("honest_did").HonestDiDResults(lo + 0.1, hi - 0.1, lo, hi, 0.75, "smoothness", 1.0, 0.3, alpha=a, original_results=orig, event_study_bounds=bd)
    k = {}
    order = per if c["o"] & 1 else sorted(per)
    ref = None
    if c["o"] & 4:
        ref = k["reference_period"] = per[n // 2]
    if c["o"] & 8:
        order = k["periods"] = order[::-1]
    d = draw(cx, c, V.plot_honest_event_study, r, r, **k)
    if d is None:
        return
    pts = sorted(d["points"])
    cx.ok(near([p[:2] for p in pts], [[i, eff[p]] for i, p in enumerate(order)]), "points %s" % pts)
    cx.ok([bool(p[2]) for p in pts] == [ref is not None and p == ref for p in order], "hollow markers %s, reference %r of %s" % ([p[2] for p in pts], ref, order))
    seg = [(i, eff[p] - Z[a] * se[p], eff[p] + Z[a] * se[p]) for i, p in enumerate(order)] + [(i, bd[p]["ci_lb"] if bd else lo, bd[p]["ci_ub"] if bd else hi) for i, p in enumerate(order)]
    cx.ok(near_set(d["seg"], seg), "intervals %s instead of %s" % (sorted(d["seg"]), sorted(seg)))
    c_(cx, d["ticklabels"], [str(p) for p in order], "tick labels") if False else cx.ok(d["ticklabels"] == [str(p) for p in order], "tick labels %s for %s" % (d["ticklabels"], order))
    c_(cx, d["h"], [0.0], "horizontal lines")
    cx.ok(any("0.75" in t for t in d["legend"]), "legend %s" % d["legend"])


def bacon(c, cx):
    from diff_diff import visualization as V
    r = make(dict(cls="bacon", pat=c["pat"], k=c["k"], a=0, m=c["n"], o=c["o"], lk=c["lk"]))
    k = {}
    if c["way"] == "bar":
        k["plot_type"] = "bar"
    avg, tw = not c["so"] & 1, not c["so"] & 2
    if c["way"] == "scatter":
        if not avg:
            k["show_weighted_avg"] = False
        if not tw:
            k["show_twfe_line"] = False
    if c["way"] == "bad":
        return draw(cx, dict(c, show=0), V.plot_bacon, r, r, plot_type="pie", refused=ValueError)
    d = draw(cx, c, V.plot_bacon, r, r, **k)
    if d is None:
        return
    if c["way"] == "scatter":
        want = [sorted((float(x.estimate), float(x.weight)) for x in r.comparisons if x.comparison_type == t) for t, _ in BT]
        want = [w for w in want if w]
        got = [s[0] for s in d["scatter"]]
        cx.ok(len(got) == len(want) and all(near(x, y) for x, y in zip(got, want)), "points %s instead of %s" % (got, want))
        names = [t for t in BT if any(x.comparison_type == t[0] for x in r.comparisons)]
        cx.ok([s[1][:14] for s in d["scatter"]] == [t[1][:14] for t in names], "labels %s" % [s[1] for s in d["scatter"]])
        v = [0.0] + ([r.twfe_estimate] if tw else []) + ([x for x in r.effect_by_type().values() if x is not None] if avg else [])
        cx.ok(near_set(d["v"], v), "vertical lines %s instead of %s" % (d["v"], v))
        if tw:
            cx.ok(any("TWFE" in t and any(shows(q, False, float(r.twfe_estimate)) for q, _ in numbers(t)) for t in d["legend"]), "legend %s" % d["legend"])
    else:
        w = [getattr(r, "total_weight_" + t) for t, _ in BT]
        cx.ok(near([b[2] for b in d["bars"]], w), "bars %s for weights %s" % (d["bars"], w))
        toks = [q for t in d["text"] for q in numbers(t)]
        exp = [Pct(x) for x in w if x > 0.01] + [float(e) for e, x in zip(r.effect_by_type().values(), w) if e is not None and x > 0.01] + [float(r.twfe_estimate)]
        cx.ok(len(toks) == len(exp) and all(any(shows(t, p, e) for t, p in toks) for e in exp), "texts %s for %s" % (d["text"], exp))
        cx.ok([x.split()[0] for x in d["ticklabels"]] == [t[1].split()[0] for t in BT], "bar labels %s" % d["ticklabels"])


PX = ([0.5, 1.0, 2.0, 3.5], [3.5, 0.5, 2.0, 1.0], [1.0], [-1.0, 0.0, 1.0], [2, 4, 8])


def power(c, cx):
    from diff_diff import visualization as V
    xs = list(PX[c["x"]])
    ys = [0.1 + 0.8 * (abs(x) / 9.0) + 0.003 * i for i, x in enumerate(xs)]
    k = {}
    mde = (None, 1.0, 1.3, 50.0, -50.0, 2)[c["mde"]]
    if mde is not None:
        k["mdv" if c["f"] == "pre" else "mde"] = mde
    tp = (None, 0.9, 0.655)[c["tp"]]
    if tp is not None:
        k["target_power"] = tp
    want_t = tp if tp is not None else 0.8
    line = mark = True
    for b, name in enumerate(("show_target_line", "show_mdv_line" if c["f"] == "pre" else "show_mde_line")):
        if c["o"] >> b & 1:
            k[name] = False
            line, mark = (False, mark) if b == 0 else (line, False)
    curve, what = True, "MDV" if c["f"] == "pre" else "MDE"
    src = c["src"]
    title = None
    if c["f"] == "pre":
        P = mod("pretrends")
        fn = V.plot_pretrends_power
        if src == "list":
            args, inp = (), (xs, ys)
            k.update(M_values=xs, powers=ys)
        elif src == "frame":
            df = pd.DataFrame({"M": xs, "power": ys})
            args, inp = (df,), df
        elif src in ("curve", "method"):
            r = P.PreTrendsPowerCurve(np.array(xs, dtype=float), np.array(ys), (0.8725, math.inf)[c["o"] >> 2 & 1], 0.05, (0.8, 0.65)[c["o"] >> 3 & 1], "linear")
            args, inp = (r,), r
            if src == "method":
                k = {}
                line, mark = not c["o"] & 1, not c["o"] & 2
                if not line:
                    k["show_target"] = False
                if not mark:
                    k["show_mdv"] = False
                mde, tp, fn, args = None, None, r.plot, ()
            mde = r.mdv if mde is None else mde
            want_t = tp if tp is not None else r.target_power
        else:
            r = P.PreTrendsPowerResults(0.7, (0.8725, math.inf)[c["o"] >> 2 & 1], 1.0, "linear", 0.05, (0.8, 0.65)[c["o"] >> 3 & 1], 2, 1.0, 2.0, 3.0, np.zeros(2), np.ones(2), np.eye(2))
            args, inp, curve = (r,), r, False
            mde = r.mdv if mde is None else mde
            want_t = tp if tp is not None else r.target_power
    else:
        fn = V.plot_power_curve
        if src == "list":
            args, inp = (), (xs, ys)
            k.update(effect_sizes=xs, powers=ys)
            if c["o"] & 4:
                k["plot_type"] = "sample"
            title = "Sample" if c["o"] & 4 else "Effect"
        elif src in ("frame", "sample"):
            df = pd.DataFrame({"effect_size" if src == "frame" else "sample_size": xs, "power": ys})
            args, inp = (df,), df
            title = "Effect" if src == "frame" else "Sample"
        elif src == "sim":
            r = mod("power").SimulationPowerResults(0.5, 0.04, (0.1, 0.4), 0.5, 1.0, 0.5, 0.5, 0.95, 50, xs, ys, 1.25, 0.05, "E")
            args, inp = (r,), r
            title = "Effect"
            if mde is None:
                mde, what = 1.25, "effect"
        else:
            r = make(dict(cls="power", pat=0, a=0, o=0))
            return draw(cx, c, fn, r, r, refused=ValueError)
    d = draw(cx, c, fn, inp, *args, shows=src != "method", **k)
    if d is None:
        return
    got = d["lines"] + [([p[0]], [p[1]], None) for p in d["points"]]
    cx.ok((len(got) == 1 and near(got[0][0], xs) and near(got[0][1], ys)) if curve else not got, "curve %s instead of %s" % (got, (xs, ys)))
    c_(cx, d["h"], [want_t] if line else [], "target line")
    drawn_m = mark and mde is not None and math.isfinite(mde)
    c_(cx, d["v"], [float(mde)] if drawn_m else [], "marked effect")
    if drawn_m:
        cx.ok(any(what.lower() in t.lower() and any(shows(q, False, float(mde)) for q, _ in numbers(t)) for t in d["legend"]), "label of the marked effect: %s" % d["legend"])
        pts = [p for s in d["scatter"] for p in s[0]]
        if curve and src != "method":
            if min(xs) <= mde <= max(xs):
                o = sorted(zip(xs, ys))
                y = [b for a, b in o if a == mde] or [b0 + (b1 - b0) * (mde - a0) / (a1 - a0) for (a0, b0), (a1, b1) in zip(o, o[1:]) if a0 < mde < a1]
                cx.ok(near(pts, [(float(mde), y[0])]), "marker %s instead of %s" % (pts, (mde, y[0])))
            else:
                cx.ok(not pts, "marker %s outside the curve" % pts)
    else:
        cx.ok(not d["scatter"], "marker without a marked effect")
    if title:
        cx.ok(title.lower() in d["titles"][1].lower(), "horizontal axis called %r" % d["titles"][1])
    cx.ok(near(d["ylim"], (0, 1.05)), "vertical range %s" % (d["ylim"],))


REFUSE = [lambda V: V.plot_event_study(show=False), lambda V: V.plot_event_study(effects={1: 1.0}, show=False), lambda V: V.plot_event_study(effects=[1.0], se=[1.0], show=False),
          lambda V: V.plot_event_study(pd.DataFrame({"period": [1], "effect": [1.0]}), show=False), lambda V: V.plot_event_study(pd.DataFrame({"effect": [1.0], "se": [1.0]}), show=False),
          lambda V: V.plot_event_study("text", show=False), lambda V: V.plot_group_effects("text", show=False), lambda V: V.plot_power_curve(show=False), lambda V: V.plot_power_curve(pd.DataFrame({"power": [1.0]}), show=False),
          lambda V: V.plot_power_curve("text", show=False), lambda V: V.plot_pretrends_power(show=False), lambda V: V.plot_pretrends_power(pd.DataFrame({"M": [1.0]}), show=False), lambda V: V.plot_pretrends_power("text", show=False),
          lambda V: V.plot_honest_event_study(mod("honest_did").HonestDiDResults(0, 1, 0, 1, 1.0, "smoothness", 1.0, 0.3), show=False)]


def refuse(c, cx):
    import matplotlib.pyplot as plt
    from diff_diff import visualization as V
    plt.close("all")
    _, e = cx.attempt(REFUSE[c["k"]], V)
    cx.ok(isinstance(e, (ValueError, TypeError)), "input without the needed numbers gives %r" % e)
    plt.close("all")
    cx.saw(c["k"], type(e).__name__)


PLOTS = dict(event=event, groups=groups, sens=sens, honest=honest, bacon=bacon, power=power, pre=power, refuse=refuse)


def plot_cases(big):
    i = 0

    def P(f, **k):
        return dict(kind="plot", f=f, ax=i % 2, show=i // 2 % 2, **k)

    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        for em, sm, ref in itertools.product(range(2 ** n), range(2 ** n), range(-1, n + 1)):
            i += 1
            if big or n < 3 or i % 2:
                yield P("event", src=("dict", "frame", "cs", "mp", "sa", "frameci")[i % 6 if i // 6 % 3 else 0], n=n, em=em, sm=sm, ref=ref, lk=(0, 1, 5, 4)[i % 4], a=i % 4, o=i % 16, k=i % 11)
    for src, o, ref in itertools.product(("dict", "frame", "cs", "mp", "sa", "frameci"), range(16), (-1, 0, 1, 2)):
        for lk in range(6) if big else ((i * 5 + o) % 6,):
            if src in ("cs", "sa") and lk in (2, 3):
                continue
            for per in range(4):
                i += 1
                if not big and (per and i % 3):
                    continue
                yield P("event", src=src, n=4 if per else 3, em=(0, 0, 2)[i % 3], sm=(0, 4, 0, 1)[i % 4], ref=ref, lk=lk, a=i % 4, o=o, per=per if not (lk in (2, 3) and per == 3) else 0, pre=i % 4, k=i % 11)
    for n, o, a in itertools.product((1, 2, 4), range(16), range(4)):
        i += 1
        if big or i % 2:
            yield P("groups", n=n, o=o, a=a, k=i % 11)
    for n, o, way in itertools.product((1, 2, 4), range(64), (0, 1)):
        i += 1
        if big or i % 5 == 0 or o in (0, 4):
            yield P("sens", n=n, o=o, way=way, pat=i % 3 % 2, k=i % 11)
    for n, o, b in itertools.product((1, 3, 5), range(16), range(3)):
        i += 1
        if big or i % 2:
            yield P("honest", n=n, o=o, b=b, a=i % 4, lk=(0, 1, 5)[i % 3], k=i % 11)
    for o, n, lk, way in itertools.product(range(16), (0, 1), (0, 1), ("scatter", "bar", "bad")):
        for so in range(4) if way == "scatter" else (0,):
            i += 1
            if o & 7 and (big or way != "bad" or i % 9 == 0):
                yield P("bacon", o=o, n=n, lk=lk, way=way, so=so, pat=(0, 1)[i % 2], k=i % 11)
    for f, srcs in (("power", ("list", "frame", "sample", "sim", "res")), ("pre", ("list", "frame", "curve", "method", "res"))):
        for src, x, mde, tp, o in itertools.product(srcs, range(len(PX)), range(6), range(3), range(16)):
            i += 1
            if big and i % 3 == 0 or i % 23 == 0 or (o == 0 and tp == 0) or (x == 0 and mde == 0 and i % 2):
                yield P(f, src=src, x=x, mde=mde, tp=tp, o=o)
    for k in range(len(REFUSE)):
        yield dict(kind="plot", f="refuse", k=k)
