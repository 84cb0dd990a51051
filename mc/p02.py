"""P02: inference coherence of every reported record of every estimator."""
import inspect
import itertools
import math
from .core import np, pd, isnan
from . import models as M
from . import zoo

PROPERTY = "P02"
RULE = ("one case = one entry point x one data shape (ordinary, unbalanced, minimal, noise-free, constant, extreme scale, many observations) x significance level: every (effect, se, t, p, interval, verdict, stars) record of its "
        "result is recomputed; plus the reference-distribution helpers over a grid of degrees of freedom; plus every result class x a grid of p-values around every threshold")
ASSUMPTIONS = ["reference distribution: t with observations minus identified coefficients (regressions), n-8 (triple difference), treated observations-1 (factor model), normal otherwise; resampled p-values and intervals "
               "are left to P08/P12/P14/P18/P19",
               "records whose degrees of freedom are not derivable from the call are held to: interval and p-value imply each other at the level, for the same symmetric distribution",
               "a refused degenerate data set is not judged"]
CHUNK = 4
SKIP = ("trend", "trend-robust", "equivalence", "multi-honest", "cs-honest", "cs-pretrends", "sa-pretrends", "bacon", "bacon-exact", "f-bacon", "twfe-decompose", "permutation")
SHAPES = ("plain", "gap", "one", "two", "zero", "const", "additive", "exact", "tiny", "huge", "postconst", "ctrlconst", "dup", "int", "many", "late", "missing")
MUST = ("plain", "tiny", "huge", "int", "many")
ALPHAS = (0.05, 0.01, 0.1, 0.32)
SLOW = ("trop", "trop-joint", "f-trop", "sdid-placebo", "sdid-boot-cov")


def cases(tier):
    big = tier == "thorough"
    i = 0
    for e in zoo.ALL:
        if e.name in SKIP:
            continue
        for sh in SHAPES:
            if sh == "many" and (e.name in SLOW or e.name.startswith(("trop", "f-trop", "sdid"))):
                continue
            for s in range((4 if big else 2) if e.name not in SLOW else 1):
                for a in ALPHAS if big or (sh in ("plain", "gap") and e.name not in SLOW) else (ALPHAS[(i + s) % 4],):
                    i += 1
                    yield dict(kind="fit", e=e.name, sh=sh, s=s, alpha=a, mode=i % 6)
    for df in [None] + list(range(1, 41)) + [50, 75, 98, 99, 100, 101, 120, 150, 199, 200, 201, 300, 500, 1000, 5000]:
        for a in ALPHAS + (0.001, 0.5, 0.9):
            yield dict(kind="ref", df=df, alpha=a)
    for cls in ("DiDResults", "MultiPeriodDiDResults", "SyntheticDiDResults", "CallawaySantAnnaResults", "SunAbrahamResults", "TripleDifferenceResults", "TROPResults", "PlaceboTestResults",
                "PeriodEffect", "GroupTimeEffect", "InferenceResult", "HonestDiDResults"):
        for a in ALPHAS:
            yield dict(kind="verdict", cls=cls, alpha=a)


def shape(e, sh, s):
    df = zoo.frame(e.kind, seed=s)
    key = "g" if e.kind == "stag" else "d"
    if sh == "gap":
        keep = [i for i in range(len(df)) if i % 11 != 3 + s]
        df = df.iloc[keep]
    elif sh in ("one", "two"):
        cols = [key, "part"] if e.kind == "ddd" else [key]
        lim = {"one": 1 if e.kind != "ddd" else 2, "two": 1}[sh]
        units = df.drop_duplicates("u")
        units = units.assign(r=units.groupby(cols).cumcount())
        ok = units[(units.r < lim) | ((units[key] == 0) & (sh == "one"))].u
        df = df[df.u.isin(ok)]
    elif sh == "zero":
        df = df.assign(y=0.0)
    elif sh == "const":
        df = df.assign(y=3.7)
    elif sh == "additive":
        df = df.assign(y=1.0 * df.u + 2.0 * df.t)
    elif sh == "exact":
        df = df.assign(y=1.0 * df.u + 2.0 * df.t + 5.0 * df.dp + 3.0 * df.dp * df.part)
    elif sh == "tiny":
        df = df.assign(y=df.y * 1e-9)
    elif sh == "huge":
        df = df.assign(y=df.y * 1e9)
    elif sh == "postconst":
        df = df.assign(y=np.where((df[key] > 0) & (df.post == 1), 4.0, df.y))
    elif sh == "ctrlconst":
        df = df.assign(y=np.where(df[key] == 0, 4.0, df.y))
    elif sh == "dup":
        df = pd.concat([df, df.iloc[::3]], ignore_index=True)
    elif sh == "late":      # nobody is treated within the panel yet (staggered designs); a post period without treated units (others)
        df = df[df.t < df.g.where(df.g > 0, 99).min()] if e.kind == "stag" else df[~((df.t == df.t.max()) & (df.d == 1))]
    elif sh == "missing":   # one cell of the design never observed
        df = df[~((df.t == df.t.max()) & (df[key] == 0))]
    elif sh == "many":      # well over a hundred residual degrees of freedom
        df = pd.concat([df.assign(u=df.u + 1000 * j, cl=df.cl + 1000 * j, y=df.y + [((i * 7 + j * 5) % 13) / 4 - 1.5 for i in range(len(df))]) for j in range(10)], ignore_index=True)
    elif sh == "int":
        df = df.assign(y=(df.y * 10).round().astype(int))
    return df.reset_index(drop=True)


def rank_df(e, df):
    """Observations minus rank of the explicit regression behind a basic-kind entry."""
    n = len(df)
    d, post = df.d.to_numpy(float), df.post.to_numpy(float)
    cols = [np.ones(n)]
    cov = [df[c].to_numpy(float) for c in e.args.get("covariates", [])]
    D = lambda c: [(df[c] == v).to_numpy(float) for v in sorted(df[c].unique())[1:]]
    if e.make == "DifferenceInDifferences":
        cols += [d, post, d * post] + cov + [z for f in e.args.get("fixed_effects", []) for z in D(f)]
    elif e.make == "MultiPeriodDiD":
        per = sorted(df.t.unique())
        post_p = per[len(per) // 2:]
        cols += [d] + D("t") + [d * (df.t == v).to_numpy(float) for v in post_p] + cov + [z for f in e.args.get("fixed_effects", []) for z in D(f)]
    else:
        return None
    return n - np.linalg.matrix_rank(np.column_stack(cols))


def twfe_df(e, df):
    n = len(df)
    tm = e.args["time"]
    D = lambda c: [(df[c] == v).to_numpy(float) for v in sorted(df[c].unique())[1:]]
    x = (df[e.args["treatment"]] * (df[tm])).to_numpy(float)
    return n - np.linalg.matrix_rank(np.column_stack([np.ones(n), x] + D("u") + D(tm) + [df[c].to_numpy(float) for c in e.args.get("covariates", [])]))


def records(r):
    """(tag, effect, se, t, p, interval, kind) of everything the result reports."""
    out = []
    if hasattr(r, "period_effects"):
        for k, v in r.period_effects.items():
            out.append(("period %s" % k, v.effect, v.se, v.t_stat, v.p_value, v.conf_int, v))
        out.append(("average", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, r))
    elif hasattr(r, "overall_att"):
        out.append(("overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, r))
        for name in ("group_time_effects", "event_study_effects", "group_effects", "cohort_effects"):
            for k, v in (getattr(r, name, None) or {}).items():
                if isinstance(v, dict) and "t_stat" in v:
                    out.append(("%s[%s]" % (name, k), v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], None))
    elif hasattr(r, "placebo_effect"):
        out.append(("placebo", r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, r))
    else:
        out.append(("effect", r.att, r.se, r.t_stat, r.p_value, r.conf_int, r))
    return out


def coherent(cx, eff, se, t, p, ci, alpha, df, tag):
    """df: degrees of freedom, None (normal), 'sym' (unknown symmetric) or 'resampled'."""
    num = lambda v: v is not None and not isnan(v)
    if not num(eff) or not num(se) or not np.isfinite(se) or se < 0:
        cx.ok(not num(t), tag + ": test statistic without a usable standard error", eff=eff, se=se, t=t)
        cx.ok(not num(p), tag + ": p-value without a usable standard error", eff=eff, se=se, p=p)
        cx.ok(not any(num(v) and np.isfinite(v) for v in ci), tag + ": finite interval without a usable standard error", ci=ci, se=se)
        return
    if se == 0:
        cx.ok(not num(t) or not np.isfinite(t), tag + ": finite test statistic with a zero standard error", t=t, eff=eff)
        return
    if not num(t) and df == "wild":
        return
    if not num(t):
        cx.bad(tag + ": no test statistic although the standard error is usable", eff=eff, se=se, t=t, p=p, ci=ci)
        return
    if df != "wild":
        cx.eq(t, eff / se, tag + ": t statistic", rtol=1e-7, atol=1e-300)
    if df in ("resampled", "wild"):
        cx.ok(not num(p) or 0 <= p <= 1, tag + ": resampled p-value outside [0, 1]", p=p)
        return
    if df == "normal-interval":
        c = M.crit(alpha, None) * se
        cx.eq(list(ci), [eff - c, eff + c], tag + ": interval", rtol=1e-7, atol=1e-9 * abs(eff) + 1e-9 * se)
        return
    lo, hi = float(ci[0]), float(ci[1])
    if df == "sym" and isnan(p) and isnan(lo) and isnan(hi):
        return          # no residual degrees of freedom: no verdict
    if df == "sym":
        cx.eq(lo + hi, 2 * eff, tag + ": interval centred on the effect", rtol=1e-7, atol=1e-9 * (abs(lo) + abs(hi)))
        k = (hi - lo) / 2 / se
        cx.ok(k > M.crit(alpha, None) - 1e-7, tag + ": critical value below the normal one", k=k, alpha=alpha)
        if abs(abs(t) - k) > 1e-9 * k:
            cx.same(bool(p < alpha), bool(abs(t) > k), tag + ": p-value and interval disagree", p=p, ci=ci, alpha=alpha)
        return
    if df is not None and df <= 0:
        df = None
    cx.eq(p, M.pval(t, df), tag + ": p-value", rtol=1e-6, atol=1e-12, t=t, df=df)
    c = M.crit(alpha, df) * se
    cx.eq([lo, hi], [eff - c, eff + c], tag + ": interval", rtol=1e-7, atol=1e-9 * abs(eff) + 1e-9 * se, alpha=alpha, df=df)


def verdicts(cx, o, p, alpha, tag):
    if o is None:
        return
    if isinstance(o.is_significant, (bool, np.bool_)):
        cx.same(bool(o.is_significant), bool(not isnan(p) and p < alpha), tag + ": significance verdict", p=p, alpha=alpha)
    cx.same(o.significance_stars, M.stars(p), tag + ": stars", p=p)


def fit(c, cx):
    import diff_diff as dd
    e = zoo.BY[c["e"]]
    df = shape(e, c["sh"], c["s"])
    alpha = c["alpha"]
    data = M.present(df, c["mode"])
    ex = zoo.fill(e, df)
    over = dict(alpha=alpha)
    if c["sh"] in MUST:
        r = cx.op(e.call, dd, data, extra=ex, **over)
    else:
        r, exc = cx.attempt(e.call, dd, data, extra=ex, **over)
        if exc is not None:
            cx.ok(isinstance(exc, (ValueError, ZeroDivisionError, np.linalg.LinAlgError, RuntimeError)), "degenerate data refused with %s: %s" % (type(exc).__name__, exc))
            cx.saw("refused", type(exc).__name__)
            return
    cx.eq(r.alpha, alpha, "reported level")
    cls = type(r).__name__
    boot = "boot" in e.name or "wild" in e.name
    for tag, eff, se, t, p, ci, o in records(r):
        if cls == "DiDResults":
            mode = "wild" if "wild" in e.name else "sym" if "absorb" in e.name else twfe_df(e, df) if e.make == "TwoWayFixedEffects" else rank_df(e, df)
        elif cls == "MultiPeriodDiDResults":
            mode = "sym" if "absorb" in e.name else rank_df(e, df)
        elif cls == "TripleDifferenceResults":
            mode = max(len(df) - 8 - len(e.args.get('covariates', [])), 1)
        elif cls == "TROPResults":
            mode = max(1, int(df.dp.sum()) - 1)
        elif cls == "SyntheticDiDResults":
            mode = "normal-interval" if e.init["variance_method"] == "placebo" else None
        elif cls == "PlaceboTestResults":
            mode = "sym"
        else:
            mode = "resampled" if boot else None
        if cls == "TROPResults" and se == 0:
            continue
        coherent(cx, eff, se, t, p, ci, alpha, mode, "%s %s" % (cls, tag))
        verdicts(cx, o, p, 0.05 if type(o).__name__ == "PeriodEffect" else alpha, "%s %s" % (cls, tag))
        cx.saw(eff, se)


def verdict(c, cx):
    """Construct each class directly and compare verdicts with p around every threshold."""
    import diff_diff as dd
    from diff_diff import results, linalg
    cls = next((getattr(m, c["cls"]) for m in (dd, results, linalg) if hasattr(m, c["cls"])))
    alpha = c["alpha"]
    eps = 1e-9
    grid = sorted({q for th in (0.001, 0.01, 0.05, 0.1, alpha) for q in (th - eps, th, th + eps)} | {0.0, 0.5, 1.0})
    fields = [f for f in cls.__dataclass_fields__.values()]
    for p in grid + [float("nan")]:
        kw = {}
        for f in fields:
            n = f.name
            if n.endswith("p_value"):
                kw[n] = p
            elif n == "alpha":
                kw[n] = alpha
            elif n.endswith("conf_int"):
                kw[n] = (0.5, 1.5)
            elif n == "is_significant":
                kw[n] = bool(p < alpha)
            elif n in ("ci_lb", "ci_ub", "lb", "ub"):
                kw[n] = {"ci_lb": 0.2, "lb": 0.5, "ub": 1.5, "ci_ub": 1.9}[n]
            elif f.default is inspect._empty or str(f.default).startswith("<dataclasses._MISSING"):
                if str(f.default_factory).startswith("<dataclasses._MISSING"):
                    kw[n] = 1
        o = cx.op(cls, **kw)
        if c["cls"] == "HonestDiDResults":
            continue
        lv = 0.05 if c["cls"] in ("PeriodEffect", "GroupTimeEffect") else alpha
        got = o.is_significant
        if callable(got):
            got = got()
            for a2 in ALPHAS:
                cx.same(bool(o.is_significant(alpha=a2)), bool(p < a2), "%s.is_significant(alpha)" % c["cls"], p=p, alpha=a2)
        cx.same(bool(got), bool(p < lv), "%s.is_significant" % c["cls"], p=p, alpha=lv)
        s = o.significance_stars
        cx.same(s() if callable(s) else s, M.stars(p), "%s stars" % c["cls"], p=p)
    if c["cls"] == "HonestDiDResults":
        for lo, hi in itertools.product((-2.0, -1e-9, 0.0, 1e-9, 2.0, float("nan")), repeat=2):
            if (lo == lo) != (hi == hi) or lo > hi:
                continue
            kw.update(ci_lb=lo, ci_ub=hi)
            o = cx.op(cls, **kw)
            sig = lo == lo and hi == hi and (lo > 0 or hi < 0)
            cx.same(bool(o.is_significant), bool(sig), "robust interval excludes zero", lo=lo, hi=hi)
            cx.same(bool(o.significance_stars.strip()), bool(sig), "stars follow the robust interval", lo=lo, hi=hi)
    cx.saw(c["cls"], alpha)


def ref(c, cx):
    """The two reference-distribution helpers on a grid of degrees of freedom, levels, effects and error sizes."""
    from diff_diff import utils
    df, alpha = c["df"], c["alpha"]
    for eff, se in itertools.product((0.0, 1.0, -2.5, 1e-7, 4e6), (1.0, 1e-9, 0.03, 7e5)):
        q = M.crit(alpha, df) * se
        lo, hi = cx.op(utils.compute_confidence_interval, eff, se, alpha, df=df)
        cx.eq([lo, hi], [eff - q, eff + q], "interval at df %s" % df, rtol=1e-9, atol=1e-9 * (abs(eff) + se))
    for t in (0.0, 0.3, -0.3, 1.96, -1.96, 2.6, -4.0, 9.0):
        cx.eq(cx.op(utils.compute_p_value, t, df=df), M.pval(t, df), "p-value at df %s" % df, rtol=1e-9, atol=1e-300)
    cx.saw(df, alpha)


def run(c, cx):
    dict(fit=fit, verdict=verdict, ref=ref)[c["kind"]](c, cx)
