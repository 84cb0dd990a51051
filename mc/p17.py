"""P17: power, detectable effect, sample size; simulation-based power."""
import itertools
import math
from .core import np, pd
from . import models as M
from scipy import stats

PROPERTY = "P17"
RULE = ("analytic: every (alternative, level, target, group sizes, periods, noise, correlation) in the grid with its whole effect alphabet; sample size: every effect x fraction x design; "
        "simulation: every estimator x number of simulations x effect list x level x every subset of failing fits, each simulated frame recorded and refitted")
ASSUMPTIONS = ["normal reference distribution", "target power above the level", "the detectable effect is a magnitude in the direction of the alternative"]
ALT = ("two-sided", "greater", "less")
ALPHA = (0.01, 0.05, 0.1, 0.2)
POW = (0.5, 0.8, 0.9, 0.99, 0.3)
SIZES = ((2, 2), (3, 2), (5, 11), (20, 20), (40, 10), (100, 300))
PER = ((1, 1), (1, 2), (2, 1), (3, 2), (4, 6))
EFF = (0.0, 0.05, 0.3, 1.0, 3.0)
FRAC = (0.5, 0.2, 0.35, 0.8, 0.9, 0.07)


def var(nt, nc, pre, post, s, rho):
    T = pre + post
    if T == 2:
        return s * s * (2 / nt + 2 / nc)
    return s * s * (1 / nt + 1 / nc) * (1 + (T - 1) * rho) / T


def power(alt, a, d):
    """d = effect / standard error"""
    if alt == "two-sided":
        z = stats.norm.isf(a / 2)
        return stats.norm.sf(z - d) + stats.norm.cdf(-z - d)
    z = stats.norm.isf(a)
    return stats.norm.sf(z - d) if alt == "greater" else stats.norm.cdf(-z - d)


def zsum(alt, a, p):
    return stats.norm.isf(a / 2 if alt == "two-sided" else a) + stats.norm.ppf(p)


def cases(tier):
    big = tier == "thorough"
    i = 0
    for alt, a, p, n, per in itertools.product(ALT, ALPHA, POW, SIZES, PER):
        i += 1
        for s, rho in itertools.product((0.5, 1.0, 4.0), (0.0, 0.3, 1.0)) if big else (((0.5, 1.0, 4.0)[i % 3], (0.0, 0.3, 1.0)[i // 3 % 3]),):
            yield dict(kind="an", alt=alt, a=a, p=p, n=n, per=per, s=s, rho=rho)
    for alt, a, p, per, f in itertools.product(ALT, ALPHA, POW, PER, FRAC):
        i += 1
        yield dict(kind="size", alt=alt, a=a, p=p, per=per, f=f, s=(1.0, 2.5)[i % 2], rho=(0.0, 0.4)[i // 2 % 2])
    # negative within-unit correlation, down to the smallest a panel of that length admits
    for alt, a, p, per in itertools.product(ALT, ALPHA, POW, PER):
        for fr in (-0.9, -0.4):
            i += 1
            rho = fr / (sum(per) - 1)
            yield dict(kind="an", alt=alt, a=a, p=p, n=SIZES[i % len(SIZES)], per=per, s=(0.5, 1.0, 4.0)[i % 3], rho=rho)
            yield dict(kind="size", alt=alt, a=a, p=p, per=per, f=FRAC[i % len(FRAC)], s=(1.0, 2.5)[i % 2], rho=rho)
    for est in range(9):
        for n in (1, 2, 3, 4):
            for effs in range(4):
                for a in (0.05, 0.3):
                    masks = range(2 ** n - 1) if (n <= 3 or big) else (0, 1, 6, 14)
                    for mask in masks if est == 5 else (0,):
                        i += 1
                        yield dict(kind="sim", est=est, n=n, effs=effs, a=a, mask=mask, T=(3, 4, 6)[i % 3], ea=(0.05, 0.2)[i // 2 % 2])
    for k in range(18):
        yield dict(kind="refuse", k=k)


def run(c, cx):
    import diff_diff as dd
    {"an": an, "size": size, "sim": sim, "refuse": refuse}[c["kind"]](c, cx, dd)


def an(c, cx, dd):
    alt, a, p, (nt, nc), (pre, post), s, rho = c["alt"], c["a"], c["p"], c["n"], c["per"], c["s"], c["rho"]
    pa = dd.PowerAnalysis(alpha=a, power=p, alternative=alt)
    se = math.sqrt(var(nt, nc, pre, post, s, rho))
    kw = dict(n_pre=pre, n_post=post, rho=rho)
    sg = -1.0 if alt == "less" else 1.0
    r = cx.op(pa.mde, n_treated=nt, n_control=nc, sigma=s, **kw)
    z = zsum(alt, a, p)
    cx.eq(abs(r.mde), z * se, "minimum detectable effect is (z_alpha + z_beta) standard errors")
    cx.same((r.n_treated, r.n_control, r.n_pre, r.n_post, r.alpha, r.alternative, r.required_n), (nt, nc, pre, post, a, alt, nt + nc), "labels")
    cx.eq([r.power, r.effect_size, r.sigma, r.rho], [p, r.mde, s, rho], "reported power and effect")
    cx.same(r.design, "basic_did" if pre + post == 2 else "panel", "design")
    at = cx.op(pa.power, effect_size=sg * abs(r.mde), n_treated=nt, n_control=nc, sigma=s, **kw)
    other = stats.norm.cdf(-stats.norm.isf(a / 2) - z) if alt == "two-sided" else 0.0
    cx.ok(p - 1e-9 <= at.power <= p + other + 1e-9, "power at the minimum detectable effect is the target", got=at.power, target=p)
    cx.eq(abs(at.mde), z * se, "the same detectable effect from power()")
    last = 0.0
    for e in EFF:
        x = cx.op(pa.power, effect_size=sg * e, n_treated=nt, n_control=nc, sigma=s, **kw)
        want = power(alt, a, sg * e / se)
        cx.eq(x.power, want, "power", effect=e, atol=1e-10)
        cx.ok(x.power >= last - 1e-12, "power grows with the effect", effect=e)
        last = x.power
        if e == 0:
            cx.eq(x.power, a, "size", atol=1e-10)
        cx.same((x.n_treated, x.n_control, x.effect_size), (nt, nc, sg * e), "labels of power()")
        opp = cx.op(pa.power, effect_size=-sg * e, n_treated=nt, n_control=nc, sigma=s, **kw)
        cx.eq(opp.power, power(alt, a, -sg * e / se), "power against the opposite sign", effect=e, atol=1e-10)
        more = cx.op(pa.power, effect_size=sg * e, n_treated=nt + 1, n_control=nc + 2, sigma=s, **kw)
        cx.ok(more.power >= x.power - 1e-12, "power grows with the sample")
        loud = cx.op(pa.power, effect_size=sg * e, n_treated=nt, n_control=nc, sigma=s * 1.5, **kw)
        cx.ok(loud.power <= x.power + 1e-12, "power falls with the noise")
        if alt == "two-sided":
            cx.eq(cx.op(dd.compute_power, effect_size=e, n_treated=nt, n_control=nc, sigma=s, alpha=a, **kw), want, "compute_power", atol=1e-10)
    if alt == "two-sided":
        cx.eq(cx.op(dd.compute_mde, n_treated=nt, n_control=nc, sigma=s, power=p, alpha=a, **kw), r.mde, "compute_mde")
    d = cx.op(pa.power_curve, n_treated=nt, n_control=nc, sigma=s, effect_sizes=[2.0, 0.0, -1.0], **kw)
    cx.eq(d["effect_size"].values, [2.0, 0.0, -1.0], "curve grid")
    cx.eq(d["power"].values, [power(alt, a, e / se) for e in (2.0, 0.0, -1.0)], "curve", atol=1e-10)
    d = cx.op(pa.power_curve, n_treated=nt, n_control=nc, sigma=s, **kw)
    cx.eq(d["power"].values, [power(alt, a, e / se) for e in d["effect_size"]], "default curve", atol=1e-10)
    cx.ok(d["effect_size"].iloc[0] == 0 and abs(d["effect_size"].iloc[-1]) >= abs(r.mde) - 1e-12, "default curve covers the detectable effect")
    t = cx.op(r.to_dict)
    cx.eq([t["power"], t["mde"], t["n_treated"], t["n_control"], t["sigma"], t["required_n"]], [r.power, r.mde, nt, nc, s, nt + nc], "dictionary")
    txt = cx.op(r.summary)
    cx.ok(("%.4f" % r.mde) in txt and str(nt) in txt, "summary")
    cx.saw(r.mde, at.power, last)


def size(c, cx, dd):
    alt, a, p, (pre, post), f, s, rho = c["alt"], c["a"], c["p"], c["per"], c["f"], c["s"], c["rho"]
    pa = dd.PowerAnalysis(alpha=a, power=p, alternative=alt)
    z = zsum(alt, a, p)
    kw = dict(n_pre=pre, n_post=post, rho=rho)
    sg = -1.0 if alt == "less" else 1.0
    for e in (0.05, 0.11, 0.2, 0.31, 0.5, 0.77, 1.0, 1.5, 2.0, 5.0):
        r = cx.op(pa.sample_size, effect_size=sg * e, sigma=s, treat_frac=f, **kw)
        nt, nc, N = r.n_treated, r.n_control, r.required_n
        cx.ok(isinstance(N, (int, np.integer)) and nt + nc == N and nt >= 2 and nc >= 2, "whole units adding up", got=(nt, nc, N))
        got = power(alt, a, sg * e / math.sqrt(var(nt, nc, pre, post, s, rho)))
        cx.ok(got >= p - 1e-9, "the reported sample attains the requested power", effect=e, got=got, target=p, n=(nt, nc))
        floor = int(math.ceil(2 / min(f, 1 - f))) + 1 if min(nt, nc) <= 2 else 4
        exact = z * z * var(f, 1 - f, pre, post, s, rho) / e ** 2          # continuous total size
        if N > max(floor, 4):
            cx.ok(N <= math.ceil(exact) + 1, "no more units than needed", effect=e, N=N, exact=exact)
            cx.ok(abs(nt - N * f) <= 1 + 1e-9, "treated share as requested", nt=nt, N=N, f=f)
            one = z * math.sqrt(var(nt, nc - 1, pre, post, s, rho))
            cx.ok(N - 1 < exact or one > e * (1 - 1e-9), "one unit fewer does not attain it", effect=e, N=N, exact=exact)
        cx.eq(abs(r.mde), z * math.sqrt(var(nt, nc, pre, post, s, rho)), "detectable effect of the reported sample")
        cx.same((r.effect_size, r.alpha, r.alternative, r.design), (sg * e, a, alt, "basic_did" if pre + post == 2 else "panel"), "labels")
        if alt == "two-sided":
            cx.same(cx.op(dd.compute_sample_size, effect_size=e, sigma=s, power=p, alpha=a, treat_frac=f, **kw), N, "compute_sample_size")
            neg = cx.op(pa.sample_size, effect_size=-e, sigma=s, treat_frac=f, **kw)
            cx.same(neg.required_n, N, "sign of the effect is irrelevant two-sided")
        # power() of that design reports about the same required size
        if min(nt, nc) > 2:
            x = cx.op(pa.power, effect_size=sg * e, n_treated=nt, n_control=nc, sigma=s, **kw)
            ff = nt / N
            ex = z * z * var(ff, 1 - ff, pre, post, s, rho) / e ** 2
            cx.ok(abs(x.required_n - max(4, math.ceil(ex))) <= 1 and (ex < 4 or x.required_n >= ex - 1e-6), "required size reported by power()", got=x.required_n, exact=ex)
        cx.saw(N)
    grid = [4, 10, 31, 200]
    d = cx.op(pa.sample_size_curve, effect_size=sg * 0.5, sigma=s, sample_sizes=grid, treat_frac=f, **kw)
    cx.eq(d["sample_size"].values, grid, "curve grid")
    for n, pw in zip(grid, d["power"]):
        opts = []
        for nt in {max(2, int(math.floor(n * f + 1e-9))), max(2, int(math.floor(n * f))), max(2, int(math.ceil(n * f - 1e-9)))}:
            opts.append(power(alt, a, sg * 0.5 / math.sqrt(var(nt, max(2, n - nt), pre, post, s, rho))))
        cx.ok(any(abs(pw - o) < 1e-9 for o in opts), "sample-size curve", n=n, got=pw, model=opts)
    big = cx.op(pa.sample_size, effect_size=0.0, sigma=s, treat_frac=f, **kw)
    cx.ok(big.required_n >= 2 ** 31 - 1, "no sample detects a zero effect")


class Stub:
    """Estimator that fails on the given simulations."""
    def __init__(self, inner, mask):
        self.inner, self.mask, self.n = inner, mask, 0

    def fit(self, data, outcome, treatment, time, **k):
        i = self.n
        self.n += 1
        if self.mask >> i & 1:
            raise ValueError("planted failure")
        return self.inner.fit(data, outcome=outcome, treatment=treatment, time=time, **k)


EFFS = (None, [0.0, 5.0], [2.0, 1.0, 0.5], [7.0])


def sim(c, cx, dd):
    from diff_diff.prep import generate_did_data
    n, T, a, ea = c["n"], c["T"], c["a"], c["ea"]
    frames = []

    def gen(**k):
        d = generate_did_data(**k)
        frames.append((k, d.copy()))
        return d
    cls = [dd.DifferenceInDifferences, dd.TwoWayFixedEffects, dd.MultiPeriodDiD, dd.CallawaySantAnna, dd.DifferenceInDifferences, dd.DifferenceInDifferences, dd.TwoWayFixedEffects, dd.MultiPeriodDiD, dd.CallawaySantAnna][c["est"]]
    mk = lambda: cls(alpha=ea)
    est = Stub(mk(), c["mask"]) if c["est"] == 5 else mk()
    ek = {"covariates": ["cv"]} if c["est"] in (4, 6, 7, 8) else None
    dk = {"period_effects": None} if False else {}
    effs = EFFS[c["effs"]]
    tp = 2 if T == 4 else 1
    kx = ek or {}
    if ek:
        g0 = gen

        def gen2(**k):
            d = g0(**k)
            d["cv"] = np.cos(np.arange(len(d)) * 1.7)
            frames[-1] = (k, d.copy())
            return d
        gfun = gen2
    else:
        gfun = gen
    r = cx.op(dd.simulate_power, est, n_units=12, n_periods=T, treatment_effect=1.0, treatment_fraction=0.5, treatment_period=tp, sigma=2.0, n_simulations=n, alpha=a,
              effect_sizes=effs, seed=11 + n, data_generator=gfun, data_generator_kwargs=dk, estimator_kwargs=ek, progress=False)
    elist = effs or [1.0]
    prim = 0 if len(elist) == 1 else ([i for i, e in enumerate(elist) if abs(e - 1.0) < 1e-9] + [len(elist) - 1])[0]
    cx.same(len(frames), n * len(elist), "one generated frame per simulation and effect")
    seeds = [k["seed"] for k, _ in frames]
    cx.same(len(set(seeds)), len(seeds), "every simulation has its own seed")
    powers, rows = [], []
    for j, e in enumerate(elist):
        rej = []
        cur = []
        for i in range(n):
            k, d = frames[j * n + i]
            cx.same((k["treatment_effect"], k["n_units"], k["n_periods"], k["treatment_fraction"], k["treatment_period"], k["noise_sd"]), (e, 12, T, 0.5, tp, 2.0), "generator arguments")
            if c["est"] == 5 and c["mask"] >> (j * n + i) & 1:
                continue
            est2 = mk()
            if c["est"] in (1, 6):
                f = cx.op(est2.fit, d, outcome="outcome", treatment="treated", time="post", unit="unit", **kx)
                v = (f.att, f.se, f.p_value, f.conf_int)
            elif c["est"] in (2, 7):
                f = cx.op(est2.fit, d, outcome="outcome", treatment="treated", time="period", post_periods=list(range(tp, T)), **kx)
                v = (f.avg_att, f.avg_se, f.avg_p_value, f.avg_conf_int)
            elif c["est"] in (3, 8):
                d["g"] = np.where(d.treated == 1, tp, 0)
                f = cx.op(est2.fit, d, outcome="outcome", unit="unit", time="period", first_treat="g", **kx)
                v = (f.overall_att, f.overall_se, f.overall_p_value, f.overall_conf_int)
            else:
                f = cx.op(est2.fit, d, outcome="outcome", treatment="treated", time="post", **(ek or {}))
                v = (f.att, f.se, f.p_value, f.conf_int)
            cur.append(v)
            rej.append(bool(v[2] < a))
        powers.append(float(np.mean(rej)) if rej else None)
        if j == prim:
            rows = [(e, v, x) for v, x in zip(cur, rej)]
    cx.eq(r.powers, powers, "rejection share per effect")
    cx.eq(list(r.effect_sizes), elist, "effect sizes in order")
    e = elist[prim]
    att = [v[0] for _, v, _ in rows]
    m = len(rows)
    pw = float(np.mean([x for *_, x in rows]))
    mean = sum(att) / m
    sd = math.sqrt(sum((x - mean) ** 2 for x in att) / (m - 1)) if m > 1 else float("nan")
    pse = math.sqrt(pw * (1 - pw) / m)
    cx.same((r.n_simulations, r.true_effect, r.alpha), (m, e, a), "labels")
    cx.eq([r.power, r.rejection_rate, r.power_se, r.mean_estimate, r.std_estimate, r.mean_se, r.bias], [pw, pw, pse, mean, sd, np.mean([v[1] for _, v, _ in rows]), mean - e], "power, mean, spread, bias")
    cx.eq(r.coverage, np.mean([v[3][0] <= e <= v[3][1] for _, v, _ in rows]), "coverage")
    z = 1.959963984540054
    cx.eq(list(r.power_ci), [max(0.0, pw - z * pse), min(1.0, pw + z * pse)], "power interval")
    cx.eq(r.rmse, math.sqrt((mean - e) ** 2 + sd ** 2), "root mean squared error")
    cx.same(len(r.simulation_results), m, "one record per successful simulation")
    for rec, (_, v, x) in zip(r.simulation_results, rows):
        cx.eq([rec["estimate"], rec["se"], rec["p_value"]], list(v[:3]), "simulation record")
        cx.same(bool(rec["rejected"]), x, "simulation verdict")
    cv = cx.op(r.power_curve_df)
    cx.eq(cv.values, np.column_stack([elist, powers]), "power curve table")
    d = cx.op(r.to_dict)
    cx.eq([d["power"], d["coverage"], d["bias"], d["rmse"], d["power_ci_lower"], d["power_ci_upper"]], [r.power, r.coverage, r.bias, r.rmse, *r.power_ci], "dictionary")
    cx.saw(c["est"], pw, mean)


def refuse(c, cx, dd):
    k = c["k"]
    P = dd.PowerAnalysis
    if k < 4:
        cx.raises("alpha", ValueError, P, alpha=(0.0, 1.0, -0.2, 1.5)[k])
    elif k < 8:
        cx.raises("power", ValueError, P, power=(0.0, 1.0, -0.2, 1.5)[k - 4])
    elif k == 8:
        cx.raises("alternative", ValueError, P, alternative="both")
    elif k == 9:
        class Bad:
            def fit(self, *a, **k):
                raise ValueError("no")
        cx.raises("all simulations failed", RuntimeError, dd.simulate_power, Bad(), n_simulations=3, progress=False, seed=1)
    elif k == 10:
        class Half(Stub):
            pass
        r, w = cx.warns(dd.simulate_power, Stub(dd.DifferenceInDifferences(), 3), n_units=12, n_simulations=5, progress=False, seed=1)
        cx.ok(any("2/5" in m for m in w), "failed simulations are reported", w=w)
        cx.same(r.n_simulations, 3, "failed simulations do not count")
    elif k == 11:
        a = cx.op(dd.simulate_power, dd.DifferenceInDifferences(), n_units=12, n_simulations=4, progress=False, seed=5)
        b = cx.op(dd.simulate_power, dd.DifferenceInDifferences(), n_units=12, n_simulations=4, progress=False, seed=5)
        cx.same(a.to_dict(), b.to_dict(), "same seed, same simulation")
    else:
        r = cx.op(P().power, effect_size=1.0, n_treated=10, n_control=10, sigma=1.0)
        cx.eq(r.power, power("two-sided", 0.05, 1 / math.sqrt(0.4)), "defaults")
    cx.saw(k)
