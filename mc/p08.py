"""P08: multiplier bootstrap, with every multiplier draw decided by the explorer."""
import itertools
from .core import np
from . import models as M
from . import csmodel as C
from . import rng as R
from .p06 import PER

PROPERTY = "P08"
RULE = ("one case = cohort structure x settings x weight law x realisation; a realisation is a multiset of multiplier vectors closed "
        "under unit permutation (the full cube K^N, or every non-empty union of Hamming levels), so the verdict does not depend on the "
        "order in which units are numbered")
ASSUMPTIONS = ["3-5 units, full cubes 2^N (and 6^3 for the six-point law)",
               "a run whose draws the enumerating generator cannot serve is not judged (counted as outcome 'uncontrolled')"]
AGG = [("all", None), ("event_study", 0), ("group", None), (None, None), ("all", 1)]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for N, per, opts in ((3, 3, (0, 2, 3)), (4, 4, (0, 2, 3, 4)), (5, 4, (0, 2, 3, 4))):
        for coh in itertools.combinations_with_replacement(opts, N):
            if 0 not in coh or not any(coh):
                continue
            for base, ctl, a in itertools.product(("varying", "universal"), ("never_treated", "not_yet_treated"), (0, 1)):
                for law in ("rademacher", "mammen", "webb"):
                    if law == "webb" and N > (4 if big else 3):
                        continue
                    i += 1
                    yield dict(coh=coh, per=per, base=base, ctl=ctl, a=a, law=law, real="cube", agg=i % 5, lab=i % 4, mode=i % 6,
                               never=("zero", "inf")[i % 2], alpha=(0.05, 0.2)[i % 2])
    for coh in itertools.combinations_with_replacement((0, 2, 3, 6), 4):       # a calendar with a gap, balanced aggregation
        if 0 in coh and any(coh):
            for bal, base in itertools.product((0, 1, 2, 3), ("varying", "universal")):
                i += 1
                yield dict(coh=coh, per=-5, base=base, ctl="never_treated", a=0, law="rademacher", real="cube", agg=0, bal=bal, lab=i % 4, mode=i % 6,
                           never="zero", alpha=0.1)
    for coh in ((0, 0, 2, 3), (0, 0, 0, 2), (0, 2, 2, 3)):
        for lev in range(1, 2 ** 5):
            for law in ("rademacher", "mammen"):
                i += 1
                yield dict(coh=coh, per=4, base=("varying", "universal")[i % 2], ctl="never_treated", a=0, law=law, real=lev, agg=i % 5,
                           lab=i % 4, mode=i % 6, never="zero", alpha=0.1)
    for coh in ((0, 0, 2, 3), (0, 0, 0, 2, 3)):
        for law in ("rademacher", "mammen", "webb"):
            for seed in range(3 if not big else 12):
                yield dict(coh=coh, per=4, base="varying", ctl="never_treated", a=0, law=law, real="free", seed=seed, agg=0, lab=0, mode=0,
                           never="zero", alpha=0.05)


def stats(att, dist, alpha):
    se = float(np.std(dist, ddof=1))
    ci = (float(np.percentile(dist, 50 * alpha)), float(np.percentile(dist, 100 - 50 * alpha)))
    one = np.mean(dist <= 0) if att >= 0 else np.mean(dist >= 0)
    return se, ci, max(min(2 * one, 1.0), 1 / (len(dist) + 1))


def run(case, cx):
    import diff_diff as dd
    per, coh, a, base = PER[case["per"]], list(case["coh"]), case["a"], case["base"]
    df, Y, ul = C.panel(coh, per, seed=len(coh) + 4, never=case["never"], lab=case["lab"], mode=case["mode"])
    want = C.att_gt(coh, per, Y, base, case["ctl"], a)
    if not want:
        return
    agg, bal = AGG[case["agg"]]
    bal = case.get("bal", bal)
    N = len(coh)
    used = sorted(set().union(*[m["units"] for m in want.values()]))
    n = len(used)
    vals = np.array(R.LAWS[case["law"]])
    kw = dict(control_group=case["ctl"], anticipation=a, estimation_method="reg", base_period=base, bootstrap_weights=case["law"],
              alpha=case["alpha"])
    fk = dict(outcome="y", unit="unit", time="time", first_treat="ft", aggregate=agg, balance_e=bal)
    plain = cx.op(dd.CallawaySantAnna(**{**kw, "n_bootstrap": 0}).fit, df, **fk)
    if case["real"] == "free":
        B = 60
        r = cx.op(dd.CallawaySantAnna(n_bootstrap=B, seed=case["seed"], **kw).fit, df, **fk)
        ks = [k for k in want if k[1] >= k[0] - a]
        w = np.array([want[k]["nt"] for k in ks], float)
        w /= w.sum()
        psi = sum(wi * want[k]["psi"] for wi, k in zip(w, ks))[used]
        att = float(w @ [want[k]["effect"] for k in ks])
        reach = att + np.array([vals[list(v)] @ psi for v in R.cube(len(vals), n)])
        d = np.asarray(r.bootstrap_results.bootstrap_distribution)
        cx.same(len(d), B, "number of replicates")
        cx.ok(np.abs(d[:, None] - reach[None, :]).min(axis=1).max() < 1e-8, "replicate outside the support of the %s law" % case["law"])
        cx.ok(len(set(np.round(d, 9))) > 1, "replicates do not vary")
        same_stats(cx, att, d, case["alpha"], r.overall_se, r.overall_conf_int, r.overall_p_value, "overall")
        cx.saw(r.overall_se)
        return
    rows = R.cube(len(vals), n)
    if case["real"] != "cube":
        rows = [v for v in rows if (case["real"] >> sum(v)) & 1]
        if len(rows) < 2:
            return
    feed = R.Feed(elem=[d for v in rows for d in v])
    B = len(rows)
    with R.controlled(feed):
        r, e = cx.attempt(dd.CallawaySantAnna(n_bootstrap=B, seed=7, **kw).fit, df, **fk)
    if not feed.ok():
        cx.saw("uncontrolled")
        if e is not None and feed.broken is None:
            cx.bad("bootstrap failed: %s" % e)
        return
    if e is not None:
        cx.bad("bootstrap failed: %s: %s" % (type(e).__name__, e))
        return
    R.check_law(cx, case["law"], feed)
    W = vals[np.array(rows)]
    rep = {k: m["effect"] + W @ m["psi"][used] for k, m in want.items()}
    got = {(int(g), int(t)): v for (g, t), v in r.group_time_effects.items()}
    cx.same(sorted(got), sorted(want), "pairs")
    for k, m in want.items():
        v = got[k]
        cx.eq(v["effect"], m["effect"], "point estimate with bootstrap", atol=1e-9)
        same_stats(cx, m["effect"], rep[k], case["alpha"], v["se"], v["conf_int"], v["p_value"], "pair %s" % (k,), v["t_stat"])
    ks = [k for k in want if k[1] >= k[0] - a]
    cx.eq(r.overall_att, plain.overall_att, "overall point estimate with bootstrap", atol=1e-12)
    if ks:
        w = np.array([want[k]["nt"] for k in ks], float)
        w /= w.sum()
        d = sum(wi * rep[k] for wi, k in zip(w, ks))
        same_stats(cx, float(np.mean(0) + w @ [want[k]["effect"] for k in ks]), d, case["alpha"], r.overall_se, r.overall_conf_int,
                   r.overall_p_value, "overall", r.overall_t_stat)
        bd = r.bootstrap_results.bootstrap_distribution
        cx.eq(np.sort(bd), np.sort(d), "bootstrap distribution of the overall effect", atol=1e-8)
    else:
        cx.ok(np.isnan(r.overall_se) and np.isnan(r.overall_p_value) and np.isnan(r.overall_conf_int[0]), "no treated pair: no overall inference")
    cx.same((r.bootstrap_results.n_bootstrap, r.bootstrap_results.weight_type, r.bootstrap_results.alpha), (B, case["law"], case["alpha"]), "bootstrap labels")
    for src, model in ((r.event_study_effects, C.agg_event(want, a, base, bal) if agg in ("all", "event_study") else {}),
                       (r.group_effects, C.agg_group(want, a) if agg in ("all", "group") else {})):
        for e, m in model.items():
            if not m["keys"]:
                continue
            v = src[e]
            cx.eq(v["effect"], m["effect"], "aggregate point estimate", atol=1e-9)
            d = sum(wi * rep[k] for wi, k in zip(m["w"], m["keys"]))
            same_stats(cx, m["effect"], d, case["alpha"], v["se"], v["conf_int"], v["p_value"], "aggregate %s" % e, v["t_stat"])
    cx.saw(r.overall_se, r.overall_p_value, case["law"])


def same_stats(cx, att, d, alpha, se, ci, p, tag, t=None):
    mse, mci, mp = stats(att, d, alpha)
    if mse < 1e-9:
        cx.ok(t is None or np.isnan(t), tag + ": t statistic from a zero standard error", t=t)
        cx.ok(np.isnan(p), tag + ": p-value from replicates that do not vary", p=p)
        return
    cx.eq(se, mse, tag + ": bootstrap standard error", rtol=1e-6)
    cx.eq(list(ci), list(mci), tag + ": percentile interval", rtol=1e-6, atol=1e-8)
    if np.abs(d).min() > 1e-9:
        cx.eq(p, mp, tag + ": bootstrap p-value", atol=1e-9)
    if t is not None:
        cx.eq(t, att / mse, tag + ": t statistic", rtol=1e-6)
