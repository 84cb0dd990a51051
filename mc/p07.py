"""P07: aggregation of cohort-time effects."""
import itertools
from .core import np
from . import models as M
from . import csmodel as C
from .p06 import PER

PROPERTY = "P07"
RULE = ("one case = one cohort multiset x base period x control group x anticipation x aggregation request x balance horizon; "
        "every aggregate recomputed from the reported cohort-time effects and from the outcome data")
ASSUMPTIONS = ["5-6 units, 4 periods (thorough 5); standard errors compared on balanced panels, effects also with missing cells"]
AGG = [("all", None), ("event_study", None), ("group", None), (None, None), ("simple", None), ("all", 0), ("event_study", 1), ("all", -2), ("event_study", 2)]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for N, per, opts in ((4, 4, (0, 2, 3, 4)), (6, 4, (0, 2, 3, 4)), (5, 4, (0, 1, 3, 4, 6)), (4, -3, (0, 2005, 2006, 2007))) + (((6, 5, (0, 2, 3, 4, 5, 7)),) if big else ()):
        for coh in itertools.combinations_with_replacement(opts, N):
            if 0 not in coh or not any(coh):
                continue
            for base, ctl, a in itertools.product(("varying", "universal"), ("never_treated", "not_yet_treated"), (0, 1)):
                for gi in range(len(AGG)):
                    i += 1
                    yield dict(coh=coh, per=per, base=base, ctl=ctl, a=a, agg=gi, meth=("reg", "ipw", "dr")[i % 3],
                               never=("zero", "inf", "mixed")[(i // 3) % 3], lab=i % 4, mode=i % 6)
    for miss in itertools.combinations(range(20), 2 if big else 1):
        for base in ("varying", "universal"):
            for gi in (0, 5, 6):
                i += 1
                yield dict(coh=(0, 0, 2, 3, 4), per=4, base=base, ctl="never_treated", a=0, agg=gi, meth="reg", missing=miss,
                           never="zero", lab=i % 4, mode=i % 6)


def run(case, cx):
    import diff_diff as dd
    per, coh, a, base = PER[case["per"]], case["coh"], case["a"], case["base"]
    coh = list(coh[::-1]) if len(coh) % 2 else [coh[(j * 2 + j // (len(coh) // 2)) % len(coh)] for j in range(len(coh))]
    coh = sorted(coh, key=lambda c: (c * 7) % 5)
    df, Y, ul = C.panel(coh, per, seed=len(coh) + 2, missing=case.get("missing", ()), never=case["never"], lab=case["lab"], mode=case["mode"])
    bal_panel = not case.get("missing")
    want = C.att_gt(coh, per, Y, base, case["ctl"], a)
    if not want:
        return
    agg, bal = AGG[case["agg"]]
    est = dd.CallawaySantAnna(control_group=case["ctl"], anticipation=a, estimation_method=case["meth"], base_period=base)
    r = cx.op(est.fit, df, outcome="y", unit="unit", time="time", first_treat="ft", aggregate=agg, balance_e=bal)
    rep = {(int(g), int(t)): v for (g, t), v in r.group_time_effects.items()}
    # the same aggregation applied to the reported pairs
    ks = [k for k in rep if k[1] >= k[0] - a]
    if ks:
        w = np.array([rep[k]["n_treated"] for k in ks], float)
        cx.eq(r.overall_att, (w @ np.array([rep[k]["effect"] for k in ks])) / w.sum(), "overall effect from the reported pairs", atol=1e-9)
    att, se = C.agg_simple(want, coh, a)
    cx.eq(r.overall_att, att, "overall effect", atol=1e-8)
    if bal_panel:
        cx.eq(r.overall_se, se, "overall standard error", rtol=1e-6, atol=1e-9)
    if ks and not np.isnan(r.overall_se):
        M.check_inference(cx, r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, 0.05, None, "overall")
    elif not ks:
        cx.ok(np.isnan(r.overall_att) and np.isnan(r.overall_se) and np.isnan(r.overall_t_stat) and np.isnan(r.overall_p_value)
              and np.isnan(r.overall_conf_int[0]), "no treated pair: overall inference must be missing", att=r.overall_att)
    if agg in ("event_study", "all"):
        ev = C.agg_event(want, a, base, bal)
        got = {int(e): v for e, v in (r.event_study_effects or {}).items()}
        cx.same(sorted(got), sorted(ev), "event times")
        for e, m in ev.items():
            if e not in got:
                continue
            v = got[e]
            cx.eq(v["effect"], m["effect"], "event-time %d effect" % e, atol=1e-8)
            cx.same(int(v["n_groups"]), m["n"], "event-time %d number of cohorts" % e)
            if m["n"]:
                cx.eq(v["se"], m["se"], "event-time %d standard error" % e, rtol=1e-6, atol=1e-9)
                if m["se"] > 1e-9:
                    M.check_inference(cx, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], 0.05, None, "event %d" % e)
            else:
                cx.ok(v["effect"] == 0 and np.isnan(v["se"]) and np.isnan(v["p_value"]) and np.isnan(v["conf_int"][0]), "reference event time", v=v)
    else:
        cx.ok(not r.event_study_effects, "event study not requested")
    if agg in ("group", "all"):
        gr = C.agg_group(want, a)
        got = {int(g): v for g, v in (r.group_effects or {}).items()}
        cx.same(sorted(got), sorted(gr), "cohort aggregates")
        for g, m in gr.items():
            if g not in got:
                continue
            v = got[g]
            cx.eq(v["effect"], m["effect"], "cohort %d effect" % g, atol=1e-8)
            cx.eq(v["se"], m["se"], "cohort %d standard error" % g, rtol=1e-6, atol=1e-9)
            cx.same(int(v["n_periods"]), m["n"], "cohort %d periods" % g)
            if m["se"] > 1e-9:
                M.check_inference(cx, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], 0.05, None, "cohort %d" % g)
    else:
        cx.ok(not r.group_effects, "cohort aggregates not requested")
    for lvl, src in (("group_time", len(rep)), ("event_study", len(r.event_study_effects or {})), ("group", len(r.group_effects or {}))):
        t, e = cx.attempt(r.to_dataframe, lvl)
        if src:
            cx.ok(e is None and len(t) == src, "table at level %s" % lvl)
        else:
            cx.ok(isinstance(e, ValueError) or (e is None and len(t) == 0), "table of an aggregation that was not requested", e=e)
    cx.saw(r.overall_att, r.overall_se, len(r.event_study_effects or {}))
