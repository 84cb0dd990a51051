"""P10: Goodman-Bacon decomposition."""
import itertools
from .core import np, pd
from . import models as M
from . import csmodel as C
from .p06 import PER

PROPERTY = "P10"
RULE = ("one case = multiset of timing groups (never/always/early/mid/late/beyond the panel) x never coding x weight method x presentation, "
        "or one missing-cell pattern; distinct by the list of comparisons")
ASSUMPTIONS = ["4-6 units, 3-5 periods incl. one gapped calendar", "missing cells (every single and every pair): list of comparisons and their means only"]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for N, per, opts in ((4, 3, (0, 1, 2, 3)), (5, 4, (0, 1, 2, 3, 4, 6)), (4, -4, (0, 2, 4, 5)), (4, -3, (0, 2004, 2006, 2007)), (6, 4, (0, 1, 2, 4))) + (((6, 5, (0, 1, 2, 3, 4, 5)), (7, 4, (0, 1, 3, 4))) if big else ()):
        for coh in itertools.combinations_with_replacement(opts, N):
            if not any(coh):
                continue
            for wt in ("approximate", "exact"):
                i += 1
                yield dict(coh=coh, per=per, wt=wt, never=("zero", "inf", "mixed")[(i // 2) % 3], lab=i % 4, mode=i % 6)
                if 0 in coh:
                    i += 1
                    yield dict(coh=coh, per=per, wt=wt, never=("zero", "inf", "mixed")[(i // 2) % 3], lab=i % 4, mode=i % 6)
    for coh in ((0, 0, 2, 3, 4), (0, 1, 3, 3, 2)):
        for r in (1, 2):
            for miss in itertools.combinations(range(20), r):
                i += 1
                yield dict(coh=coh, per=4, wt=("approximate", "exact")[i % 2], missing=miss, never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6)
    for coh in itertools.combinations_with_replacement((0, 1, 2, 3, 4), 4):      # a quarterly calendar
        i += 1
        if any(coh):
            yield dict(coh=[2000 + c / 4 for c in coh] if 0 not in coh else [c and 2000 + c / 4 for c in coh], per="quarter", wt=("approximate", "exact")[i % 2],
                       never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6)
    for k in range(5):
        yield dict(refuse=k)


def run(case, cx):
    import diff_diff as dd
    if "refuse" in case:
        return refuse(case["refuse"], cx, dd)
    per = [2000.25, 2000.5, 2000.75, 2001.0] if case["per"] == "quarter" else PER[case["per"]]
    coh = list(case["coh"])
    perm = [(j * 2 + 1) % len(coh) if len(coh) % 2 else len(coh) - 1 - j for j in range(len(coh))]
    coh = [coh[p] for p in perm]
    missing = case.get("missing", ())
    df, Y, ul = C.panel(coh, per, seed=len(coh), missing=missing, never=case["never"], lab=case["lab"], mode=case["mode"])
    before = df.copy(deep=True)
    est = dd.BaconDecomposition(weights=case["wt"])
    r, msgs = cx.warns(est.fit, df, outcome="y", unit="unit", time="time", first_treat="ft")
    cells = sorted(Y)
    uneven = len({sum(i == j for i, _ in cells) for j in {i for i, _ in cells}}) > 1
    cx.same(any("nbalanced" in m for m in msgs), uneven, "unbalanced panels are announced")
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    groups = sorted({c for c in coh if c})
    cells = sorted(Y)
    here = sorted({i for i, _ in cells})
    cx.same([float(g) for g in r.timing_groups], [float(g) for g in groups], "timing groups")
    cx.same((int(r.n_timing_groups), int(r.n_never_treated), int(r.n_obs)), (len(groups), sum(coh[i] == 0 for i in here), len(cells)), "counts")
    # the fixed-effects coefficient
    n = len(cells)
    d = np.array([float(coh[i] > 0 and t >= coh[i]) for i, t in cells])
    y = np.array([Y[c] for c in cells])
    FE = np.hstack([M.dummies([i for i, _ in cells]), M.dummies([t for _, t in cells], True)])
    Q = np.eye(n) - FE @ np.linalg.pinv(FE)
    dt = Q @ d
    ident = dt @ dt > 1e-9
    if ident:
        b = dt @ y / (dt @ dt)
        cx.eq(r.twfe_estimate, b, "two-way fixed-effects estimate", atol=1e-7)
    mean = lambda g, ts: np.mean([Y[i, t] for i, t in cells if coh[i] == g and t in ts]) if any(coh[i] == g and t in ts for i, t in cells) else np.nan
    want = {}
    T = len(per)
    nu = {g: len({i for i, _ in cells if coh[i] == g}) for g in groups + [0]}
    N = sum(nu.values())
    for g in groups:
        pre, post = [t for t in per if t < g], [t for t in per if t >= g]
        if 0 in coh and nu[0] and pre and post:
            want[g, "never_treated", "treated_vs_never"] = (g, 0, pre, post)
    for e, l in itertools.combinations(groups, 2):
        pre, mid, post = [t for t in per if t < e], [t for t in per if e <= t < l], [t for t in per if t >= l]
        if pre and mid:
            want[e, l, "earlier_vs_later"] = (e, l, pre, mid)
        if mid and post:
            want[l, e, "later_vs_earlier"] = (l, e, mid, post)
    want = {q: v for q, v in want.items() if not any(np.isnan(mean(g, ts)) for g in v[:2] for ts in v[2:])}
    got = {}
    for c in r.comparisons:
        key = (c.treated_group, c.control_group, c.comparison_type)
        cx.ok(key not in got, "comparison listed twice", key=key)
        got[key] = c
    cx.same(sorted(map(str, [(float(a), b if isinstance(b, str) else float(b), c) for a, b, c in got])),
            sorted(map(str, [(float(a), b if isinstance(b, str) else float(b), c) for a, b, c in want])), "list of comparisons")
    raw = {}
    for key, (k, c, pre, post) in want.items():
        if key not in got:
            continue
        v = got[key]
        cx.eq(v.estimate, mean(k, post) - mean(k, pre) - mean(c, post) + mean(c, pre), "2x2 estimate %s" % (key,), atol=1e-8)
        cx.same((int(v.n_treated), int(v.n_control)), (nu[k], nu[c]), "unit counts %s" % (key,))
        lo, hi = v.time_window
        win = pre + post
        cx.ok(lo == min(win) and max(win) <= hi < min([t for t in per if t > max(win)], default=np.inf), "time window %s" % (key,), window=(lo, hi), model=(min(win), max(win)))
        s = nu[k] / (nu[k] + nu[c])
        D = len(post) / len(win)
        raw[key] = ((nu[k] + nu[c]) / N * len(win) / T) ** 2 * s * (1 - s) * D * (1 - D)
    ws = [c.weight for c in r.comparisons]
    es = [c.estimate for c in r.comparisons]
    cx.ok(all(w >= 0 for w in ws), "negative weight", ws=ws)
    if ws:
        cx.eq(sum(ws), 1.0, "weights sum to one", atol=1e-9)
    tot = float(np.dot(ws, es)) if ws else 0.0
    cx.eq(r.decomposition_error, abs(r.twfe_estimate - tot), "reported decomposition error", atol=1e-9)
    for ty in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier"):
        cs = [c for c in r.comparisons if c.comparison_type == ty]
        w = sum(c.weight for c in cs)
        cx.eq(getattr(r, "total_weight_" + ty), w, "total weight " + ty, atol=1e-9)
        cx.eq(r.weight_by_type()[ty], w, "weight_by_type " + ty, atol=1e-9)
        av = getattr(r, "weighted_avg_" + ty)
        if w > 0:
            cx.eq(av, sum(c.weight * c.estimate for c in cs) / w, "weighted average " + ty, atol=1e-8)
        else:
            cx.ok(av is None, "average of an empty type", got=av)
        cx.same(r.effect_by_type()[ty], av, "effect_by_type " + ty)
    fr = r.to_dataframe()
    cx.same(len(fr), len(r.comparisons), "rows of the exported table")
    if len(fr):
        cx.eq(sorted(fr["weight"]), sorted(ws), "exported weights")
    if case["wt"] == "exact" and not missing and raw and ident:
        z = sum(raw.values())
        for key, v in raw.items():
            if key in got:
                cx.eq(got[key].weight, v / z, "Theorem 1 weight %s" % (key,), atol=1e-8)
        cx.eq(tot, r.twfe_estimate, "weighted sum of comparisons vs fixed-effects estimate", atol=1e-7)
    r2 = cx.op(dd.bacon_decompose, df, outcome="y", unit="unit", time="time", first_treat="ft", weights=case["wt"])
    cx.eq([c.weight for c in r2.comparisons], ws, "shortcut function weights", atol=1e-12)
    cx.eq([c.estimate for c in r2.comparisons], es, "shortcut function estimates", atol=1e-12)
    cx.saw(r.twfe_estimate, tot, len(ws))


def refuse(k, cx, dd):
    df, _, _ = C.panel([0, 0, 2, 3], [1, 2, 3, 4], seed=2)
    F = lambda d, **k2: dd.BaconDecomposition().fit(d, **{**dict(outcome="y", unit="unit", time="time", first_treat="ft"), **k2})
    T = [lambda: F(df, unit="zz"), lambda: F(df, time="zz"), lambda: F(df, first_treat="zz"), lambda: F(df, outcome="zz"), lambda: dd.BaconDecomposition(weights="x")]
    cx.raises("invalid call %d" % k, (ValueError, KeyError), T[k])
    cx.saw(k)
