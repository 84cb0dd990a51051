"""P09: interaction-weighted event study against the saturated dummy regression."""
import itertools
from .core import np, pd
from . import models as M
from . import csmodel as C
from . import rng as R
from .p06 import PER

PROPERTY = "P09"
RULE = ("one case = multiset of cohorts (never/always/early/late/beyond the panel) x anticipation x control setting x never coding x "
        "covariates x cluster x presentation, or one missing-cell pattern, or one complete set of bootstrap draws; distinct by the effect table")
ASSUMPTIONS = ["4-6 units, 3-5 periods incl. one gapped calendar; every single missing cell and every pair on 5x4 panels",
               "designs whose cohort coefficients are not all identified: the unidentified ones must be missing, the rest must equal the "
               "regression on the retained columns", "pairs-bootstrap draws: all arrangements of 4 units (several cohorts: those with a never-treated unit)"]


def cases(tier):
    big = tier == "thorough"
    i = 0
    for N, per, opts in ((4, 3, (0, 2, 3)), (5, 4, (0, 1, 2, 3, 4, 6)), (4, -4, (0, 2, 4, 5)), (6, 5, (0, 3, 4, 5))) + (((6, 5, (0, 2, 3, 4, 5)), (7, 5, (0, 3, 5))) if big else ()):
        for coh in itertools.combinations_with_replacement(opts, N):
            if 0 not in coh or not any(coh):
                continue
            for a, ctl, nx in itertools.product((0, 1), ("never_treated", "not_yet_treated"), (0, 1)):
                i += 1
                yield dict(coh=coh, per=per, a=a, ctl=ctl, nx=nx, never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6, cl=int(i % 5 == 0), alpha=(0.05, 0.2)[i % 2])
    for coh in ((0, 0, 2, 3, 4), (0, 0, 3, 3, 2)):
        for r in (1, 2) + ((3,) if big else ()):
            for miss in itertools.combinations(range(20), r):
                i += 1
                yield dict(coh=coh, per=4, a=i % 2, ctl="never_treated", nx=(i // 2) % 2, missing=miss, never=("zero", "inf", "mixed")[i % 3], lab=i % 4, mode=i % 6, cl=0, alpha=0.1)
    for coh in ((0, 0, 2, 3), (0, 0, 2, 2), (0, 0, 0, 3), (0, 0, 3, 3), (0, 2, 2, 3)):
        for mode in range(6):
            yield dict(boot=1 + mode % 2, coh=coh, per=4, lab=mode % 4, mode=mode)
    for k in range(9):
        yield dict(refuse=k)


def run(case, cx):
    import diff_diff as dd
    if "refuse" in case:
        return refuse(case["refuse"], cx, dd)
    if "boot" in case:
        return boot(case, cx, dd)
    per, a = PER[case["per"]], case["a"]
    coh = list(case["coh"])
    perm = [(j * 2 + 1) % len(coh) if len(coh) % 2 else len(coh) - 1 - j for j in range(len(coh))]
    coh = [coh[p] for p in perm]
    df, Y, ul = C.panel(coh, per, seed=len(coh), missing=case.get("missing", ()), never=case["never"], lab=case["lab"], mode=case["mode"])
    df["clu"] = df.unit.map({ul(i): "c%d" % (i * 2 // 3) for i in range(len(coh))})
    cells = sorted(Y)
    covs = ["x1"] if case["nx"] else None
    inv = {ul(i): i for i in range(len(coh))}
    xv = {(inv[u], t): x for u, t, x in zip(df.unit, df.time, df.x1)}
    ref = -1 - a
    seen = sorted({(coh[i], t - coh[i]) for i, t in cells if coh[i]})
    keys = [k for k in seen if k[1] != ref]
    est = dd.SunAbraham(control_group=case["ctl"], anticipation=a, alpha=case["alpha"], cluster="clu" if case["cl"] else None, rank_deficient_action="silent")
    fit = lambda d: est.fit(d, outcome="y", unit="unit", time="time", first_treat="ft", covariates=covs)
    here = {i for i, _ in cells}
    if not any(coh[i] == 0 for i in here) or not any(coh[i] for i in here):
        cx.raises("no control or no treated unit", ValueError, fit, df)
        return
    n = len(cells)
    D = np.array([[1.0 if (coh[i], t - coh[i]) == k and coh[i] else 0.0 for k in keys] for i, t in cells]).reshape(n, len(keys))
    xs = np.array([[xv[c]] for c in cells]) if covs else np.zeros((n, 0))
    FE = np.hstack([M.dummies([i for i, _ in cells]), M.dummies([t for _, t in cells], True)])
    y = np.array([Y[c] for c in cells])
    Q = np.eye(n) - FE @ np.linalg.pinv(FE)
    X = Q @ np.hstack([D, xs])
    k = X.shape[1]
    if not keys or n <= k + 0 or n <= np.linalg.matrix_rank(X, tol=1e-8):
        return
    before = df.copy(deep=True)
    r = cx.op(fit, df)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    cx.same([float(g) for g in r.groups], sorted({float(coh[i]) for i in here if coh[i]}), "cohorts")
    cx.same((r.n_obs, r.n_treated_units, r.n_control_units), (n, sum(coh[i] > 0 for i in here), sum(coh[i] == 0 for i in here)), "counts")
    got = {(float(g), float(e)): v for (g, e), v in r.cohort_effects.items()}
    cx.same(sorted(got), sorted((float(g), float(e)) for g, e in keys), "cohort-by-event-time cells")
    if sorted(got) != sorted((float(g), float(e)) for g, e in keys):
        return
    eff = np.array([got[(float(g), float(e))]["effect"] for g, e in keys], float)
    drop = [j for j in range(len(keys)) if np.isnan(eff[j])]
    rank = np.linalg.matrix_rank(X, tol=1e-8)
    kept = [j for j in range(len(keys)) if j not in drop]
    cols = kept + list(range(len(keys), k))
    # a dropped covariate is not visible in the results: decide from the rank
    if np.linalg.matrix_rank(X[:, cols], tol=1e-8) != rank:
        cx.bad("dropped columns are not redundant", dropped=[keys[j] for j in drop], rank=rank)
        return
    if len(cols) > rank + (1 if covs else 0):
        cx.bad("too few columns dropped", dropped=[keys[j] for j in drop], rank=rank, k=k)
        return
    if len(cols) == rank + 1:       # the covariate was the redundant one
        cols = kept
        if np.linalg.matrix_rank(X[:, cols], tol=1e-8) != rank:
            return
    clid = [i if not case["cl"] else i * 2 // 3 for i, _ in cells]
    if n <= len(cols):
        return
    b, V, u = M.ols(X[:, cols], Q @ y, clid)
    cx.eq(eff[kept], b[:len(kept)], "cohort-by-event-time effects vs dummy regression", rtol=1e-6, atol=1e-6)
    sev = np.sqrt(np.maximum(np.diag(V), 0))
    for j, m in zip(kept, sev):
        see(cx, got[(float(keys[j][0]), float(keys[j][1]))]["se"], m, "standard error of cohort effect %s" % (keys[j],))
    Vf = np.full((len(keys), len(keys)), np.nan)
    Vf[np.ix_(kept, kept)] = V[:len(kept), :len(kept)]
    bf = np.full(len(keys), np.nan)
    bf[kept] = b[:len(kept)]
    size = {g: sum(coh[i] == g for i in here) for g in set(coh) if g}
    times = sorted({e for _, e in keys})
    cx.same(sorted(float(e) for e in r.event_study_effects), [float(e) for e in times], "event times")
    W = {}
    bal = "missing" not in case
    for e in times:
        v = r.event_study_effects[e]
        w = r.cohort_weights[e]
        at = [j for j, kk in enumerate(keys) if kk[1] == e]
        cx.same(sorted(float(g) for g in w), sorted(float(keys[j][0]) for j in at), "weighted cohorts at %s" % e)
        wv = np.array([w.get(keys[j][0], np.nan) for j in at], float)
        nobs = np.array([sum(1 for i, t in cells if coh[i] == keys[j][0] and t - coh[i] == e) for j in at], float)
        nun = np.array([size[keys[j][0]] for j in at], float)
        opts = [nun / nun.sum(), nobs / nobs.sum()]
        cx.ok(any(np.allclose(wv, o, atol=1e-9) for o in opts), "cohort shares at %s" % e, got=wv, model=opts[0])
        cx.eq([got[(float(keys[j][0]), float(e))]["weight"] for j in at], wv, "stored weights")
        cx.eq(v["effect"], wv @ bf[at], "event-study effect %s" % e, rtol=1e-6, atol=1e-6)
        var = wv @ Vf[np.ix_(at, at)] @ wv
        see(cx, v["se"], np.sqrt(max(var, 0)) if np.isfinite(var) else np.nan, "event-study standard error %s" % e)
        cx.same(v["n_groups"], len(at), "cohorts at %s" % e)
        M.check_inference(cx, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], case["alpha"], None, "event %s" % e, scale=1e5)
        for j, wj in zip(at, wv):
            W[j] = wj
    post = [e for e in times if e >= 0]
    if not post:
        cx.ok(np.isnan(r.overall_att) and np.isnan(r.overall_p_value), "overall effect without post-treatment event times", att=r.overall_att, p=r.overall_p_value)
    else:
        cnt = np.array([sum(1 for i, t in cells if coh[i] and t - coh[i] == e) for e in post], float)
        cnt /= cnt.sum()
        full = np.zeros(len(keys))
        for c, e in zip(cnt, post):
            for j, kk in enumerate(keys):
                if kk[1] == e:
                    full[j] = c * W[j]
        nz = np.flatnonzero(full)
        cx.eq(r.overall_att, full[nz] @ bf[nz], "overall effect", rtol=1e-6, atol=1e-6)
        var = full[nz] @ Vf[np.ix_(nz, nz)] @ full[nz]
        see(cx, r.overall_se, np.sqrt(max(var, 0)) if np.isfinite(var) else np.nan, "overall standard error")
        M.check_inference(cx, r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, case["alpha"], None, "overall", scale=1e5)
    cx.saw(r.overall_att, r.overall_se, len(drop))


def see(cx, got, want, tag):
    """Standard errors; a variance that is zero up to rounding may come out as zero or as missing."""
    if want < 1e-6:
        cx.ok(np.isnan(got) or got < 1e-6, tag, got=got, model=want)
    else:
        cx.eq(got, want, tag, rtol=1e-5, atol=1e-7)


def dummyreg(rows, coh, per, a=0):
    """(e -> effect), overall of a list of units (with repetition); rows: list of (unit, dict t->y)."""
    cells = [(k, u, t) for k, u in enumerate(rows) for t in per]
    ref = -1 - a
    keys = sorted({(coh[u], t - coh[u]) for _, u, t in cells if coh[u] and t - coh[u] != ref})
    D = np.array([[1.0 if coh[u] and (coh[u], t - coh[u]) == kk else 0.0 for kk in keys] for _, u, t in cells])
    FE = np.hstack([M.dummies([k for k, _, _ in cells]), M.dummies([t for _, _, t in cells], True)])
    return cells, keys, np.hstack([D, FE])


def model_boot(rows, coh, per, Y, overall, events):
    """Per draw: the overall effect and the effect of every event time. Event times nobody in the draw has keep the
    original estimate, so does a draw without treated units; a draw without never-treated units identifies nothing."""
    dist, ev = [], {e: [] for e in events}
    memo = {}
    for v in rows:
        v = tuple(sorted(v))
        if v not in memo:
            memo[v] = one_draw(v, coh, per, Y, overall, events)
        dist.append(memo[v][0])
        for e in events:
            ev[e].append(memo[v][1][e])
    return dist, ev


def one_draw(v, coh, per, Y, overall, events):
    if not any(coh[u] for u in v):
        return overall, events
    if all(coh[u] for u in v):
        return np.nan, {e: np.nan for e in events}
    cells, keys, X = dummyreg(v, coh, per)
    y = np.array([Y[u, t] for _, u, t in cells])
    b = np.linalg.lstsq(X, y, rcond=None)[0][:len(keys)]
    out = dict(events)
    num_, den = 0.0, 0.0
    for e in sorted({k[1] for k in keys}):
        at = [j for j, kk in enumerate(keys) if kk[1] == e]
        w = np.array([sum(coh[u] == keys[j][0] for u in v) for j in at], float)
        out[e] = float(w @ b[at] / w.sum())
        if e >= 0:
            num_ += w.sum() * out[e]
            den += w.sum()
    return num_ / den, out


def boot(case, cx, dd):
    coh, per = list(case["coh"]), PER[case["per"]]
    df, Y, ul = C.panel(coh, per, seed=5, lab=case["lab"], mode=case["mode"])
    N = len(coh)
    single = len(set(coh)) == 2
    kw = dict(outcome="y", unit="unit", time="time", first_treat="ft")
    plain = cx.op(dd.SunAbraham().fit, df, **kw)
    point = {e: v["effect"] for e, v in plain.event_study_effects.items()}

    def wanted(c):      # draws whose estimate is unambiguous (several cohorts without controls are only partly identified)
        return case["boot"] == 2 or 0 in c if single else (0 in c and (any(c) or case["boot"] == 2))
    rows = [v for v in itertools.product(range(N), repeat=N) if wanted([coh[i] for i in v])]
    dist, ev = model_boot(rows, coh, per, Y, plain.overall_att, point)
    # ordinary run: every replicate is the estimate of some resample of N units
    r = cx.op(dd.SunAbraham(n_bootstrap=60, alpha=0.2, seed=11).fit, df, **kw)
    bd = np.asarray(r.bootstrap_results.bootstrap_distribution)
    bd = bd[np.isfinite(bd)]
    R.members(cx, bd, [v for v in dist if v == v] + [plain.overall_att], "unit bootstrap", share=1.0 if single else 0.6)
    if len(bd) >= 30:
        cx.eq([r.overall_att, r.overall_se], [plain.overall_att, np.std(bd, ddof=1)], "ordinary bootstrap run", rtol=1e-7)
    # the set of draws is closed under renumbering only of units within a cohort; the draws refer to units
    # numbered in sorted order or in order of appearance: both numberings are tried
    first = None
    for seen in (sorted(df.unit.unique()), list(dict.fromkeys(df.unit))):
        num = {seen.index(ul(i)): i for i in range(N)}
        draws = [v for v in itertools.product(range(N), repeat=N) if wanted([coh[num[i]] for i in v])]
        feed = R.Feed(elem=[d for v in draws for d in v])
        with R.controlled(feed):
            r, e = cx.attempt(dd.SunAbraham(n_bootstrap=len(draws), alpha=0.2, seed=3).fit, df, **kw)
        if not feed.ok():
            cx.saw("uncontrolled")
            if single and case["boot"] == 2:
                r = cx.op(dd.SunAbraham(n_bootstrap=1500, seed=17).fit, df, **kw)
                R.frequencies(cx, r.bootstrap_results.bootstrap_distribution, dist, "unit bootstrap")
            if e is not None and feed.broken is None:
                cx.bad("bootstrap failed: %s: %s" % (type(e).__name__, e))
            return
        if e is not None:
            cx.bad("bootstrap failed: %s: %s" % (type(e).__name__, e))
            return
        if first is None:
            first = r
        if np.allclose(np.sort(r.bootstrap_results.bootstrap_distribution), np.sort(dist), atol=1e-7, equal_nan=True):
            break
    else:
        r = first
    cx.eq(r.overall_att, plain.overall_att, "point estimate with bootstrap", atol=1e-12)
    cx.eq(np.sort(r.bootstrap_results.bootstrap_distribution), np.sort(dist), "bootstrap distribution over all unit draws", atol=1e-7)
    for att, d, se, ci, p, t, tag in [(plain.overall_att, dist, r.overall_se, r.overall_conf_int, r.overall_p_value, r.overall_t_stat, "overall")] + [
            (point[e], ev[e], v["se"], v["conf_int"], v["p_value"], v["t_stat"], "event %s" % e) for e, v in r.event_study_effects.items()]:
        d = np.array(d)
        d = d[np.isfinite(d)]
        se0 = np.std(d, ddof=1)
        if se0 < 1e-9:
            continue
        cx.eq(se, se0, tag + " bootstrap standard error", rtol=1e-6)
        cx.eq(list(ci), [np.percentile(d, 10), np.percentile(d, 90)], tag + " percentile interval", rtol=1e-6, atol=1e-7)
        one = np.mean(d <= 0) if att >= 0 else np.mean(d >= 0)
        if np.abs(d).min() > 1e-7:
            cx.eq(p, max(min(2 * one, 1), 1 / (len(d) + 1)), tag + " bootstrap p-value", atol=1e-9)
        cx.eq(t, att / se0, tag + " t", rtol=1e-6)
    cx.saw(r.overall_se)


def refuse(k, cx, dd):
    df, _, _ = C.panel([0, 0, 2, 3], [1, 2, 3, 4], seed=2)
    F = lambda d, **k2: dd.SunAbraham().fit(d, **{**dict(outcome="y", unit="unit", time="time", first_treat="ft"), **k2})
    T = [lambda: F(df, unit="zz"), lambda: F(df, time="zz"), lambda: F(df, first_treat="zz"), lambda: F(df, outcome="zz"), lambda: F(df, covariates=["zz"]),
         lambda: F(df[df.ft > 0]), lambda: F(df[df.ft == 0]), lambda: dd.SunAbraham(control_group="x"), lambda: dd.SunAbraham(rank_deficient_action="x")]
    cx.raises("invalid call %d" % k, (ValueError, KeyError), T[k])
    cx.saw(k)
