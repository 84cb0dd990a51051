"""P11: synthetic DiD point estimate and weights."""
import itertools
import math
from .core import np, pd
from . import models as M

PROPERTY = "P11"
RULE = ("one case = number of control/treated units x position of treated units x post-period set (every non-empty proper suffix and every "
        "proper subset for 3 periods) x regularisation x covariates x labels x presentation; distinct by weights and effect")
ASSUMPTIONS = ["1-5 controls, 1-2 treated units, 2-6 periods", "the exact constrained optimum is found by enumerating every support; the optimality gap allowed is one millionth of what "
               "the uniform weights leave to gain, and 1e-4 in the weights when the criterion is well conditioned",
               "units differ in level by at most about fifty times what they vary by over time"]
LAM = (0.0, 0.5, 20.0, 1000.0)
ZETA = (0.0, 1.0, 10.0)


def cases(tier):
    big = tier == "thorough"
    i = 0
    for nc, nt, T in itertools.product((1, 2, 3, 4) + ((5,) if big else ()), (1, 2), (2, 3, 4) + ((5, 6) if big else (5,))):
        posts = [tuple(range(T - k, T)) for k in range(1, T)]
        if T == 3:
            posts += [c for r in (1, 2) for c in itertools.combinations(range(3), r) if c not in posts]
        posts.append(None)
        for where in range(nc + nt if nt == 1 else nc + 1):
            for post in posts:
                for li in range(4):
                    for seed in range(2 if not big else 4):
                        i += 1
                        yield dict(nc=nc, nt=nt, T=T, where=where, post=post, lam=li, zeta=(i // 3) % 3, cov=int(i % 3 == 0), seed=seed, lab=i % 5, mode=i % 6, order=i % 2, level=(0, 0, 50, 1e4, -700)[i % 5], spread=(3, 3, 1, 60)[i // 2 % 4])
    # the array-level helpers on their own
    for nc, npre, npost in itertools.product((1, 2, 3, 4), (2, 3, 4, 5), (1, 2)):
        for seed in range(3 if not big else 10):
            for n_placebo in (None, *sorted({1, max(nc - 1, 1), nc + 2})):
                i += 1
                yield dict(kind="fn", nc=nc, npre=npre, npost=npost, seed=seed, n_placebo=n_placebo)
    for k in range(13):
        yield dict(refuse=k)


ULAB = [lambda i: i, lambda i: "u%s" % "qwertyuiop"[i], lambda i: 500 - 13 * i, lambda i: float(i) + 0.5, lambda i: "%d" % (11 - i)]
TLAB = [lambda t: t, lambda t: 2000 + t, lambda t: "p%s" % "abcdefg"[t], lambda t: 10.0 * t, lambda t: pd.Timestamp(2020, 1 + t, 1)]


def build(nc, nt, where, T, seed, lab, mode, level=0, spread=3):
    N = nc + nt
    treated = [(where + k) % N for k in range(nt)]
    y = M.gen(N * T, 300 + seed + 7 * N + T).reshape(N, T) * 2 + spread * M.gen(N, 11 + seed)[:, None] + level + M.gen(T, 5)[None, :]
    x = M.gen(N * T, 900 + seed).reshape(N, T)
    rows = [(ULAB[lab](i), TLAB[lab](t), float(y[i, t]), int(i in treated), float(x[i, t])) for i in range(N) for t in range(T)]
    df = pd.DataFrame(rows, columns=["unit", "time", "y", "tr", "x1"])
    return M.present(df, mode), y, x, treated


def qp(Yc, yt, lam):
    """Exact minimiser of |yt - Yc w|^2 + lam |w - 1/n|^2 on the simplex (all supports enumerated)."""
    n = Yc.shape[1]
    H, f = Yc.T @ Yc + lam * np.eye(n), Yc.T @ yt + lam / n
    best = None
    for r in range(1, n + 1):
        for S in itertools.combinations(range(n), r):
            S = list(S)
            K = np.zeros((r + 1, r + 1))
            K[:r, :r] = H[np.ix_(S, S)]
            K[:r, r] = K[r, :r] = 1
            sol = np.linalg.lstsq(K, np.append(f[S], 1), rcond=None)[0][:r]
            if sol.min() < -1e-9 or abs(sol.sum() - 1) > 1e-7:
                continue
            w = np.zeros(n)
            w[S] = np.maximum(sol, 0)
            v = 0.5 * w @ H @ w - f @ w
            if best is None or v < best[0]:
                best = (v, w)
    return best, H, f


def run(case, cx):
    import diff_diff as dd
    if "refuse" in case:
        return refuse(case["refuse"], cx, dd)
    if case.get("kind") == "fn":
        return fn(case, cx)
    nc, nt, T, lab = case["nc"], case["nt"], case["T"], case["lab"]
    df, y, x, treated = build(nc, nt, case["where"], T, case["seed"], lab, case["mode"], case["level"], case["spread"])
    if case["post"] is None:
        post = list(range(T // 2, T))
        arg = None
    else:
        post = list(case["post"])
        arg = [TLAB[lab](t) for t in (post[::-1] if case["order"] else post)]
    pre = [t for t in range(T) if t not in post]
    lam, zeta = LAM[case["lam"]], ZETA[case["zeta"]]
    before = df.copy(deep=True)
    est = dd.SyntheticDiD(lambda_reg=lam, zeta=zeta, variance_method="placebo", n_bootstrap=3, seed=1, alpha=0.1)
    r = cx.op(est.fit, df, outcome="y", treatment="tr", unit="unit", time="time", post_periods=arg, covariates=["x1"] if case["cov"] else None)
    cx.ok(M.frame_equal(df, before), "input frame was modified")
    N = nc + nt
    ctrl = [i for i in range(N) if i not in treated]
    cx.same(sorted(map(str, r.unit_weights)), sorted(str(ULAB[lab](i)) for i in ctrl), "weighted control units")
    cx.same(sorted(map(str, r.time_weights)), sorted(str(TLAB[lab](t)) for t in pre), "weighted pre-periods")
    cx.same((r.n_obs, r.n_treated, r.n_control), (N * T, nt, nc), "counts")
    cx.same([str(p) for p in r.pre_periods], [str(TLAB[lab](t)) for t in pre], "pre-periods")
    cx.same(sorted(str(p) for p in r.post_periods), sorted(str(TLAB[lab](t)) for t in post), "post-periods")
    try:
        w = np.array([r.unit_weights[ULAB[lab](i)] for i in ctrl], float)
        v = np.array([r.time_weights[TLAB[lab](t)] for t in pre], float)
    except KeyError as e:
        cx.bad("weight missing for %s" % e)
        return
    cx.ok(w.min() >= 0 and abs(w.sum() - 1) < 1e-9, "unit weights on the simplex", w=w)
    cx.ok(v.min() >= 0 and abs(v.sum() - 1) < 1e-9, "time weights on the simplex", v=v)
    Z = y
    if case["cov"]:
        Xf = np.array([[1.0, x[i, t]] + [1.0 * (i == j) for j in range(1, N)] + [1.0 * (t == s) for s in range(1, T)] for i in range(N) for t in range(T)])
        b = np.linalg.lstsq(Xf, y.ravel(), rcond=None)[0]
        Z = (y.ravel() - Xf @ b + y.mean()).reshape(N, T)
        if N * T <= Xf.shape[1]:
            return
    tb = Z[treated].mean(axis=0)
    did = lambda row: row[post].mean() - v @ row[pre]
    want = did(tb) - sum(wi * did(Z[i]) for wi, i in zip(w, ctrl))
    cx.eq(r.att, want, "effect vs doubly-weighted difference in differences", atol=1e-8)
    fit = Z[ctrl][:, pre].T @ w
    cx.eq(r.pre_treatment_fit, math.sqrt(np.mean((tb[pre] - fit) ** 2)), "pre-treatment fit", atol=1e-8)
    Yc, yt = Z[ctrl][:, pre].T, tb[pre]
    m = Yc.mean(axis=1)
    best, H, f = qp(Yc - m[:, None], yt - m, lam)      # weights sum to one: period levels drop out
    crit = lambda q: 0.5 * q @ H @ q - f @ q
    val = crit(w)
    L = np.linalg.norm(H, 2)
    gap = 1e-6 * (crit(np.ones(nc) / nc) - best[0]) + 1e-9 * (L + np.abs(f).max())
    cx.ok(val <= best[0] + gap, "unit weights do not minimise the penalised fit", excess=val - best[0], allowed=gap, w=w, best=best[1])
    mu = np.linalg.eigvalsh(H)[0]
    if mu / L > 1e-3:
        cx.ok(np.abs(w - best[1]).max() < 1e-4, "unit weights vs exact optimum", w=w, best=best[1])
    # time weights favour periods where the treated mean is close to the control mean
    d = np.abs(yt - Yc.mean(axis=1))
    for p, q in itertools.permutations(range(len(pre)), 2):
        if d[p] + 1e-9 < d[q]:
            cx.ok(v[p] >= v[q] - 1e-12, "time weight of the better-matched period is smaller", d=d, v=v)
    M_rank = np.abs(v - 1 / len(v)).max()
    cx.saw(r.att, M_rank, w.max())
    fr = r.get_unit_weights_df()
    cx.eq(sorted(fr["weight"]), sorted(w), "exported unit weights", atol=1e-12)
    ft = r.get_time_weights_df()
    cx.eq(sorted(ft["weight"]), sorted(v), "exported time weights", atol=1e-12)


def refuse(k, cx, dd):
    df, y, x, treated = build(3, 1, 0, 4, 0, 0, 0)
    F = lambda d, **k2: dd.SyntheticDiD(n_bootstrap=5, seed=1, variance_method="placebo").fit(d, **{**dict(outcome="y", treatment="tr", unit="unit", time="time", post_periods=[2, 3]), **k2})
    cell = df.copy()
    cell.loc[1, "y"] = np.nan
    within = df.assign(tr=((df.tr == 1) & (df.time >= 2)).astype(int))
    T = [lambda: F(df, unit="zz"), lambda: F(df, time="zz"), lambda: F(df, treatment="zz"), lambda: F(df, outcome="zz"), lambda: F(df, covariates=["zz"]),
         lambda: F(df.assign(tr=0)), lambda: F(df.assign(tr=1)), lambda: F(df, post_periods=[]), lambda: F(df, post_periods=[0, 1, 2, 3]), lambda: F(df, post_periods=[9]),
         lambda: F(df.drop(index=5)), lambda: F(within.iloc[::-1]), lambda: F(df[df.time == 0], post_periods=None)]
    cx.raises("invalid call %d" % k, (ValueError, KeyError), T[k])
    cx.saw(k)


def fn(c, cx):
    """Array-level helpers: each control in turn as the treated unit, with weights refitted on the others."""
    from diff_diff import utils as U
    nc, npre, npost, s = c["nc"], c["npre"], c["npost"], c["seed"]
    Y = M.gen((npre + npost) * nc, 500 + s).reshape(npre + npost, nc) * 2 + 3 * M.gen(nc, 17 + s)[None, :]
    pre, post = Y[:npre], Y[npre:]
    v = np.abs(M.gen(npre, 19 + s)) + 0.1
    v /= v.sum()
    args = (pre.copy(), post.copy(), M.gen(npre, 23), np.ones(nc) / nc, v.copy(), list("abcdef"[:nc]))
    got = cx.op(U.compute_placebo_effects, *args, **({} if c["n_placebo"] is None else dict(n_placebo=c["n_placebo"])))
    k = nc if c["n_placebo"] is None else min(c["n_placebo"], nc)
    cx.same(len(got), k if nc > 1 else 0, "one effect per placebo unit")
    cx.ok(np.array_equal(args[0], pre) and np.array_equal(args[1], post), "inputs modified")
    for j, e in enumerate(got):
        rest = [i for i in range(nc) if i != j]
        m = pre[:, rest].mean(axis=1)
        A = pre[:, rest] - m[:, None]
        w = qp(A, pre[:, j] - m, 0.0)[0][1]
        if len(rest) > 1 and np.sort(np.linalg.svd(np.vstack([A, np.ones(len(rest))]), compute_uv=False))[0] < 0.2:
            continue        # several optima
        d = lambda a, b: np.mean(b) - v @ a
        cx.eq(e, d(pre[:, j], post[:, j]) - sum(wi * d(pre[:, i], post[:, i]) for wi, i in zip(w, rest)), "placebo effect of a control", rtol=1e-4, atol=1e-3)
        cx.saw(e)
    e = cx.op(U.compute_sdid_estimator, pre, post, args[2], np.full(npost, 2.0), np.ones(nc) / nc, v)
    cx.eq(e, (2.0 - v @ args[2]) - np.mean([post[:, i].mean() - v @ pre[:, i] for i in range(nc)]), "estimator on arrays", atol=1e-9)
    tw = cx.op(U.compute_time_weights, pre, args[2])
    cx.ok(tw.min() >= 0 and abs(tw.sum() - 1) < 1e-9 and len(tw) == npre, "time weights on the simplex", v=tw)
