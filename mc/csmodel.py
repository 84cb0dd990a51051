"""Reference model of cohort-time effects and their aggregation."""
from .core import np, pd
from . import models as M


def panel(coh, periods, seed=1, missing=(), never="zero", lab=0, mode=0, effect=True, names=None, xcov=0):
    """Long frame + outcome dict. coh: cohort per unit (0 = never)."""
    N, T = len(coh), len(periods)
    y = M.gen(N * T, 50 + seed).reshape(N, T) * 2
    ul = [lambda i: i, lambda i: "u%s" % "qwertyuiopasdfg"[i], lambda i: 1000 - 13 * i, lambda i: i * 2 + 7][lab]
    rows, Y = [], {}
    for i in range(N):
        for j, t in enumerate(periods):
            v = round(float(y[i, j] + 3 * i + j * j + (2.5 + 0.5 * (t - coh[i]) if coh[i] and t >= coh[i] and effect else 0)), 4)
            if (i * T + j) in missing:
                continue
            Y[i, t] = v
            ft = float(coh[i])
            if coh[i] == 0:
                ft = {"zero": 0.0, "inf": np.inf, "mixed": (0.0, np.inf)[i % 2]}[never]
            rows.append((ul(i), t, v, ft))
    df = pd.DataFrame(rows, columns=["unit", "time", "y", "ft"])
    if never == "zero" and lab % 2 == 0 and (df["ft"] % 1 == 0).all():
        df["ft"] = df["ft"].astype(int)
    df["x1"] = [round(float(v), 3) for v in M.gen(len(df), 70 + seed)]
    if names:
        df = df.rename(columns=names)
    return M.present(df, mode), Y, ul


def att_gt(coh, periods, Y, base="varying", control="never_treated", a=0):
    N = len(coh)
    out = {}
    for g in sorted({c for c in coh if c > 0}):
        for t in periods:
            if base == "universal":
                b = g - 1 - a
                if t == b:
                    continue
            elif t >= g - a:
                b = g - 1 - a
            else:
                b = t - 1
            if b not in periods:
                continue
            ok = [i for i in range(N) if (i, t) in Y and (i, b) in Y]
            tr = [i for i in ok if coh[i] == g]
            if control == "never_treated":
                co = [i for i in ok if coh[i] == 0]
            else:
                co = [i for i in ok if coh[i] == 0 or (coh[i] != g and coh[i] > max(t, b))]
            if not tr or not co:
                continue
            d = {i: Y[i, t] - Y[i, b] for i in ok}
            mt = np.mean([d[i] for i in tr])
            mc = np.mean([d[i] for i in co])
            vt = np.var([d[i] for i in tr], ddof=1) if len(tr) > 1 else 0.0
            vc = np.var([d[i] for i in co], ddof=1) if len(co) > 1 else 0.0
            psi = np.zeros(N)
            for i in tr:
                psi[i] += (d[i] - mt) / len(tr)
            for i in co:
                psi[i] -= (d[i] - mc) / len(co)
            out[g, t] = dict(effect=mt - mc, se=np.sqrt(vt / len(tr) + vc / len(co)), nt=len(tr), nc=len(co), psi=psi,
                             units=set(tr) | set(co))
    return out


def agg_simple(gt, coh, a=0):
    keys = [k for k in gt if k[1] >= k[0] - a]
    if not keys:
        return np.nan, np.nan
    w = np.array([gt[k]["nt"] for k in keys], float)
    w /= w.sum()
    eff = np.array([gt[k]["effect"] for k in keys])
    att = float(w @ eff)
    units = sorted(set().union(*[gt[k]["units"] for k in keys]))
    n = len(units)
    psi = sum(wi * gt[k]["psi"] for wi, k in zip(w, keys))[units]
    # estimated weights: p_g = n_g / n for every kept pair
    pg = np.array([sum(1 for c in coh if c == k[0]) / n for k in keys])
    S = pg.sum()
    for pos, i in enumerate(units):
        ind = np.array([float(coh[i] == k[0]) for k in keys])
        wif = (ind - pg) / S - (ind - pg).sum() * pg / S ** 2
        psi[pos] += wif @ eff / n
    return att, float(np.sqrt((psi ** 2).sum()))


def agg_event(gt, a=0, base="varying", balance=None):
    keep = {g for g, t in gt if balance is not None and t - g == balance}
    by = {}
    for (g, t) in gt:
        if balance is None or g in keep:
            by.setdefault(t - g, []).append((g, t))
    out = {}
    for e, ks in by.items():
        w = np.array([gt[k]["nt"] for k in ks], float)
        w /= w.sum()
        psi = sum(wi * gt[k]["psi"] for wi, k in zip(w, ks))
        out[e] = dict(effect=float(sum(wi * gt[k]["effect"] for wi, k in zip(w, ks))), se=float(np.sqrt((psi ** 2).sum())),
                      n=len(ks), keys=ks, w=w)
    if base == "universal" and out and (-1 - a) not in out:
        out[-1 - a] = dict(effect=0.0, se=np.nan, n=0, keys=[], w=np.array([]))
    return out


def agg_group(gt, a=0):
    out = {}
    for g in sorted({k[0] for k in gt}):
        ks = [k for k in gt if k[0] == g and k[1] >= g - a]
        if not ks:
            continue
        w = np.ones(len(ks)) / len(ks)
        psi = sum(wi * gt[k]["psi"] for wi, k in zip(w, ks))
        out[g] = dict(effect=float(np.mean([gt[k]["effect"] for k in ks])), se=float(np.sqrt((psi ** 2).sum())), n=len(ks),
                      keys=ks, w=w)
    return out


def logit(X, d):
    X = np.column_stack([np.ones(len(d)), X])
    b = np.zeros(X.shape[1])
    for _ in range(200):
        p = 1 / (1 + np.exp(-X @ b))
        H = X.T @ (X * (p * (1 - p))[:, None])
        try:
            st = np.linalg.solve(H, X.T @ (d - p))
        except np.linalg.LinAlgError:
            return p, b * np.inf       # separated data: no finite optimum
        if not np.isfinite(st).all() or np.abs(b).max() > 50:
            return p, b * np.inf
        b = b + st
        if np.abs(st).max() < 1e-13:
            break
    return 1 / (1 + np.exp(-X @ b)), b


def cov_att(dt, dc, Xt, Xc, method):
    nt, nc = len(dt), len(dc)
    Zt, Zc = np.column_stack([np.ones(nt), Xt]), np.column_stack([np.ones(nc), Xc])
    b = np.linalg.lstsq(Zc, dc, rcond=None)[0]
    if method == "reg":
        return float(np.mean(dt - Zt @ b))
    p, _ = logit(np.vstack([Xt, Xc]), np.r_[np.ones(nt), np.zeros(nc)])
    p = np.clip(p[nt:], 0.01, 0.99)
    w = p / (1 - p)
    if method == "ipw":
        return float(dt.mean() - (w @ dc) / w.sum())
    return float(np.mean(dt - Zt @ b) + (w @ (Zc @ b - dc)) / nt)


def cov_se(dt, dc, Xt, Xc, method):
    """The documented plug-in standard errors (first-step estimation error is not propagated)."""
    nt, nc = len(dt), len(dc)
    var = lambda v: float(np.var(v, ddof=1)) if len(v) > 1 else 0.0
    Zt, Zc = np.column_stack([np.ones(nt), Xt]), np.column_stack([np.ones(nc), Xc])
    b = np.linalg.lstsq(Zc, dc, rcond=None)[0]
    if method == "reg":
        return float(np.sqrt(var(dt - Zt @ b) / nt + var(dc - Zc @ b) / nc))
    p, _ = logit(np.vstack([Xt, Xc]), np.r_[np.ones(nt), np.zeros(nc)])
    p = np.clip(p[nt:], 0.01, 0.99)
    w = p / (1 - p)
    if method == "ipw":
        w = w / w.sum()
        return float(np.sqrt(var(dt) / nt + np.sum(w ** 2 * (dc - w @ dc) ** 2)))
    att = cov_att(dt, dc, Xt, Xc, method)
    return float(np.sqrt(np.sum(((dt - Zt @ b - att) / nt) ** 2) + np.sum((w * (Zc @ b - dc) / nt) ** 2)))
