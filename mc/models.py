"""Reference models: deliberately plain re-derivations used as oracles."""
import itertools
import math
from .core import np, pd, isnan
from scipy import stats


def gen(n, k=1, lo=-3.0, hi=3.0):
    """n fixed 'generic' reals (3 decimals): a tiny LCG, so no structure of the library's generators."""
    out, s = [], (k * 2654435761 + 12345) % 2147483647
    for _ in range(4):
        s = (s * 48271) % 2147483647
    for _ in range(n):
        s = (s * 48271) % 2147483647
        out.append(round(lo + (hi - lo) * s / 2147483647, 3))
    return np.array(out)


def partitions(n):
    """All set partitions of n items as restricted growth strings."""
    def rec(i, cur, m):
        if i == n:
            yield tuple(cur)
            return
        for v in range(m + 1):
            yield from rec(i + 1, cur + [v], max(m, v + 1))
    yield from rec(0, [], 0)


def labels(kind):
    return {0: lambda c: c, 1: lambda c: "g%s" % "zyxwvutsrq"[c], 2: lambda c: 1000 - 37 * c, 3: lambda c: c + 0.5, 4: lambda c: c * c + 4 * (c > 0), 5: lambda c: -5 + 2 * c,
            6: lambda c: float(c * 3), 7: lambda c: "%d" % (9 + c), 8: lambda c: [3, "b", 1.5, "3", (), -2, None][c] if c != 4 else "zz"}[kind]


def ols(X, y, cl=None, kind="hc1"):
    X = np.asarray(X, float)
    y = np.asarray(y, float)
    n, k = X.shape
    b, *_ = np.linalg.lstsq(X, y, rcond=None)
    u = y - X @ b
    A = np.linalg.pinv(X.T @ X)
    V = None
    if n > k:
        if cl is not None:
            groups = {}
            for i, c in enumerate(cl):
                groups.setdefault(c, []).append(i)
            G = len(groups)
            m = np.zeros((k, k))
            for idx in groups.values():
                s = X[idx].T @ u[idx]
                m += np.outer(s, s)
            V = A @ m @ A * (G / (G - 1)) * ((n - 1) / (n - k)) if G > 1 else None
        elif kind == "hc1":
            m = sum(np.outer(X[i], X[i]) * u[i] ** 2 for i in range(n))
            V = A @ m @ A * n / (n - k)
        else:
            V = A * (u @ u) / (n - k)
    return b, V, u


def fullcols(X, tol=1e-9):
    """Greedy left-to-right maximal independent set of columns."""
    keep = []
    for j in range(X.shape[1]):
        if np.linalg.matrix_rank(X[:, keep + [j]], tol=tol * max(1.0, np.abs(X).max()) * X.shape[0]) == len(keep) + 1:
            keep.append(j)
    return keep


def crit(alpha, df):
    return stats.norm.ppf(1 - alpha / 2) if df is None or df <= 0 else stats.t.ppf(1 - alpha / 2, df)


def pval(t, df):
    return 2 * (stats.norm.sf(abs(t)) if df is None or df <= 0 else stats.t.sf(abs(t), df))


def check_inference(cx, eff, se, t, p, ci, alpha, df, tag, rtol=1e-7, scale=1.0):
    """Coherence of one record. Degenerate standard errors must not look like evidence."""
    if eff is None or isnan(eff) or se is None or isnan(se) or not np.isfinite(se) or se < 0:
        bad = [x for x in (t, p) if x is not None and not isnan(x)]
        cx.ok(not bad, "%s: unusable standard error but finite statistic / p-value" % tag, eff=eff, se=se, t=t, p=p, ci=ci)
        return
    if se <= 1e-12 * max(1.0, abs(eff), scale):
        return          # numerically exact fit: the verdict is decided elsewhere
    cx.eq(t, eff / se, tag + ": t statistic", rtol=rtol)
    if df == "any":
        return
    cx.eq(p, pval(eff / se, df), tag + ": p-value", rtol=1e-6, atol=1e-12, t=t, df=df)
    c = crit(alpha, df) * se
    cx.eq(list(ci), [eff - c, eff + c], tag + ": interval", rtol=1e-7, atol=1e-10 + 1e-9 * abs(eff), alpha=alpha, df=df)


def stars(p):
    if isnan(p):
        return ""
    return "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""


stars_reg = stars


# --- panels ----------------------------------------------------------
def present(df, mode):
    """The same data in another presentation. mode 0 = as is."""
    df = df.copy()
    n = len(df)
    mode = mode % 6
    if mode == 1:
        return df.iloc[::-1].copy()
    if mode == 2:
        perm = sorted(range(n), key=lambda i: (i * 7919 + 13) % 101 * 1000 + i)
        d = df.iloc[perm].copy()
        d.index = ["r%d" % i for i in perm]
        return d
    if mode == 3:
        df.index = [0] * n
        return df
    if mode == 4:
        df["zz_extra"] = np.nan
        return df[list(df.columns)[::-1]]
    if mode == 5:
        perm = sorted(range(n), key=lambda i: (i * 31 + 5) % 17 * 1000 - i)
        d = df.iloc[perm].copy()
        d.index = [(i * 5) % (n + 3) for i in range(n)]
        return d
    return df


def dummies(codes, drop_first=False):
    lv = sorted(set(codes))
    if drop_first:
        lv = lv[1:]
    return np.array([[1.0 if c == l else 0.0 for l in lv] for c in codes]).reshape(len(codes), len(lv))


def frame_equal(a, b):
    try:
        pd.testing.assert_frame_equal(a, b, check_exact=True)
        return True
    except AssertionError:
        return False
