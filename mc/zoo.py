"""Every entry point of the library with small canonical data: shared by the cross-cutting checks."""
import dataclasses
from .core import np, pd
from . import models as M

ROLES = ("y", "d", "post", "dp", "t", "u", "g", "x", "x2", "part", "cl", "fe")


class Entry:
    def __init__(self, name, make, args, kind, extra=None, init=None, rnd=False, post=None, boot=False):
        self.name, self.make, self.args, self.kind = name, make, args, kind
        self.extra, self.init, self.rnd, self.post = extra or {}, init or {}, rnd, post
        self.is_class = isinstance(make, str) and make[0].isupper()

    def kwargs(self, cols=None, extra=None):
        c = cols or {}
        k = {a: ([c.get(r, r) for r in v] if isinstance(v, (list, tuple)) else c.get(v, v)) for a, v in self.args.items()}
        k.update(self.extra)
        k.update(extra or {})
        return k

    def ini(self, cols=None, **over):
        c = cols or {}
        k = dict(self.init)
        if "cluster" in k:
            k["cluster"] = c.get(k["cluster"], k["cluster"])
        k.update(over)
        return k

    def new(self, dd, cols=None, **over):
        return getattr(dd, self.make)(**self.ini(cols, **over))

    def call(self, dd, df, cols=None, extra=None, **over):
        """Fit on df; the result object."""
        if self.is_class:
            r = self.new(dd, cols, **over).fit(df, **self.kwargs(cols, extra))
        else:
            k = self.kwargs(cols, extra)
            k.update(self.ini(cols))
            k.update({a: b for a, b in over.items()})
            f = getattr(dd, self.make) if isinstance(self.make, str) else self.make(dd)
            r = f(df, **k)
        return self.post(dd, r) if self.post else r


B2 = dict(outcome="y", treatment="d", time="post")
BT = dict(outcome="y", treatment="d", time="t")
SG = dict(outcome="y", unit="u", time="t", first_treat="g")
DD3 = dict(outcome="y", group="d", partition="part", time="post")
GRID = dict(lambda_time_grid=[0.0, 0.5], lambda_unit_grid=[0.0, 0.5], lambda_nn_grid=[1e6, 1.0], max_iter=15)


def entries():
    E = Entry
    L = [
        E("did", "DifferenceInDifferences", B2, "basic"),
        E("did-classical", "DifferenceInDifferences", B2, "basic", init=dict(robust=False)),
        E("did-cluster", "DifferenceInDifferences", B2, "basic", init=dict(cluster="u")),
        E("did-cov", "DifferenceInDifferences", dict(B2, covariates=["x", "x2"]), "basic"),
        E("did-fe", "DifferenceInDifferences", dict(B2, fixed_effects=["fe"]), "basic"),
        E("did-absorb", "DifferenceInDifferences", dict(B2, absorb=["u"]), "basic"),
        E("did-wild", "DifferenceInDifferences", B2, "basic", init=dict(cluster="u", inference="wild_bootstrap", n_bootstrap=25, seed=7), rnd=True),
        E("multi", "MultiPeriodDiD", BT, "basic"),
        E("multi-cluster-cov", "MultiPeriodDiD", dict(BT, covariates=["x"]), "basic", init=dict(cluster="u")),
        E("multi-classical-fe", "MultiPeriodDiD", dict(BT, fixed_effects=["fe"]), "basic", init=dict(robust=False)),
        E("multi-absorb", "MultiPeriodDiD", dict(BT, absorb=["u"]), "basic"),
        E("twfe", "TwoWayFixedEffects", dict(B2, unit="u"), "basic"),
        E("twfe-t-cov", "TwoWayFixedEffects", dict(outcome="y", treatment="dp", time="t", unit="u", covariates=["x"]), "basic"),
        E("twfe-wild", "TwoWayFixedEffects", dict(B2, unit="u"), "basic", init=dict(inference="wild_bootstrap", n_bootstrap=25, seed=7, bootstrap_weights="webb"), rnd=True),
        E("sdid-placebo", "SyntheticDiD", dict(BT, unit="u"), "basic", init=dict(variance_method="placebo", n_bootstrap=12, seed=7), rnd=True),
        E("sdid-boot-cov", "SyntheticDiD", dict(BT, unit="u", covariates=["x"]), "basic", init=dict(variance_method="bootstrap", n_bootstrap=12, seed=7), rnd=True),
        E("cs-dr", "CallawaySantAnna", SG, "stag", extra=dict(aggregate="all")),
        E("cs-reg-nyt", "CallawaySantAnna", SG, "stag", extra=dict(aggregate="all"), init=dict(estimation_method="reg", control_group="not_yet_treated", base_period="universal")),
        E("cs-ipw-cov", "CallawaySantAnna", dict(SG, covariates=["x"]), "stag", extra=dict(aggregate="event_study"), init=dict(estimation_method="ipw")),
        E("cs-dr-cov", "CallawaySantAnna", dict(SG, covariates=["x"]), "stag", extra=dict(aggregate="group"), init=dict(estimation_method="dr", anticipation=1)),
        E("cs-boot", "CallawaySantAnna", SG, "stag", extra=dict(aggregate="all"), init=dict(n_bootstrap=60, seed=7, bootstrap_weights="mammen"), rnd=True),
        E("sa", "SunAbraham", SG, "stag"),
        E("sa-nyt-cov", "SunAbraham", dict(SG, covariates=["x"]), "stag", init=dict(control_group="not_yet_treated", cluster="cl")),
        E("sa-boot", "SunAbraham", SG, "stag", init=dict(n_bootstrap=12, seed=7), rnd=True),
        E("bacon", "BaconDecomposition", SG, "stag"),
        E("bacon-exact", "BaconDecomposition", SG, "stag", init=dict(weights="exact")),
        E("ddd-dr", "TripleDifference", DD3, "ddd"),
        E("ddd-reg-cov", "TripleDifference", dict(DD3, covariates=["x"]), "ddd", init=dict(estimation_method="reg", robust=False)),
        E("ddd-ipw-cov", "TripleDifference", dict(DD3, covariates=["x"]), "ddd", init=dict(estimation_method="ipw", cluster="u")),
        E("ddd-dr-cov", "TripleDifference", dict(DD3, covariates=["x"]), "ddd", init=dict(estimation_method="dr")),
        E("trop", "TROP", dict(outcome="y", treatment="dp", unit="u", time="t"), "basic", init=dict(GRID, n_bootstrap=4, seed=7), rnd=True),
        E("trop-joint", "TROP", dict(outcome="y", treatment="dp", unit="u", time="t"), "basic", init=dict(GRID, method="joint", n_bootstrap=4, seed=7), rnd=True),
        E("f-bacon", "bacon_decompose", SG, "stag"),
        E("f-ddd", "triple_difference", DD3, "ddd", extra=dict(estimation_method="reg")),
        E("f-trop", "trop", dict(outcome="y", treatment="dp", unit="u", time="t"), "basic", extra=dict(GRID, n_bootstrap=4, seed=7), rnd=True),
        E("twfe-decompose", lambda dd: (lambda df, **k: dd.TwoWayFixedEffects().decompose(df, **k)), SG, "stag"),
        E("placebo-timing", "placebo_timing_test", BT, "basic", extra=dict(fake_treatment_period="@pre1")),
        E("placebo-group", "placebo_group_test", dict(outcome="y", time="t", unit="u", treatment="d"), "basic", extra=dict(fake_treated_units="@ctrl")),
        E("permutation", "permutation_test", dict(B2, unit="u"), "basic", extra=dict(n_permutations=15, seed=7), rnd=True),
        E("leave-one-out", "leave_one_out_test", dict(B2, unit="u"), "basic"),
        E("trend", lambda dd: dd.check_parallel_trends, dict(outcome="y", time="t", treatment_group="d"), "basic"),
        E("trend-robust", lambda dd: dd.check_parallel_trends_robust, dict(outcome="y", time="t", treatment_group="d", unit="u"), "basic", extra=dict(n_permutations=15, seed=7, pre_periods="@pre"), rnd=True),
        E("equivalence", lambda dd: dd.equivalence_test_trends, dict(outcome="y", time="t", treatment_group="d", unit="u"), "basic", extra=dict(pre_periods="@pre")),
        E("multi-honest", "MultiPeriodDiD", BT, "basic", post=lambda dd, r: dd.HonestDiD(M=0.7, alpha=r.alpha).sensitivity_analysis(r)),
        E("cs-honest", "CallawaySantAnna", SG, "stag", extra=dict(aggregate="event_study"), post=lambda dd, r: dd.HonestDiD(M=0.7, alpha=r.alpha).sensitivity_analysis(r)),
        E("cs-pretrends", "CallawaySantAnna", SG, "stag", extra=dict(aggregate="event_study"), post=lambda dd, r: dd.PreTrendsPower(alpha=r.alpha).fit(r)),
        E("sa-pretrends", "SunAbraham", SG, "stag", post=lambda dd, r: dd.PreTrendsPower(alpha=r.alpha).fit(r)),
    ]
    return L


ALL = entries()
BY = {e.name: e for e in ALL}


def frame(kind, seed=0, big=False):
    """Canonical data with every role as a column named after it."""
    rows = []
    if kind == "stag":
        n, T = 12, 6
        gs = [0, 3, 4, 0, 3, 5, 0, 4, 3, 0, 5, 4]
    elif kind == "ddd":
        n, T = 20, 2
        gs = [2 if i % 2 else 0 for i in range(n)]
    else:
        n, T = 9, 5
        gs = [4 if i in (1, 3, 4, 7) else 0 for i in range(n)]
    y = M.gen(n * T, 500 + 7 * seed).reshape(n, T)
    x = M.gen(n * T, 900 + 5 * seed).reshape(n, T)
    z = M.gen(n * T, 1300 + 3 * seed).reshape(n, T)
    for i in range(n):
        for t in range(1, T + 1):
            g = gs[i]
            D = int(g > 0)
            post = int(t >= (4 if kind == "basic" else 2 if kind == "ddd" else 4))
            rows.append(dict(y=y[i, t - 1] + 0.3 * x[i, t - 1] + 0.5 * i + 0.4 * t + 1.5 * (D and t >= g) + 0.7 * ((i // 2) % 2) * post, d=D, post=post, dp=D * post, t=t, u=101 + i, g=g,
                             x=x[i, t - 1], x2=z[i, t - 1], part=(i // 2) % 2, cl=i // 2, fe=i % 3))
    return pd.DataFrame(rows)


def fill(e, df, cols=None):
    """Arguments that depend on the data (labels)."""
    c = cols or {}
    t, u, d = c.get("t", "t"), c.get("u", "u"), c.get("d", "d")
    ex = {}
    for k, v in e.extra.items():
        if isinstance(v, str) and v.startswith("@"):
            per = sorted(df[t].unique())
            ex[k] = {"@pre1": lambda: per[1], "@pre": lambda: per[:3], "@ctrl": lambda: sorted(df.loc[~df[d].astype(bool), u].unique())[:2]}[v]()
    return ex


LAB = {}          # relabelled value -> canonical value, while flattening


def norm_key(k):
    if LAB:
        try:
            if k in LAB:
                return LAB[k]
        except TypeError:
            pass
    if isinstance(k, (bool, np.bool_)):
        return int(k)
    if isinstance(k, (int, np.integer)):
        return int(k)
    if isinstance(k, (float, np.floating)):
        return int(k) if float(k).is_integer() else float(k)
    if isinstance(k, tuple):
        return tuple(norm_key(q) for q in k)
    return str(k) if not isinstance(k, str) else k


def flat(o, path="", out=None, seen=0):
    """{path: number or text} of everything a result reports."""
    if out is None:
        out = {}
    if seen > 7:
        return out
    if LAB and path.endswith(".period"):
        o = norm_key(o)
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        for f in dataclasses.fields(o):
            if f.name not in ("original_results",):
                flat(getattr(o, f.name), path + "." + f.name, out, seen + 1)
    elif isinstance(o, dict):
        for k in o:
            flat(o[k], path + "[%r]" % (norm_key(k),), out, seen + 1)
    elif isinstance(o, pd.DataFrame):
        flat(o.to_dict("list"), path, out, seen + 1)
    elif isinstance(o, pd.Series):
        flat(o.to_dict(), path, out, seen + 1)
    elif isinstance(o, np.ndarray):
        out[path] = o.astype(float).copy() if o.dtype.kind in "iufb" else [norm_key(q) for q in o.ravel()]
    elif isinstance(o, (list, tuple, set, frozenset)):
        if isinstance(o, (set, frozenset)):
            o = sorted(o, key=str)
        if LAB:
            o = [norm_key(q) if not (dataclasses.is_dataclass(q) or isinstance(q, (dict, list, tuple, np.ndarray))) else q for q in o]
        if all(isinstance(q, (int, float, np.number, bool, np.bool_)) for q in o):
            out[path] = np.array([float(q) for q in o])
        else:
            for i, q in enumerate(o):
                flat(q, path + "[%d]" % i, out, seen + 1)
    elif isinstance(o, (bool, np.bool_)):
        out[path] = bool(o)
    elif isinstance(o, (int, float, np.number)):
        out[path] = float(o)
    elif o is None or isinstance(o, str):
        out[path] = o
    else:
        out[path] = norm_key(o) if not hasattr(o, "__dict__") else None
    return out


def diff(a, b, rtol=1e-8, atol=1e-9, skip=()):
    """First disagreement between two flattened results, or None."""
    ka = [k for k in a if not any(s in k for s in skip)]
    kb = [k for k in b if not any(s in k for s in skip)]
    if set(ka) != set(kb):
        return "different entries: %s" % sorted(set(ka) ^ set(kb))[:4]
    for k in ka:
        p, q = a[k], b[k]
        if isinstance(p, np.ndarray) or isinstance(q, np.ndarray):
            p, q = np.asarray(p), np.asarray(q)
            if p.shape != q.shape:
                return "%s: shape %s / %s" % (k, p.shape, q.shape)
            if p.dtype.kind == "f" and q.dtype.kind == "f":
                if not np.allclose(p, q, rtol=rtol, atol=atol, equal_nan=True):
                    return "%s: %s / %s" % (k, p.ravel()[:6], q.ravel()[:6])
            elif not np.array_equal(p, q):
                return "%s: %s / %s" % (k, p, q)
        elif isinstance(p, float) and isinstance(q, float):
            if not ((p != p and q != q) or p == q or abs(p - q) <= atol + rtol * abs(q)):
                return "%s: %r / %r" % (k, p, q)
        elif p != q:
            return "%s: %r / %r" % (k, p, q)
    return None
