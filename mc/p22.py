"""P22: results do not depend on how the same data is presented."""
import contextlib
import itertools
from .core import np, pd, isnan
from . import models as M
from . import zoo

PROPERTY = "P22"
RULE = ("one case = one entry point x one base data set x one presentation (row order, index, extra columns, column names including every internal working name, unit / period / group labels, numeric and boolean types): "
        "the full result is compared field by field with the canonical presentation, the caller's frame with its copy; plus every required column missing in turn")
ASSUMPTIONS = ["order-preserving relabelling (ties and resampling draws follow the sorted labels)", "floating-point noise below 1e-7 relative is not judged", "column names are strings, as annotated; the columns passed to a call do not start with an underscore (names the library uses for working columns), ignored columns may; no regressor is named const or period_<label>, no unit column first_treat"]
CHUNK = 3
NASTY = ["_never_treated", "_rel_time", "first_treat", "_treatment_post", "_post", "_fake_post", "_fake_treated", "_perm_treatment", "_outcome_change", "y_demeaned", "y_dm", "y_within", "treat_post",
         "const", "Intercept", "index", "level_0", "variable", "value", "unit", "time", "treatment", "cohort", "period_2", "treated", "outcome", "_tmp", "x", "y", "size", "T", "values", "shape", "count"]
PUBLIC = [c for c in NASTY if not c.startswith("_") and c not in ("const", "Intercept", "period_2")]
SPACED = {r: "%s %s?" % (r, "zyx"[i % 3]) for i, r in enumerate(zoo.ROLES)}
SWAP = dict(y="treatment", d="outcome", post="unit", dp="time", t="post", u="t", g="u", x="d", x2="g", part="y", cl="x", fe="cl")
SLOW = ("trop", "trop-joint", "f-trop", "sdid-boot-cov")
TLABEL = ("multi", "sdid", "placebo", "trop", "f-trop", "trend-robust", "equivalence")


def n_rot(e, tier):
    return len(PUBLIC) if e.name not in SLOW and tier == "thorough" else 12 if e.name not in SLOW else 3


def cases(tier):
    big = tier == "thorough"
    for e in zoo.ALL:
        slow = e.name in SLOW
        for s in range((3 if not slow else 1) if big else 1):
            P = [("row", k) for k in range(12 if big else 6)] + [("idx", k) for k in range(6)] + [("extra", k) for k in range(3)]
            P += [("name", k) for k in range(-2, n_rot(e, tier))]
            P += [("unit", k) for k in range(9)] + [("type", k) for k in range(12)] + [("time", k) for k in range(6)] + [("group", k) for k in range(5)] + [("missing", 0)]
            for kind, k in P:
                if slow and not big and kind in ("row", "idx", "extra", "unit", "type", "time") and k not in (0, 1, 2, 5):
                    continue
                if kind == "time" and not any(e.name.startswith(z) for z in TLABEL):
                    continue
                if kind == "name" and k >= 0 and PUBLIC[(k + zoo.ROLES.index("u")) % len(PUBLIC)] == "first_treat":
                    continue        # the unit column itself: see ASSUMPTIONS
                if kind == "group" and not ("fe" in e.name or "cl" in str(e.init)):
                    continue
                yield dict(e=e.name, s=s, p=kind, k=k)


_BASE = {}


def base(e, s, whole=False):
    df = zoo.frame(e.kind, seed=s)
    if whole:
        for c in ("y", "x", "x2"):
            v = (df[c] * 4).round()
            df[c] = (v - v.min()).clip(upper=120).astype("int64")
        return df
    df["y"] = (df.y * 64).round() / 64          # exact in single precision
    df["x"] = (df.x * 64).round() / 64
    df["x2"] = (df.x2 * 64).round() / 64
    return df


def perm(n, k):
    if k == 0:
        return list(range(n))[::-1]
    if k == 1:
        return list(range(0, n, 2)) + list(range(1, n, 2))
    if k == 2:
        return list(range(n // 3, n)) + list(range(n // 3))
    return sorted(range(n), key=lambda i: ((i * (7919 + 2 * k) + 13 * k) % 10007, i))


UNITS = [lambda i: "u%03d" % i, lambda i: float(i) + 0.5, lambda i: i - 1000, lambda i: 2 ** 53 + i, lambda i: pd.Timestamp("2001-01-01") + pd.Timedelta(days=i), lambda i: "ü %03d/" % i,
         lambda i: np.int16(i), lambda i: i * 1000, lambda i: i]
TIMES = [lambda t: "p%d" % t, lambda t: 2000 + 3 * t, lambda t: pd.Timestamp("2010-01-01") + pd.DateOffset(years=int(t)), lambda t: t - 3, lambda t: t / 2, lambda t: t]


def put(df, e, p, k):
    """The presented frame, its column renaming and the label map back."""
    d = df.copy()
    n = len(d)
    cols, back = {}, {}
    if p == "row":
        d = d.iloc[perm(n, k)].copy()
        if k % 2:
            d = d.reset_index(drop=True)
    elif p == "idx":
        d.index = [pd.Index([0] * n), pd.Index(["r%d" % (n - i) for i in range(n)]), pd.Index([(i * 5) % (n + 3) for i in range(n)]),
                   pd.MultiIndex.from_arrays([d.u, d.t], names=["uu", "tt"]), pd.date_range("2020-01-01", periods=n, freq="D", name="y"), pd.Index(np.arange(n)[::-1] + 0.5, name="d")][k]
    elif p == "extra":
        if k == 0:
            for c in NASTY:
                if c not in d:
                    d[c] = np.nan
        elif k == 1:
            for j, c in enumerate(NASTY):
                if c not in d:
                    d[c] = ["s%d" % ((i * 3 + j) % 4) for i in range(n)]
            d = d[sorted(d.columns, reverse=True)]
        else:
            for j, c in enumerate(NASTY):
                if c not in d:
                    d[c] = [float((i * 7 + j) % 5) for i in range(n)]
            d["zz"] = [[i] for i in range(n)]
    elif p == "name":
        if k == -1:
            cols = dict(SPACED)
        elif k == -2:
            cols = dict(SWAP)
        else:
            cols = {r: PUBLIC[(k + i) % len(PUBLIC)] for i, r in enumerate(zoo.ROLES)}
        d = d.rename(columns=cols)
    elif p == "unit":
        lab = {i: UNITS[k](i) for i in sorted(d.u.unique())}
        d["u"] = d.u.map(lab)
        if k == 8:
            d["u"] = d.u.astype("category")
        back = {v: int(i) for i, v in lab.items()}
    elif p == "time":
        lab = {t: TIMES[k](t) for t in sorted(d.t.unique())}
        d["t"] = d.t.map(lab)
        if k == 5:
            d["t"] = pd.Categorical(d.t, ordered=True)
        back = {v: int(i) for i, v in lab.items()}
    elif p == "group":
        for c in ("fe", "cl"):
            lab = {i: ["g%02d" % i, i - 7, i + 0.25, 2 ** 53 + i, i][k] for i in sorted(d[c].unique())}
            d[c] = d[c].map(lab)
            if k == 4:
                d[c] = d[c].astype("category")
    elif p == "type":
        ints = ["d", "post", "dp", "part"]
        big = ["t", "u", "g", "cl", "fe"]
        fl = ["y", "x", "x2"]
        if k == 0:
            for c in ints:
                d[c] = d[c].astype(bool)
        elif k == 1:
            for c in ints + big:
                d[c] = d[c].astype(float)
        elif k == 2:
            for c in ints:
                d[c] = d[c].astype("uint8")
            for c in ("t", "g", "cl", "fe"):
                d[c] = d[c].astype("int8")
        elif k == 3:
            for c in fl:
                d[c] = d[c].astype("float32")
        elif k == 4:
            for c in ints + big:
                d[c] = d[c].astype("Int64")
        elif k == 5:
            for c in ints:
                d[c] = d[c].astype("boolean")
        elif k == 6:
            for c in fl:
                d[c] = d[c].astype("Float64")
        elif k == 7:
            for c in ("t", "g"):
                d[c] = d[c].astype("uint8")
            for c in ints:
                d[c] = d[c].astype("int8")
        elif k == 8:
            for c in ints + ["t", "g", "cl", "fe", "u"]:
                d[c] = d[c].astype("uint64")
        else:
            for c in fl:
                d[c] = d[c].astype(["uint8", "int8", "UInt16"][k - 9])
    return d, cols, back


@contextlib.contextmanager
def labels(back):
    zoo.LAB.clear()
    zoo.LAB.update(back)
    try:
        yield
    finally:
        zoo.LAB.clear()


def reference(e, s, cx, whole):
    import diff_diff as dd
    key = (e.name, s, whole)
    if key not in _BASE:
        df = base(e, s, whole)
        _BASE[key] = zoo.flat(cx.op(e.call, dd, df, extra=zoo.fill(e, df)))
    return _BASE[key]


def names_of(e):
    out = [v for v in e.args.values() if isinstance(v, str)] + [z for v in e.args.values() if isinstance(v, list) for z in v]
    return out + ([e.init["cluster"]] if "cluster" in e.init else [])


def run(c, cx):
    import diff_diff as dd
    e = zoo.BY[c["e"]]
    whole = c["p"] == "type" and c["k"] >= 9
    df = base(e, c["s"], whole)
    if c["p"] == "missing":
        for col in names_of(e):
            d = df.drop(columns=[col])
            r, exc = cx.attempt(e.call, dd, d, extra=zoo.fill(e, df))
            cx.ok(isinstance(exc, (ValueError, KeyError)) and col in str(exc), "missing column %r must be refused with an error naming it: %s: %s" % (col, type(exc).__name__, exc))
        cx.saw(c["e"])
        return
    want = reference(e, c["s"], cx, whole)
    d, cols, back = put(df, e, c["p"], c["k"])
    before = d.copy(deep=True)
    r = cx.op(e.call, dd, d, cols=cols, extra=zoo.fill(e, d, cols))
    with labels(back):
        got = zoo.flat(r)
    cx.ok(M.frame_equal(d, before), "the caller's frame was modified")
    skip = []
    if c["p"] in ("name", "group", "time", "unit"):
        skip += [".coefficients", ".fake_"]
    if c["p"] in ("row",):
        skip += [".residuals", ".fitted_values"]
    if c["p"] == "type" and c["k"] == 1 or c["p"] == "group":
        skip += [".coefficients"]
    loose = c["p"] == "type" and c["k"] == 3          # single precision arithmetic
    dif = zoo.diff(got, want, rtol=1e-3 if loose else 1e-6, atol=1e-4 if loose else 1e-8, skip=tuple(skip))
    cx.ok(dif is None, "%s presentation %s changes the result: %s" % (c["p"], c["k"], dif))
    cx.saw(c["e"], len(got))
