"""P24: data preparation helpers implement their documented row-level meaning."""
import itertools
import math
import warnings
from .core import np, pd, isnan
from . import models as M
from .p11 import qp

PROPERTY = "P24"
RULE = ("one case = helper x small frame (every pattern of missing rows of a unit x period grid, every set of selected values, every cell count table, column types, label types, row orders, duplicated row index) "
        "x every option of the helper; the returned frame or report is compared row by row with a model written in plain Python")
ASSUMPTIONS = ["frames of at most 16 rows (5 units and 4 periods when ranking controls)", "unit and period columns have no missing values"]
MIN_OUTCOMES = 20

COLS = {
    "int": [3, 1, 2, 1], "float": [1.5, float("nan"), 2.5, 1.5], "str": ["b", "a", "ab", "a"], "bool": [True, False, True, False], "cat": ["b", "a", "c", "a"], "ocat": [2, 1, 3, 1],
    "stamp": ["2020-06-01 18:30", "2020-06-01 00:00", "2021-01-01 06:00", "2020-06-01 18:30"], "date": ["2020-06-01", "2020-01-01", "2021-01-01", "2020-01-01"], "mixed": [1, "1", None, 2.5], "Int64": [3, 1, 2, 1], "neg": [-1, 0, -1, 5], "period": ["2020-06", "2020-01", "2021-01", "2020-01"], "inf": [float("inf"), 1.0, float("-inf"), 1.0],
}
INDEX = [lambda d: d, lambda d: d.set_axis([7] * len(d)), lambda d: d.iloc[::-1], lambda d: d.set_axis(["r%d" % (i % 2) for i in range(len(d))])]


def column(kind):
    v = COLS[kind]
    if kind == "cat":
        return pd.Categorical(v)
    if kind == "ocat":
        return pd.Categorical(v, categories=[1, 2, 3], ordered=True)
    if kind in ("date", "stamp"):
        return pd.to_datetime(v)
    if kind == "period":
        return pd.PeriodIndex(v, freq="M")
    if kind == "Int64":
        return pd.array(v, dtype="Int64")
    if kind == "mixed":
        return pd.Series(v, dtype=object)
    return v


CONT = {"scalar": lambda v: v[0], "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "array": lambda v: np.array(v, dtype=object) if len({type(x) for x in v}) > 1 else np.array(v), "series": lambda v: pd.Series(v, dtype=object if None in v else None),
        "index": lambda v: pd.Index(v, dtype=object if None in v else None), "keys": lambda v: {x: 0 for x in v}.keys(), "gen": lambda v: (x for x in v), "rev": lambda v: list(v)[::-1] + list(v)[:1]}
NAMES = ("treated", "old", "c", "a b")


def cases(tier):
    big = tier == "thorough"
    i = 0
    for kind in COLS:
        vals = []
        for v in COLS[kind]:
            if not any(v == w or (isnan(v) and isnan(w)) for w in vals):
                vals.append(v)
        for sel in itertools.chain(*[itertools.combinations(range(len(vals)), r) for r in range(1, len(vals) + 1)]):
            for cont in CONT:
                if cont == "scalar" and len(sel) > 1:
                    continue
                for which in ("treat", "post"):
                    for new in (range(4) if big else [i % 4]):
                        for ix in (range(4) if big else [i // 4 % 4]):
                            i += 1
                            yield dict(kind="in", col=kind, sel=list(sel), cont=cont, which=which, new=new, ix=ix)
        for j in range(len(vals)):
            for mode in ("above", "below", "start"):
                for d in (0, -1, 1):
                    i += 1
                    yield dict(kind="cut", col=kind, j=j, mode=mode, d=d, new=i % 4, ix=i % 4)
    for k in range(14):
        yield dict(kind="refuse", k=k)
    # reshaping
    for n, k, o in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (0, 1, 2)):
        for tv in range(6):
            for s in range(6 if big else 2):
                i += 1
                yield dict(kind="wide", n=n, k=k, o=o, tv=tv, lab=i % 8, name=i % 3, miss=i % 5, ix=i % 4, dup=int(i % 7 == 0))
    # balancing: every set of present rows
    for nu, nt in ((1, 2), (2, 2), (2, 3), (3, 2)) + (((3, 3), (2, 4), (4, 2), (1, 4)) if big else ((1, 3), (3, 3))):
        for mask in range(1, 2 ** (nu * nt)):
            if (nu, nt) == (3, 3) and not big and mask % 3:
                continue
            i += 1
            for dup in range(bin(mask).count("1")) if big or nu * nt <= 6 else ():
                yield dict(kind="bal", nu=nu, nt=nt, mask=mask, m=0, lab=(i + dup) % 8, order=(i // 3 + dup) % 4, tl=(i // 2) % 3, hole=(i + dup) % 3, dup=dup)
            for m in range(5):
                yield dict(kind="bal", nu=nu, nt=nt, mask=mask, m=m, lab=(i + m) % 8, order=(i // 3 + m) % 4, tl=(i // 2) % 3, hole=i % 3)
    # validation: every cell table
    for nt in (1, 2, 3):
        for mask in range(1, 4 ** nt if nt < 3 else 64):
            for unit in (0, 1):
                for tl in range(4):
                    for rep in (1, 2):
                        i += 1
                        yield dict(kind="val", nt=nt, mask=mask, unit=unit, tl=tl, rep=rep, bad=[])
                        if unit:
                            yield dict(kind="val", nt=nt, mask=mask, unit=unit, tl=tl, rep=rep, bad=[], dup=i % 3)
        full = 4 ** nt - 1
        for unit in (0, 1):
            for r in (1, 2, 3):
                for bad in itertools.combinations(range(len(BAD)), r):
                    i += 1
                    if r < 3 or big or i % 3 == 0:
                        yield dict(kind="val", nt=nt, mask=full, unit=unit, tl=i % 4, rep=1 + i % 2, bad=list(bad))
    for mask in range(1, 2 ** 6):
        for sw in range(4):
            yield dict(kind="panelval", mask=mask, sw=sw)
    # summaries
    for nt in (1, 2, 3):
        for cnt in itertools.product((0, 1, 3), repeat=2 * nt):
            if sum(cnt) and (nt < 3 or big or (sum(cnt) * 7 + cnt[0] + 2 * cnt[-1]) % 4 == 0):
                i += 1
                yield dict(kind="sum", nt=nt, cnt=list(cnt), tl=i % 4, hole=int(i % 5 == 0), order=i % 4)
                yield dict(kind="coh", nt=nt, cnt=list(cnt), tl=i % 4, cov=i % 4, order=i % 4, lab=i % 8)
    # event time
    for kt in range(5):
        for combo in itertools.product(range(4), repeat=3):
            i += 1
            yield dict(kind="ev", kt=kt, combo=list(combo), new=i % 3, ix=i % 4)
    # ranking controls
    for nt, nc, T in itertools.product((1, 2), (1, 2, 3, 4), (2, 3, 4)):
        for pp in range(4):
            for cov in range(3):
                for w in range(4 if big else 2):
                    i += 1
                    yield dict(kind="rank", nt=nt, nc=nc, T=T, pp=pp, cov=cov, w=(w + i) % 5, drop=0, s=i % 3, lab=i % 8, how=i % 4, ex=0, rq=0, top=None, lam=i % 2, order=i % 4)
    nc, T = 3, 3
    for drop in range(1, 2 ** 6):
        for how in (0, 1, 3):
            for cov in (0, 1, 2):
                i += 1
                yield dict(kind="rank", nt=2, nc=nc, T=T, pp=1, cov=cov, w=i % 5, drop=drop, s=i % 2, lab=i % 8, how=how, ex=0, rq=0, top=None, lam=0, order=i % 4, nan=i % 2)
    for ex, rq in itertools.product(range(8), range(8)):
        for top in (None, 0, 1, 2, 3, 5):
            i += 1
            yield dict(kind="rank", nt=1, nc=3, T=3, pp=1, cov=i % 3, w=i % 5, drop=0, s=i % 2, lab=i % 8, how=i % 4, ex=ex, rq=rq, top=top, lam=0, order=i % 4)
    for n, T in itertools.product((1, 2, 3, 4, 5), (2, 3, 4)):
        for pp in range(3):
            for top in (1, 2, 5, 9):
                for s in range(8 if big else 3):
                    i += 1
                    yield dict(kind="cand", n=n, T=T, pp=pp, top=top, s=s, lab=i % 8, order=i % 4)


def run(case, cx):
    import diff_diff.prep as P
    warnings.simplefilter("ignore")
    globals()["r_" + case["kind"]](case, cx, P)


def call(cx, f, d, *a, **k):
    """An operation on a frame, which must not modify it and must not hand the same memory back."""
    before = d.copy(deep=True)
    r = cx.op(f, d, *a, **k)
    cx.ok(M.frame_equal(d, before), "%s modified its input" % f.__name__)
    if isinstance(r, pd.DataFrame) and len(r) and len(r.columns):
        keep = r.copy(deep=True)
        for c in r.columns:
            try:
                r[c] = None
            except Exception:  # noqa: BLE001
                pass
        cx.ok(M.frame_equal(d, before), "changing the result of %s changes the input" % f.__name__)
        return keep
    return r


def eqv(a, b):
    if isnan(a) and isnan(b):
        return True
    if pd.isna(a) is True and pd.isna(b) is True:
        return True
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def others(cx, d, r, new, what):
    cx.ok(len(r) == len(d) and list(r.index) == list(d.index), what + ": rows or their index changed")
    for c in d.columns:
        if c != new:
            cx.ok(c in r.columns and all(eqv(x, y) for x, y in zip(r[c], d[c])), "%s: column %s changed" % (what, c))
    extra = [c for c in r.columns if c not in d.columns and c != new]
    cx.ok(not extra, what + ": extra columns", extra=extra)


# ------------------------------------------------------------------ indicators
def base(c):
    d = pd.DataFrame(dict(c=column(c["col"]), old=[9, 8, 7, 6], y=[0.5, 1.5, -1.0, 2.0]))
    return INDEX[c["ix"]](d)


def r_in(c, cx, P):
    d = base(c)
    src = list(d["c"])
    vals = []
    for v in list(base(dict(c, ix=0))["c"]):
        if not any(eqv(v, w) for w in vals):
            vals.append(v)
    sel = [vals[j] for j in c["sel"]]
    if any(v is None for v in sel) and c["cont"] == "scalar":
        return
    arg = CONT[c["cont"]](sel)
    new = NAMES[c["new"]]
    want = [int(any(eqv(x, v) for v in sel)) for x in src]
    if c["which"] == "treat":
        r = call(cx, P.make_treatment_indicator, d, "c", treated_values=arg, new_column=new)
    else:
        r = call(cx, P.make_post_indicator, d, "c", post_periods=arg, new_column=new)
        if c["col"] in ("date", "stamp") and c["cont"] in ("list", "scalar", "tuple"):
            s = [str(v.date()) if c["col"] == "date" else str(v) for v in sel]
            q = call(cx, P.make_post_indicator, d, "c", post_periods=s[0] if c["cont"] == "scalar" else s, new_column=new)
            cx.same([int(x) for x in q[new]], want, "post periods given as date strings")
    got = [x for x in r[new]]
    cx.ok(all(x in (0, 1) for x in got) and pd.api.types.is_integer_dtype(r[new]), "indicator is not 0/1 integer", got=got)
    cx.same([int(x) for x in got], want, "%s indicator from %s as %s" % (c["which"], sel, c["cont"]))
    others(cx, d, r, new, "indicator")
    cx.saw(c["col"], tuple(got))


def r_cut(c, cx, P):
    if c["col"] in ("mixed", "cat") or (c["col"] == "bool" and c["d"]):
        return
    d = base(c)
    src = list(d["c"])
    vals = []
    for v in list(base(dict(c, ix=0))["c"]):
        if not any(eqv(v, w) for w in vals):
            vals.append(v)
    v = vals[c["j"]]
    if isnan(v):
        return
    k = c["d"]
    if k:
        if c["col"] in ("date", "stamp"):
            v = v + pd.Timedelta(days=k)
        elif c["col"] == "period":
            v = v + k
        elif c["col"] == "str":
            v = v + "a" if k > 0 else ("" if len(v) < 2 else v[:-1])
        elif c["col"] == "ocat":
            v = v + k
            if v not in (1, 2, 3):
                return
        else:
            v = v + 0.25 * k
    new = NAMES[c["new"]]
    if c["mode"] == "start":
        forms = [v] + ([str(v)] if c["col"] in ("date", "stamp") else [])
        for form in forms:
            r = call(cx, P.make_post_indicator, d, "c", treatment_start=form, new_column=new)
            want = [int(not isnan(x) and bool(x >= v)) for x in src]
            cx.same([int(x) for x in r[new]], want, "post from %r" % (form,))
    else:
        if c["col"] in ("str", "date", "stamp", "period", "ocat"):
            return
        r = call(cx, P.make_treatment_indicator, d, "c", threshold=v, above_threshold=c["mode"] == "above", new_column=new)
        want = [int(not isnan(x) and bool(x >= v if c["mode"] == "above" else x <= v)) for x in src]
        cx.same([int(x) for x in r[new]], want, "threshold %r %s" % (v, c["mode"]))
    cx.ok(pd.api.types.is_integer_dtype(r[new]), "indicator is not integer")
    others(cx, d, r, new, "cut")
    cx.saw(c["col"], c["mode"], tuple(want))


def r_refuse(c, cx, P):
    d = pd.DataFrame(dict(u=[1, 1, 2, 2], t=[0, 1, 0, 1], y=[1.0, 2, 3, 4], d=[0, 0, 1, 1], w0=[1, 2, 3, 4]))
    T = [lambda: P.make_treatment_indicator(d, "u"), lambda: P.make_treatment_indicator(d, "u", treated_values=1, threshold=1), lambda: P.make_treatment_indicator(d, "zz", treated_values=1), lambda: P.make_post_indicator(d, "t"),
         lambda: P.make_post_indicator(d, "t", post_periods=1, treatment_start=1), lambda: P.make_post_indicator(d, "zz", post_periods=1), lambda: P.wide_to_long(d, [], "u"), lambda: P.wide_to_long(d, ["w0", "zz"], "u"),
         lambda: P.wide_to_long(d, ["w0"], "zz"), lambda: P.wide_to_long(d, ["w0"], "u", time_values=[1, 2]), lambda: P.balance_panel(d, "u", "t", method="left"), lambda: P.balance_panel(d, "zz", "t"), lambda: P.create_event_time(d, "zz", "d"),
         lambda: P.create_event_time(d, "t", "zz")]
    cx.raises("invalid call %d" % c["k"], (ValueError, KeyError), T[c["k"]])
    cx.saw(c["k"])


# ------------------------------------------------------------------ reshaping
def r_wide(c, cx, P):
    n, k = c["n"], c["k"]
    L = M.labels(c["lab"])
    ids = [L((i * 3) % 7 if c["lab"] != 7 else (i * 3) % 7) for i in range(n)]
    if c["dup"] and n > 1:
        ids[1] = ids[0]
    vals = M.gen(n * k, 5 + n + k).reshape(n, k)
    if c["miss"] < 2:
        vals[n - 1, c["miss"] % k] = np.nan
    cols = ["v%d" % ((7 - j) * 2) for j in range(k)]
    oth = ["z", "a"][:c["o"]]
    d = pd.DataFrame({**({"z": [i * 10 for i in range(n)]} if "z" in oth else {}), **{cols[j]: vals[:, j] for j in range(k)}, "id": ids, **({"a": ["q%d" % (n - i) for i in range(n)]} if "a" in oth else {})})
    d = INDEX[c["ix"]](d)
    tv = [None, list(range(2000, 2000 + k)), list(range(k, 0, -1)), ["p%s" % "dacb"[j] for j in range(k)], [0.5 * j for j in range(k)], list(pd.date_range("2020-01-01", periods=k))][c["tv"]]
    tn, vn = [("period", "value"), ("year", "sales"), ("t t", "v")][c["name"]]
    kw = {} if c["name"] == 0 else dict(time_name=tn, value_name=vn)
    r = call(cx, P.wide_to_long, d, cols if c["ix"] % 2 else tuple(cols), "id", time_values=tv, **kw)
    tvs = list(range(k)) if tv is None else tv
    cx.ok(set(r.columns) == {"id", tn, vn, *oth} and len(r.columns) == 3 + len(oth), "columns", got=list(r.columns))
    rows = [(row["id"], tvs[j], row[cols[j]]) + tuple(row[o] for o in oth) for _, row in d.iterrows() for j in range(k)]
    got = [tuple(row) for row in r[["id", tn, vn] + oth].itertuples(index=False)]
    key = lambda x: tuple("%r" % (float(v) if isinstance(v, (int, float, np.number)) and not isinstance(v, bool) else str(v),) for v in x)
    cx.same(sorted(map(key, got)), sorted(map(key, rows)), "reshaped rows")
    o = [(x[0], x[1]) for x in got]
    cx.ok(all(a <= b for a, b in zip(o, o[1:])), "rows are not ordered by unit and period", got=o)
    cx.same(list(r.index), list(range(n * k)), "row numbers")
    cx.saw(n, k, c["tv"], tuple(key(x) for x in got)[:3])


# ------------------------------------------------------------------ balancing
def r_bal(c, cx, P):
    nu, nt = c["nu"], c["nt"]
    L = M.labels(c["lab"] if not (c["lab"] == 7) else 1)
    TL = [lambda t: t, lambda t: 2001 + 2 * t, lambda t: "p%d" % t][c["tl"]]
    cells = [(i, t) for i in range(nu) for t in range(nt) if c["mask"] >> (i * nt + t) & 1]
    y = M.gen(16, 3)
    rows = [dict(y=float(y[i * nt + t]), u=L(nu - 1 - i), t=TL(t), k=10 * i + t, s="s%d%d" % (i, t)) for i, t in cells]
    if c.get("dup") is not None:                          # the same unit observed twice in a period
        rows.append(dict(rows[c["dup"]], y=0.5, k=99, s="dup"))
    if c["hole"] == 1:
        rows[0]["y"] = float("nan")
    if c["hole"] == 2:
        rows[-1]["y"] = float("nan")
    d = pd.DataFrame(rows)
    d = [d, d.iloc[::-1], d.sort_values(["t", "k"]), d.set_axis([5] * len(d))][c["order"]]
    rows = [dict(r) for r in d.to_dict("records")]
    meth, fv = [("inner", None), ("outer", None), ("fill", None), ("fill", 0.0), ("fill", -7)][c["m"]]
    r = call(cx, P.balance_panel, d, "u", "t", **({} if c["m"] == 0 and c["order"] == 0 else dict(method=meth)), **({} if fv is None else dict(fill_value=fv)))
    units, times = [], []
    for x in rows:
        if x["u"] not in units:
            units.append(x["u"])
        if x["t"] not in times:
            times.append(x["t"])
    times.sort()
    by = {(x["u"], x["t"]): x for x in rows}
    if meth == "inner":
        want = [x for x in rows if all((x["u"], t) in by for t in times)]
    else:
        nan = float("nan")
        want = []
        for u in units:
            blk = [dict(by.get((u, t), dict(u=u, t=t, y=nan, k=nan, s=nan))) for t in times]
            if meth == "fill":
                for col in ("y", "k", "s"):
                    if fv is not None:
                        if col != "s":
                            for x in blk:
                                x[col] = fv if isnan(x[col]) else x[col]
                        continue
                    last = nan
                    for x in blk:
                        x[col] = last = last if isnan(x[col]) else x[col]
                    last = nan
                    for x in blk[::-1]:
                        x[col] = last = last if isnan(x[col]) else x[col]
            want += blk
    cx.same(set(r.columns), {"u", "t", "y", "k", "s"}, "columns")
    if c.get("dup") is not None:
        f = lambda x: tuple("nan" if isnan(x[q]) else str(x[q]) for q in ("u", "t", "y", "k", "s"))
        cx.same(sorted(map(f, r.to_dict("records"))), sorted(map(f, want)), "inner: rows of the complete units")
        cx.saw("dup", len(want), c["mask"], nu)
        return
    got = {(x["u"], x["t"]): x for x in r.to_dict("records")}
    cx.ok(len(got) == len(r) == len(want), "%s: %d rows, expected %d" % (meth, len(r), len(want)))
    for x in want:
        g = got.get((x["u"], x["t"]))
        if g is None:
            cx.bad("%s: row %s %s missing" % (meth, x["u"], x["t"]))
            continue
        for col in ("y", "k", "s"):
            cx.ok(eqv(g[col], x[col]), "%s(%s): %s of unit %s period %s is %s, model %s" % (meth, fv, col, x["u"], x["t"], g[col], x[col]))
    if meth == "inner":
        cx.same(list(r.index), [i for i, x in zip(d.index, rows) if x in want], "index of the kept rows") if c["hole"] == 0 else None
    cx.saw(meth, fv, c["mask"], nu)


# ------------------------------------------------------------------ validation
TV = [lambda t: t, lambda t: 2019 + t, lambda t: "abc"[t], lambda t: t + 0.5]
BAD = ["y nan", "d nan", "t nan", "u nan", "y text", "d two", "d text", "no y", "no d", "no t", "no u", "d half", "d mixed"]


def r_val(c, cx, P):
    nt, tl = c["nt"], c["tl"]
    rows = []
    for d in (0, 1):
        for t in range(nt):
            if c["mask"] >> (d * nt + t) & 1:
                for q in range(c["rep"]):
                    rows.append(dict(y=1.0 + len(rows), d=d, t=TV[tl](t), u=10 * d + q))
    if not rows:
        return
    if c.get("dup") is not None:
        rows.append(dict(rows[c["dup"] % len(rows)], y=0.5))
    df = pd.DataFrame(rows)
    unit = "u" if c["unit"] else None
    errs = []
    names = [BAD[b] for b in c["bad"]]
    for b in names:
        col, what = b.split() if not b.startswith("no") else (b[3:], "gone")
        if what == "gone" and col in df:
            df = df.drop(columns=[col])
    gone = [x for x in ("y", "d", "t") + (("u",) if unit else ()) if x not in df]
    for b in names:
        col, what = b.split() if not b.startswith("no") else (b[3:], "gone")
        if col not in df or what == "gone":
            continue
        if what == "nan":
            df[col] = df[col].astype(object) if df[col].dtype == object else df[col]
            df.loc[len(df) - 1, col] = np.nan
        elif what == "text" and col == "y":
            df["y"] = ["v%d" % i for i in range(len(df))]
        elif what == "two" and pd.api.types.is_numeric_dtype(df["d"]):
            df["d"] = df["d"] * 2
        elif what == "half" and df["d"].dtype != object and pd.api.types.is_numeric_dtype(df["d"]):
            df["d"] = df["d"] * 0.5
        elif what == "text" and pd.api.types.is_numeric_dtype(df["d"]):
            df["d"] = df["d"].map({0: "no", 1: "yes"})
        elif what == "mixed":
            df["d"] = [0, "x"] * (len(df) // 2) + [0] * (len(df) % 2) if len(df) > 1 else ["x"]
    cells = None
    if gone:
        errs = ["col " + g for g in gone]
    else:
        if not pd.api.types.is_numeric_dtype(df["y"]):
            errs.append("y numeric")
        if any(not (v == 0 or v == 1) for v in df["d"] if not isnan(v)):
            errs.append("d binary")
        for col in ("y", "d", "t") + (("u",) if unit else ()):
            if any(isnan(v) for v in df[col]):
                errs.append(col + " missing")
        if not errs:
            tv = sorted(set(df["t"]))
            cnt = {(d, t): int(((df.d == d) & (df.t == t)).sum()) for d in (0, 1) for t in tv}
            errs += ["no group %d" % d for d in (0, 1) if not (df.d == d).any()]
            if len(tv) == 2:
                errs += ["cell %s" % (k,) for k in cnt if not cnt[k]]
            else:
                errs += ["periods %d" % d for d in (0, 1) if sum(cnt[d, t] > 0 for t in tv) < 2]
            cells = tv
    r = call(cx, P.validate_did_data, df, "y", "d", "t", unit=unit, raise_on_error=False)
    cx.same(r["valid"], not errs, "validity (problems: %s)" % errs)
    cx.same(len(r["errors"]), len(errs), "number of problems reported (%s vs %s)" % (r["errors"], errs))
    e = cx.attempt(P.validate_did_data, df.copy(), "y", "d", "t", unit=unit)[1]
    cx.ok((e is not None) == bool(errs) and (e is None or isinstance(e, ValueError)), "raising: %r for %s" % (e, errs))
    if cells is not None:
        s = r["summary"]
        cx.same((s["n_obs"], s["n_treated"], s["n_control"], s["n_periods"]), (len(df), int((df.d == 1).sum()), int((df.d == 0).sum()), len(cells)), "summary")
        if unit:
            cx.same(s["n_units"], len(set(df.u)), "number of units")
    if not errs:
        w = 0
        if len(cells) == 2 and not set(cells) <= {0, 1}:
            w += 1
        if unit:
            per = {u: len(set(df.t[df.u == u])) for u in set(df.u)}
            w += len(set(per.values())) > 1
            w += any(len(set(df.d[df.u == u])) > 1 for u in set(df.u))
        cx.same(len(r["warnings"]), w, "number of warnings (%s)" % r["warnings"])
    cx.saw(tuple(sorted(errs)))


def r_panelval(c, cx, P):
    """Panels with every pattern of rows (3 units, 2 periods), treatment possibly switching within units."""
    rows = []
    for u in range(3):
        for t in range(2):
            if c["mask"] >> (2 * u + t) & 1:
                d = int(u == 0) if not c["sw"] & 1 else int(u == 0 and t == 1)
                rows.append(dict(u="u%d" % u, t=t, y=float(u + t), d=d if not (c["sw"] & 2) else bool(d)))
    df = pd.DataFrame(rows)
    r = call(cx, P.validate_did_data, df, "y", "d", "t", unit="u", raise_on_error=False)
    e = []
    tv = sorted(set(df.t))
    n = lambda d, t: sum(1 for x in rows if x["d"] == d and x["t"] == t)
    e += [1 for d in (0, 1) if not sum(n(d, t) for t in tv)]
    if len(tv) == 2:
        e += [1 for d in (0, 1) for t in tv if not n(d, t)]
    else:
        e += [1, 1]
    cx.same((r["valid"], len(r["errors"])), (not e, len(e)), "validity of the panel")
    if not e:
        per = [sum(1 for x in rows if x["u"] == u) for u in {x["u"] for x in rows}]
        sw = any(len({x["d"] for x in rows if x["u"] == u}) > 1 for u in {x["u"] for x in rows})
        cx.same(len(r["warnings"]), int(len(set(per)) > 1) + int(sw), "warnings of the panel (%s)" % r["warnings"])
    cx.saw(r["valid"], len(r["warnings"]), len(e))


# ------------------------------------------------------------------ summaries
def table(c):
    nt, rows = c["nt"], []
    y = M.gen(40, 9)
    for d in (0, 1):
        for t in range(nt):
            for q in range(c["cnt"][d * nt + t]):
                rows.append(dict(y=float(y[len(rows)]), d=d, t=TV[c["tl"]](t), u=q * 2 + d, x=float(y[39 - len(rows)]), z=float(len(rows))))
    if c.get("hole") and len(rows) > 1:
        rows[0]["y"] = float("nan")
    df = pd.DataFrame(rows)
    return [df, df.iloc[::-1], df.sort_values("x"), df.set_axis([1] * len(df))][c["order"]], rows


def mom(v):
    v = [x for x in v if not isnan(x)]
    n = len(v)
    if not n:
        return [0] + [float("nan")] * 4
    m = sum(v) / n
    return [n, m, math.sqrt(sum((x - m) ** 2 for x in v) / (n - 1)) if n > 1 else float("nan"), min(v), max(v)]


def r_sum(c, cx, P):
    df, rows = table(c)
    r = call(cx, P.summarize_did_data, df, "y", "d", "t", unit="u" if c["tl"] % 2 else None)
    tv = sorted({x["t"] for x in rows})
    want = {}
    for d in (0, 1):
        for t in tv:
            v = [x["y"] for x in rows if x["d"] == d and x["t"] == t]
            if v:
                w = "Treated" if d else "Control"
                want["%s - %s" % (w, ("Pre", "Post")[tv.index(t)]) if len(tv) == 2 else "%s - Period %s" % (w, t)] = mom(v)
    labels = list(want) + (["DiD Estimate"] if len(tv) == 2 else [])
    cx.same(sorted(map(str, r.index)), sorted(labels), "labels of the summary")
    for k in want:
        if k not in r.index:
            continue
        for j, f in enumerate(("n", "mean", "std", "min", "max")):
            cx.eq(r.loc[k, f], want[k][j], "%s of %s" % (f, k), atol=6e-5)
    if len(tv) == 2 and "DiD Estimate" in r.index:
        g = lambda k: want.get(k, [0, float("nan")])[1]
        cx.eq(float(r.loc["DiD Estimate", "mean"]), g("Treated - Post") - g("Treated - Pre") - g("Control - Post") + g("Control - Pre"), "difference in differences of the summary", atol=3e-4)
    cx.saw(tuple(c["cnt"]), c["nt"])


def r_coh(c, cx, P):
    df, rows = table(dict(c, hole=0))
    L = M.labels(c["lab"])
    df["u"] = [L(int(v) % 7) for v in df["u"]]
    rows = df.to_dict("records")
    cov = [None, [], ["x"], ["x", "z"]][c["cov"]]
    r = call(cx, P.aggregate_to_cohorts, df, "u", "t", "d", "y", **({} if c["cov"] == 0 else dict(covariates=cov)))
    want = {}
    for x in rows:
        want.setdefault((x["d"], x["t"]), []).append(x)
    got = {(x["d"], x["t"]): x for x in r.to_dict("records")}
    cx.ok(len(got) == len(r) and set(got) == set(want), "cells", got=sorted(map(str, got)), want=sorted(map(str, want)))
    for k, v in want.items():
        if k not in got:
            continue
        cx.eq(got[k]["mean_y"], sum(x["y"] for x in v) / len(v), "mean of cell %s" % (k,))
        cx.same(got[k]["n_units"], len({x["u"] for x in v}), "units of cell %s" % (k,))
        for q in cov or []:
            cx.eq(got[k][q], sum(x[q] for x in v) / len(v), "%s of cell %s" % (q, k))
    cx.same(set(r.columns), {"d", "t", "mean_y", "n_units", *(cov or [])}, "columns")
    cx.saw(tuple(c["cnt"]), c["cov"])


# ------------------------------------------------------------------ event time
def r_ev(c, cx, P):
    kt = c["kt"]
    t = [2018, 2020, 2021]
    nan, inf = float("nan"), float("inf")
    g = [[2019, 2020, nan, inf][j] for j in c["combo"]]
    if kt == 0:                               # the smallest dtype pandas infers
        col = pd.Series(g)
    elif kt == 1:
        col = pd.Series(g, dtype=object)
    elif kt == 2:
        col = pd.array([None if isnan(v) or v == inf else v for v in g], dtype="Int64")
    elif kt == 3:
        col = pd.to_datetime([None if isnan(v) or v == inf else "%d-01-01" % v for v in g])
        t = pd.to_datetime(["%d-01-01" % v for v in t])
    else:
        col = pd.Series([-v if v == inf else v for v in g], dtype=float)
    d = INDEX[c["ix"]](pd.DataFrame(dict(t=t, g=col, event_time=[1, 2, 3], y=[1.0, 2, 3])))
    new = ("event_time", "rel", "y")[c["new"]]
    r = call(cx, P.create_event_time, d, "t", "g", **({} if c["new"] == 0 else dict(new_column=new)))
    for q, (a, b, e) in enumerate(zip(d["t"], d["g"], r[new])):
        never = pd.isna(b) or b in (inf, -inf)
        if never:
            cx.ok(pd.isna(e), "event time of a never-treated row is %s" % e, g=b)
        else:
            cx.ok(not pd.isna(e) and e == a - b, "event time %s of period %s, treated %s" % (e, a, b))
    others(cx, d, r, new, "event time")
    cx.saw(kt, tuple(str(x) for x in r[new]))


# ------------------------------------------------------------------ ranking controls
WTS = [None, (0.7, 0.3), (1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (0.5, 0.5)]


def panel(n, T, s, lab, y=None):
    L = M.labels(lab)
    y = M.gen(n * T, 70 + s + n).reshape(n, T) * (1 + s) + np.arange(n)[:, None]
    x = M.gen(n * T * 2, 71 + s).reshape(n, T, 2)
    return y, x, [L(i) for i in range(n)]


def r_rank(c, cx, P):
    nt, nc, T = c["nt"], c["nc"], c["T"]
    n = nt + nc
    y, x, lab = panel(n, T, c["s"], c["lab"])
    role = [i >= nc for i in range(n)]                    # last units are treated
    gone = {(i, t) for i in range(min(n, 3)) for t in range(2) if c["drop"] >> (2 * i + t) & 1}
    if c["drop"] and c["how"] == 3:
        gone = {(nc - 1 + (i > 0) * i, t) if i < 3 and nc - 1 + i < n else (i, t) for i, t in gone}
    isn = c.get("nan")
    rows = []
    for i in range(n):
        for t in range(T):
            if (i, t) in gone and not isn:
                continue
            m = (i, t) in gone
            rows.append(dict(u=lab[i], t=t, y=float("nan") if m and c["cov"] < 2 else float(y[i, t]), d=int(role[i]) if c["how"] != 2 else int(role[i] and t >= T // 2), x=float("nan") if m and c["cov"] == 2 else float(x[i, t, 0]),
                             x2=float(x[i, t, 1]), i=i))
    df = pd.DataFrame(rows)
    df = [df, df.iloc[::-1], df.sort_values(["t", "i"], ascending=[True, False]), df.set_axis([3] * len(df))][c["order"]]
    pers = sorted(set(df.t))
    pp = [None, [0, 1], [1], [0]][c["pp"]]
    if c["pp"] == 1 and T == 2:
        pp = [1, 0]
    pre = pers[:len(pers) // 2] if pp is None else pp
    cov = [None, ["x"], ["x", "x2"]][c["cov"]]
    kw = {}
    if c["how"] == 0 or c["how"] == 2:
        kw["treatment_column"] = "d"
    else:
        kw["treated_units"] = [lab[i] for i in range(n) if role[i]]
    wt = WTS[c["w"]]
    if wt:
        kw.update(outcome_weight=wt[0], covariate_weight=wt[1])
    ex = [i for i in range(nc) if c["ex"] >> i & 1]
    rq = [i for i in range(nc) if c["rq"] >> i & 1]
    if ex:
        kw["exclude_units"] = [lab[i] for i in ex]
    if rq:
        kw["require_units"] = [lab[i] for i in rq]
    if c["top"] is not None:
        kw["n_top"] = c["top"]
    lam = (0.0, 2.0)[c["lam"]]
    if lam:
        kw["lambda_reg"] = lam
    val = {(r["i"], r["t"]): r for r in rows}
    have = [i for i in range(n) if any((i, t) in val for t in pre)]
    ctrl = [i for i in have if not role[i] and i not in ex]
    tr = [i for i in have if role[i]]
    args = (df, "u", "t", "y")
    if set(ex) & set(rq) or not ctrl or not tr or not pre or not any(not role[i] and i not in ex for i in {r["i"] for r in rows}):
        cx.raises("ranking without usable units", (ValueError,), P.rank_control_units, *args, pre_periods=pp, covariates=cov, **kw)
        cx.saw("refused")
        return
    r = call(cx, P.rank_control_units, *args, pre_periods=pp, covariates=cov, **kw)
    pre = [t for t in pre if any((i, t) in val for i in range(n))]
    Y = lambda i, t: val[i, t]["y"] if (i, t) in val else float("nan")
    mean = lambda v: (lambda w: sum(w) / len(w) if w else float("nan"))([q for q in v if not isnan(q)])
    tm = {t: mean([Y(i, t) for i in tr]) for t in pre}
    rm = {i: math.sqrt(v) if not isnan(v := mean([(Y(i, t) - tm[t]) ** 2 for t in pre])) else float("nan") for i in ctrl}

    def score(dist):
        ok = [v for v in dist.values() if not isnan(v)]
        if not ok:
            return {i: float("nan") for i in dist}
        lo, hi = min(ok), max(ok)
        return {i: float("nan") if isnan(v) else 1.0 if hi - lo < 1e-10 else 1 - (v - lo) / (hi - lo) for i, v in dist.items()}

    so = score(rm)
    if cov:
        um = {i: [mean([val[i, t][q] for t in pre if (i, t) in val]) for q in cov] for i in have}
        tot = [0.0 if not isnan(um[ctrl[0]][0]) else 0.0] * len(ctrl)
        D = {i: 0.0 for i in ctrl}
        for j in range(len(cov)):
            a = [um[i][j] for i in have if not isnan(um[i][j])]
            m = mean(a)
            sd = math.sqrt(sum((v - m) ** 2 for v in a) / (len(a) - 1)) if len(a) > 1 else float("nan")
            sd = 1.0 if sd == 0 else sd
            tmean = mean([um[i][j] for i in tr])
            for i in ctrl:
                D[i] += ((um[i][j] - tmean) / sd) ** 2
        sc = score({i: math.sqrt(v) if not isnan(v) else v for i, v in D.items()})
    else:
        sc = {i: float("nan") for i in ctrl}
    ow, cw = wt or (0.7, 0.3)
    tw = ow + cw
    ow, cw = (ow / tw, cw / tw) if tw else (1.0, 0.0)
    q = {i: so[i] if isnan(sc[i]) else ow * so[i] + cw * sc[i] for i in ctrl}
    back = {str(lab[i]) + str(type(lab[i])): i for i in range(n)}
    names = list(df.drop_duplicates("i")["u"])
    got = {}
    for row in r.to_dict("records"):
        hit = [i for i in ctrl if lab[i] == row["unit"]]
        if len(hit) != 1 or hit[0] in got:
            cx.bad("unit %r in the ranking is not a control candidate or repeated" % (row["unit"],))
            return
        got[hit[0]] = row
    sure = [i for i in ctrl if not isnan(q[i])]
    if c["top"] is None or c["top"] >= len(ctrl):
        cx.same(sorted(got), sorted(ctrl), "ranked units")
    else:
        need = [i for i in rq if i in ctrl]
        size = max(c["top"], len(need))
        cx.same(len(got), size, "number of ranked units")
        cx.ok(set(need) <= set(got), "a required unit is left out", got=sorted(got), required=need)
        rest = [i for i in got if i not in need]
        out = [i for i in ctrl if i not in got]
        cx.ok(all(q[a] >= q[b] - 1e-12 for a in rest for b in out if not isnan(q[b])), "a better control is left out", scores=q, got=sorted(got))
    seq = list(r["quality_score"])
    cx.ok(all(isnan(b) or a >= b for a, b in zip(seq, seq[1:])), "ranking is not in order", got=seq)
    cx.same(list(r.index), list(range(len(r))), "row numbers")
    for i, row in got.items():
        cx.eq(row["pre_trend_rmse"], rm[i], "distance of unit %d" % i)
        cx.eq(row["outcome_trend_score"], so[i], "trend score of unit %d" % i, atol=1e-8)
        cx.eq(row["covariate_score"], sc[i], "covariate score of unit %d" % i, atol=1e-8)
        cx.eq(row["quality_score"], q[i], "quality of unit %d" % i, atol=1e-8)
        cx.ok(isnan(row["quality_score"]) or -1e-12 <= row["quality_score"] <= 1 + 1e-12, "quality out of range")
        cx.same(bool(row["is_required"]), i in rq, "required flag of unit %d" % i)
    use = [t for t in pre if not isnan(tm[t])]
    full = [i for i in ctrl if use and all(not isnan(Y(i, t)) for t in use)]
    for i, row in got.items():
        if i not in full:
            cx.ok(row["synthetic_weight"] == 0, "synthetic weight of a control with missing outcomes", w=row["synthetic_weight"])
    if len(got) == len(ctrl) and full:
        w = np.array([got[i]["synthetic_weight"] for i in full])
        cx.ok(w.min() >= 0 and abs(w.sum() - 1) < 1e-9, "synthetic weights are not on the simplex", w=w)
        Yc = np.array([[Y(i, t) for i in full] for t in use])
        yt = np.array([tm[t] for t in use])
        mm = Yc.mean(axis=1)
        best, H, f = qp(Yc - mm[:, None], yt - mm, lam)
        crit = lambda v: 0.5 * v @ H @ v - f @ v
        gap = 1e-6 * (crit(np.ones(len(full)) / len(full)) - best[0]) + 1e-9 * (np.linalg.norm(H, 2) + np.abs(f).max())
        cx.ok(crit(w) <= best[0] + gap, "synthetic weights are not optimal", excess=crit(w) - best[0], w=w, best=best[1])
    cx.saw(tuple(got), tuple(round(v, 6) for v in seq))


def r_cand(c, cx, P):
    n, T = c["n"], c["T"]
    y, x, lab = panel(n, T, c["s"], c["lab"])
    if c["s"] == 2:
        y = np.round(y / 3) + 0 * y
    rows = [dict(u=lab[i], t=t, y=float(y[i, t]), i=i, d=0) for i in range(n) for t in range(T)]
    if c["top"] != 2:                                     # a column the ranking does not use, with gaps
        rows = [dict(r, note=None if (r["i"] + r["t"]) % 2 else "n", z=float("nan") if r["i"] == 0 else 1.0) for r in rows]
    df = pd.DataFrame(rows)
    df = [df, df.iloc[::-1], df.sort_values(["t", "i"], ascending=[False, True]), df.set_axis([3] * len(df))][c["order"]]
    pp = [None, [0, 1], list(range(T))][c["pp"]]
    pre = list(range(T // 2)) if pp is None else pp
    kw = dict(treatment_column="d") if c["s"] % 2 else {}
    r = call(cx, P.rank_control_units, df, "u", "t", "y", pre_periods=pp, suggest_treatment_candidates=True, n_treatment_candidates=c["top"], **kw)
    avg = {i: sum(y[i, t] for t in pre) / len(pre) for i in range(n)}
    slope = {}
    for i in range(n):
        m = (len(pre) - 1) / 2
        slope[i] = sum((k - m) * y[i, t] for k, t in enumerate(pre)) / sum((k - m) ** 2 for k in range(len(pre))) if len(pre) > 1 else 0.0
    sim, z = {}, {}
    sd = lambda v: math.sqrt(sum((a - sum(v) / len(v)) ** 2 for a in v) / (len(v) - 1)) if len(v) > 1 else float("nan")
    near = False
    for i in range(n):
        o = [avg[j] for j in range(n) if j != i]
        s = sd(o) if o else float("nan")
        if not o:
            sim[i] = 0
        elif s > 0:
            sim[i] = sum(abs(a - avg[i]) < 0.5 * s for a in o)
            near |= any(abs(abs(a - avg[i]) - 0.5 * s) < 1e-9 for a in o)
        else:
            sim[i] = len(o)
    allv = list(avg.values())
    s, m = sd(allv), sum(allv) / n
    if near or (n > 1 and 0 < s < 1e-9):
        return
    top = max(sim.values())
    score = {i: min(1.0, max(0.0, (sim[i] / top if top else 0.0) - 0.3 * (abs(avg[i] - m) / s if s > 0 else 0.0))) for i in range(n)}
    cx.same(len(r), min(n, c["top"]), "number of candidates")
    got = {}
    for row in r.to_dict("records"):
        hit = [i for i in range(n) if lab[i] == row["unit"]]
        if len(hit) != 1 or hit[0] in got:
            cx.bad("candidate %r" % (row["unit"],))
            return
        got[hit[0]] = row
    for i, row in got.items():
        cx.eq(row["avg_outcome_level"], avg[i], "level of candidate %d" % i)
        cx.eq(row["outcome_trend"], slope[i], "trend of candidate %d" % i, atol=1e-8)
        cx.same(int(row["n_similar_controls"]), sim[i], "similar controls of candidate %d" % i)
        cx.eq(row["treatment_candidate_score"], score[i], "score of candidate %d" % i, atol=1e-9)
    seq = list(r["treatment_candidate_score"])
    cx.ok(all(a >= b for a, b in zip(seq, seq[1:])), "candidates are not in order", got=seq)
    cx.ok(all(score[a] >= score[b] - 1e-9 for a in got for b in range(n) if b not in got), "a better candidate is left out")
    cx.saw(tuple(got), tuple(round(v, 6) for v in seq))
