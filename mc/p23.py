"""P23: seeded procedures under all short call histories, seeds and hash orders."""
import itertools
import random
import re
import warnings
from .core import np, pd
from . import models as M
from . import zoo

PROPERTY = "P23"
RULE = ("one case = entry point x seed x every history of calls and global-state actions up to the length bound before and between two identical calls; "
        "or entry point x seed pair (what may differ); or entry point with text labels x hash order of the labels (every rotation, reversal and transposition of the order)")
ASSUMPTIONS = ["an estimator passed to the power simulation has its own seed if it resamples", "text labels are objects whose hash is set by the explorer, standing for a process with another hash seed", "bit-identity on one machine and numeric library",
               "a random generator object shared on purpose between calls is not used"]
MIN_OUTCOMES = 20


# --------------------------------------------------------------------- items
def _frame(e, lab=None):
    df = zoo.frame(e.kind)
    if lab is not None:
        for c in ("u", "cl", "fe"):
            v = sorted(df[c].unique())
            m = {x: lab(i, len(v)) for i, x in enumerate(v)}
            df[c] = pd.Series([m[x] for x in df[c]], index=df.index, dtype=object)
    return df


def zoo_item(name, lab=None):
    e = zoo.BY[name]
    df = _frame(e, lab)

    def call(dd, seed):
        over = {"seed": seed} if e.rnd else {}
        return e.call(dd, df.copy(), extra=zoo.fill(e, df), **over)
    return call


def gen(name, **kw):
    return lambda dd, seed: getattr(dd, name)(seed=seed, **kw)


def sim(make, **kw):
    return lambda dd, seed: dd.simulate_power(make(dd), n_units=8, n_periods=4, n_simulations=3, progress=False, seed=seed, **kw)


def wild(dd, seed):
    X = np.column_stack([np.ones(8), M.gen(8, 3)])
    y = M.gen(8, 5)
    return dd.wild_bootstrap_se(X, y, y - y.mean(), np.array([0, 0, 1, 1, 2, 2, 3, 3]), 1, n_bootstrap=12, seed=seed)


def placebo(kind):
    def call(dd, seed):
        df = zoo.frame("basic")
        return dd.run_placebo_test(df, "y", "d", "post" if kind == "permutation" else "t", unit="u", test_type=kind, post_periods=[4, 5], fake_treatment_period=2, fake_treatment_group=[101, 103], n_permutations=9, seed=seed)
    return call


def placebo_all(dd, seed):
    df = zoo.frame("basic")
    return dd.run_all_placebo_tests(df, "y", "d", "t", "u", pre_periods=[1, 2, 3], post_periods=[4, 5], n_permutations=9, seed=seed)


def power(dd, seed):
    return dd.PowerAnalysis().power(effect_size=2.0, n_treated=5, n_control=5, sigma=1.0), dd.compute_mde(20, 20, 1.0), dd.compute_sample_size(1.0, 2.0)


def dataset(which):
    def call(dd, seed):
        import diff_diff.datasets as D
        return getattr(D, which)()
    return call


ITEMS = {
    "gen-did": gen("generate_did_data", n_units=6, n_periods=3), "gen-stag": gen("generate_staggered_data", n_units=9, n_periods=6),
    "gen-factor": gen("generate_factor_data", n_units=6, n_pre=3, n_post=2, n_treated=2), "gen-ddd": gen("generate_ddd_data", n_per_cell=2, add_covariates=True),
    "gen-panel": gen("generate_panel_data", n_units=6, n_periods=4, treatment_period=2, parallel_trends=False), "gen-es": gen("generate_event_study_data", n_units=6, n_pre=2, n_post=2),
    "sim-did": sim(lambda dd: dd.DifferenceInDifferences()), "sim-did-grid": sim(lambda dd: dd.DifferenceInDifferences(), effect_sizes=[0.0, 2.0]),
    "sim-multi": sim(lambda dd: dd.MultiPeriodDiD()), "sim-cs": sim(lambda dd: dd.CallawaySantAnna(n_bootstrap=5, seed=3)),
    "sim-twfe": sim(lambda dd: dd.TwoWayFixedEffects(inference="wild_bootstrap", n_bootstrap=5, seed=3)),
    "wild": wild, "placebo-perm": placebo("permutation"), "placebo-all": placebo_all, "power": power,
    "ds-mpdta": dataset("_construct_mpdta_data"), "ds-castle": dataset("_construct_castle_doctrine_data"), "ds-ck": dataset("_construct_card_krueger_data"), "ds-divorce": dataset("_construct_divorce_laws_data"),
}
SEEDED = [k for k in ITEMS if not k.startswith("ds-") and k != "power"]
RND = [e.name for e in zoo.ALL if e.rnd]
DET = [e.name for e in zoo.ALL if not e.rnd]


def item(name, lab=None):
    return ITEMS[name] if name in ITEMS else zoo_item(name, lab)


ACTIONS = {
    "seed0": lambda dd, s: np.random.seed(0), "seed-same": lambda dd, s: np.random.seed(int(s) % 2 ** 32), "draw": lambda dd, s: (np.random.rand(3), random.random()),
    "pyseed": lambda dd, s: random.seed(99), "gen-same-seed": lambda dd, s: dd.generate_did_data(n_units=4, n_periods=2, treatment_period=1, seed=s),
    "wild-same-seed": wild, "permutation": lambda dd, s: zoo_item("permutation")(dd, s), "sdid-other-seed": lambda dd, s: zoo_item("sdid-placebo")(dd, 3),
    "cs-boot-other": lambda dd, s: zoo_item("cs-boot")(dd, 11), "unseeded": lambda dd, s: wild(dd, None), "failing": lambda dd, s: _failing(dd),
    "warn-as-error": lambda dd, s: _warn_error(dd),
}


def _failing(dd):
    for f in (lambda: dd.CallawaySantAnna(n_bootstrap=5, seed=1).fit(pd.DataFrame({"y": [1.0]}), "y", "u", "t", "g"), lambda: dd.generate_did_data(n_units=-1, seed=1), lambda: dd.SunAbraham(n_bootstrap=3, seed=2).fit(zoo.frame("stag"), "y", "u", "t", "nope")):
        try:
            f()
        except Exception:  # noqa: BLE001
            pass


def _warn_error(dd):
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        try:
            zoo_item("sa-boot")(dd, 7)
        except Exception:  # noqa: BLE001
            pass


def cases(tier):
    big = tier == "thorough"
    acts = list(ACTIONS)
    hist = [()] + [(a,) for a in acts]
    pairs = list(itertools.product(acts, repeat=2))
    for i, name in enumerate(list(ITEMS) + RND):
        for j, h in enumerate(hist):
            yield dict(kind="hist", item=name, seed=(0, 7, 2 ** 31)[(i + j) % 3], hist=list(h))
        for j, h in enumerate(pairs):
            if big or (i + j) % 14 == 0:
                yield dict(kind="hist", item=name, seed=(0, 7, 2 ** 31)[(i + j) % 3], hist=list(h))
    for i, name in enumerate(DET):
        for j, h in enumerate(hist):
            if big or (i + j) % 3 == 0 or j < 2:
                yield dict(kind="hist", item=name, seed=1, hist=list(h))
    for name in SEEDED + RND:
        for a, b in itertools.combinations((0, 1, 7, 12345, 2 ** 32), 2):
            if big or a < 2:
                yield dict(kind="seeds", item=name, a=a, b=b)
        yield dict(kind="seeds", item=name, a=0, b=None)
        yield dict(kind="types", item=name)
    for name in RND:
        if name.startswith(("f-", "placebo", "perm", "trend")):
            continue
        for first in (0, 7, None):
            for how in range(4):
                yield dict(kind="reuse", item=name, first=first, how=how)
    for name in RND + (DET if big else DET[::2]):
        n = 12
        orders = [("rot", k) for k in range(1, n, 1 if big else 3)] + [("rev", 0)] + [("swap", i, j) for i, j in itertools.combinations(range(n), 2) if big or (i * 7 + j) % 11 == 0]
        for o in orders:
            yield dict(kind="hash", item=name, order=list(o))


class Lab(str):
    """Text whose hash the explorer decides."""
    order = {}

    def __hash__(self):
        return Lab.order.get(str(self), 0)

    def __eq__(self, o):
        return str.__eq__(self, o)

    def __ne__(self, o):
        return not str.__eq__(self, o)


def labels(order):
    Lab.order = {}

    def lab(i, n):
        s = Lab("L%02d" % ((i * 5) % 13))
        if order is None:
            k = i
        elif order[0] == "rot":
            k = (i + order[1]) % max(n, 1)
        elif order[0] == "rev":
            k = n - 1 - i
        else:
            a, b = order[1] % n, order[2] % n
            k = b if i == a else a if i == b else i
        Lab.order.setdefault(str(s), k)
        return s
    return lab


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


# what resampling may change, by the last name in the path
FREE = re.compile(r"(^|[._\[' ])(se|std_err|t_stat|p_value|p_val|conf_int|ci|ci_lower|ci_upper|ci_low|ci_high|lower|upper|is_significant|significance_stars|significant|variance|crit\w*|vcov|seed)\b|_se\b|_p_value|_p_values|_ci\b|_cis\b|_conf_int|_t_stat|bootstrap|permut|distribution|placebo_effects?|noise_level|n_failed|n_success|cband|parallel_trends_plausible|notes")


def flat(r):
    return zoo.flat(r)


def run(case, cx):
    import diff_diff as dd
    warnings.simplefilter("ignore")
    k = case["kind"]
    if k == "hash":
        return run_hash(case, cx, dd)
    f = item(case["item"])
    if k == "hist":
        s = case["seed"]
        np.random.seed(5)
        random.seed(5)
        s0 = state()
        a = flat(cx.op(f, dd, s))
        cx.same(state() == s0, True, "global random state untouched by the first call")
        for h in case["hist"]:
            g0 = state()
            ACTIONS[h](dd, s)
            if h not in ("seed0", "seed-same", "draw", "pyseed"):
                cx.same(state() == g0, True, "global random state untouched by " + h)
        s1 = state()
        b = flat(cx.op(f, dd, s))
        cx.same(state() == s1, True, "global random state untouched by the second call")
        d = zoo.diff(b, a, rtol=0, atol=0)
        cx.ok(d is None, "the same call with seed %r again, after %s: %s" % (s, case["hist"], d))
        cx.saw(case["item"], str(sorted(map(str, a.items())))[:2000])
    elif k == "seeds":
        s0 = state()
        a, b = flat(cx.op(f, dd, case["a"])), flat(cx.op(f, dd, case["b"]))
        cx.same(state() == s0, True, "global random state untouched")
        if case["item"].startswith(("gen-", "sim-")):
            sizes = lambda q: {p: np.shape(v) for p, v in q.items()}
            cx.same(sizes(a), sizes(b), "shape of the generated data")
            cx.saw(case["item"], case["a"])
            return
        for p in sorted(set(a) | set(b)):
            if FREE.search(p):
                continue
            d = zoo.diff({p: a.get(p)}, {p: b.get(p)}, rtol=0, atol=0)
            cx.ok(d is None, "seeds %r and %r: a quantity that does not come from resampling differs: %s" % (case["a"], case["b"], d))
        cx.saw(case["item"], case["a"], len([p for p in a if p in b and zoo.diff({p: a[p]}, {p: b[p]}, rtol=0, atol=0)]))
    elif k == "types":
        a = flat(cx.op(f, dd, 7))
        for s in (np.int64(7), np.int32(7), np.uint8(7)):
            b = flat(cx.op(f, dd, s))
            d = zoo.diff(b, a, rtol=0, atol=0)
            cx.ok(d is None, "seed 7 as %s: %s" % (type(s).__name__, d))
        cx.saw(case["item"])
    elif k == "reuse":
        e = zoo.BY[case["item"]]
        df = zoo.frame(e.kind)
        kw = e.kwargs(extra=zoo.fill(e, df))
        ref = flat(cx.op(f, dd, 7))
        how = case["how"]
        est = e.new(dd, seed=case["first"])
        est.fit(df.copy(), **kw)
        if how == 0:
            est.set_params(seed=7)
        elif how == 1:
            est.set_params(seed=1)
            est.fit(df.copy(), **kw)
            est.set_params(seed=7)
        elif how == 2:
            est = e.new(dd, **dict({q: v for q, v in est.get_params().items()}, seed=7))
        else:
            est.seed = 7
        g0 = state()
        b = flat(cx.op(est.fit, df.copy(), **kw))
        c = flat(cx.op(est.fit, df.copy(), **kw))
        cx.same(state() == g0, True, "global random state untouched")
        for q, n in ((b, "first"), (c, "second")):
            d = zoo.diff(q, ref, rtol=0, atol=0)
            cx.ok(d is None, "reused object, %s fit with seed 7: %s" % (n, d))
        cx.saw(case["item"], how)


def run_hash(case, cx, dd):
    e = zoo.BY[case["item"]]
    out = []
    for order in (None, case["order"]):
        lab = labels(order)
        df = _frame(e, lab)
        ex = zoo.fill(e, df)
        over = {"seed": 7} if e.rnd else {}
        out.append(flat(cx.op(e.call, dd, df, extra=ex, **over)))
    d = zoo.diff(out[1], out[0], rtol=0 if e.rnd else 1e-9, atol=0 if e.rnd else 1e-10)
    cx.ok(d is None, "another hash order of the labels: %s" % d)
    cx.saw(case["item"], str(case["order"]))
