"""P21: estimator objects have no memory beyond their parameters."""
import contextlib
import io
import itertools
import sys
import warnings
from .core import np, pd, REPO, isnan
from . import models as M
from . import zoo

PROPERTY = "P21"
RULE = ("one case = one estimator class x one initial setting x every sequence, up to the depth, of: fits on different data and with different arguments, failing fits, single and double parameter changes, unknown and "
        "invalid parameters, clone from the parameters, text summary; every ordered pair of settings interleaved with every pair of fits; after every step the object is compared with a memoryless model (parameters only) and every earlier result with its copy; plus an interrupt "
        "(KeyboardInterrupt) injected at every function call of a fit")
ASSUMPTIONS = ["depth 3, 2 for the slow factor-model estimator; 4 in the thorough tier for the classes with cheap fits", "interrupts are injected at entry of the library's functions"]
CHUNK = 1
_D = {}


def data(kind, seed, small=False):
    k = (kind, seed, small)
    if k not in _D:
        df = zoo.frame(kind, seed=seed)
        if small:
            df = df[df.u.isin(sorted(df.u.unique())[:5])].reset_index(drop=True)
        elif kind == "stag" and seed == 1:
            df = df[~df.u.isin([102, 109])].reset_index(drop=True)
        elif kind != "stag" and seed == 1:
            df = df.iloc[:-1 * (5 if kind == "basic" else 2)].reset_index(drop=True)
        _D[k] = df
    return _D[k]


class Spec:
    def __init__(self, cls, kind, args, inits, sets, fits=None, badsets=(), small=False, depth=3):
        self.cls, self.kind, self.args, self.inits, self.sets, self.badsets, self.small, self.depth = cls, kind, args, inits, sets, badsets, small, depth
        self.fits = fits or [dict(), dict(seed=1)]


SPECS = [
    Spec("DifferenceInDifferences", "basic", zoo.B2, [dict(seed=1), dict(cluster="u", inference="wild_bootstrap", n_bootstrap=9, seed=3)],
         [dict(alpha=0.2), dict(robust=False), dict(cluster="u"), dict(cluster=None), dict(inference="wild_bootstrap", n_bootstrap=7), dict(inference="analytical"), dict(bootstrap_weights="webb", seed=5)],
         [dict(), dict(seed=1, covariates=["x"]), dict(absorb=["u"])]),
    Spec("MultiPeriodDiD", "basic", zoo.BT, [{}], [dict(alpha=0.2), dict(robust=False), dict(cluster="u"), dict(cluster=None), dict(rank_deficient_action="silent")],
         [dict(), dict(seed=1, covariates=["x"]), dict(post_periods=[2, 5], reference_period=1)]),
    Spec("TwoWayFixedEffects", "basic", dict(zoo.B2, unit="u"), [{}, dict(inference="wild_bootstrap", n_bootstrap=9, seed=3)],
         [dict(alpha=0.2), dict(cluster="cl"), dict(cluster=None), dict(inference="wild_bootstrap", n_bootstrap=7, seed=4), dict(inference="analytical")], [dict(), dict(seed=1, covariates=["x"])]),
    Spec("SyntheticDiD", "basic", dict(zoo.BT, unit="u"), [dict(n_bootstrap=5, seed=2)], [dict(alpha=0.2), dict(variance_method="placebo"), dict(variance_method="bootstrap"), dict(lambda_reg=1.5), dict(zeta=0.3), dict(seed=9)],
         [dict(), dict(seed=1, covariates=["x"])], badsets=[dict(variance_method="zzz")]),
    Spec("CallawaySantAnna", "stag", zoo.SG, [{}, dict(n_bootstrap=6, seed=3)],
         [dict(alpha=0.2), dict(estimation_method="reg"), dict(control_group="not_yet_treated"), dict(base_period="universal"), dict(anticipation=1), dict(bootstrap_weights="mammen"), dict(bootstrap_weight_type="webb"),
          dict(n_bootstrap=6, seed=8), dict(n_bootstrap=0)],
         [dict(), dict(seed=1, aggregate="all"), dict(covariates=["x"], aggregate="event_study")], badsets=[dict(estimation_method="zzz"), dict(alpha=0.4, control_group="zzz"), dict(bootstrap_weights="zzz"), dict(base_period="zzz")]),
    Spec("SunAbraham", "stag", zoo.SG, [{}, dict(n_bootstrap=3, seed=3), dict(anticipation=2, control_group="not_yet_treated")], [dict(alpha=0.2), dict(control_group="not_yet_treated"), dict(anticipation=1), dict(anticipation=0), dict(cluster="cl"), dict(n_bootstrap=0)],
         [dict(), dict(seed=1, covariates=["x"])], badsets=[dict(control_group="zzz"), dict(alpha=0.4, rank_deficient_action="zzz")]),
    Spec("BaconDecomposition", "stag", zoo.SG, [{}], [dict(weights="exact"), dict(weights="approximate")], [dict(), dict(seed=1)], badsets=[dict(weights="zzz")]),
    Spec("TripleDifference", "ddd", zoo.DD3, [{}], [dict(alpha=0.2), dict(estimation_method="reg"), dict(estimation_method="ipw"), dict(robust=False), dict(cluster="u"), dict(cluster=None), dict(pscore_trim=0.2)],
         [dict(), dict(seed=1, covariates=["x"])], badsets=[dict(estimation_method="zzz"), dict(alpha=0.4, rank_deficient_action="zzz")]),
    Spec("TROP", "basic", dict(outcome="y", treatment="dp", unit="u", time="t"), [dict(lambda_time_grid=[0.5], lambda_unit_grid=[0.2], lambda_nn_grid=[1.0], max_iter=4, n_bootstrap=3, seed=2)],
         [dict(alpha=0.2), dict(method="joint"), dict(method="twostep"), dict(lambda_nn_grid=[1e6]), dict(variance_method="jackknife"), dict(seed=5)], [dict(), dict(seed=1)], badsets=[dict(method="zzz"), dict(alpha=0.4, variance_method="zzz")],
         small=True, depth=2),
    Spec("HonestDiD", "multi", {}, [{}, dict(method="smoothness", M=0.2)], [dict(alpha=0.2), dict(M=2.0), dict(method="combined"), dict(method="relative_magnitude"), dict(l_vec=np.array([0.5, 0.25, 0.25]))],
         [dict(), dict(seed=1), dict(M=0.3)], badsets=[dict(M=-1.0), dict(alpha=3.0), dict(M=0.9, method="zzz")]),
    Spec("PreTrendsPower", "cs", {}, [{}], [dict(alpha=0.2), dict(power=0.6), dict(violation_type="constant"), dict(violation_type="last_period"), dict(violation_type="linear")], [dict(), dict(seed=1), dict(M=0.3)],
         badsets=[dict(power=2.0), dict(violation_type="custom"), dict(alpha=0.4, violation_type="zzz")]),
]
BY = {s.cls: s for s in SPECS}


def ops_of(sp):
    ops = [("fit", i) for i in range(len(sp.fits))] + [("badfit", i) for i in range(2)]
    ops += [("set", i) for i in range(len(sp.sets))] + [("badset", i) for i in range(len(sp.badsets) + 3)] + [("clone", 0), ("read", 0)]
    return ops


def cases(tier):
    big = tier == "thorough"
    for sp in SPECS:
        ops = ops_of(sp)
        for init in range(len(sp.inits)):
            depth = sp.depth + (1 if big and sp.cls in ("DifferenceInDifferences", "TwoWayFixedEffects", "BaconDecomposition", "PreTrendsPower") and init == 0 else 0)
            pre = 1 if depth <= 3 else 2
            for first in itertools.product(range(len(ops)), repeat=pre):
                yield dict(kind="seq", cls=sp.cls, init=init, first=list(first), depth=depth)
            for a in range(len(sp.sets)):
                yield dict(kind="toggle", cls=sp.cls, init=init, a=a)
            for f in range(len(sp.fits)):
                for s in range(-1, len(sp.sets) if big and sp.cls != "TROP" else 0):
                    yield dict(kind="intr", cls=sp.cls, init=init, fit=f, set=s, occ=3 if big else 1)
            for s in range(0 if big else len(sp.sets)):
                if not big and sp.cls not in ("SyntheticDiD", "SunAbraham"):
                    yield dict(kind="intr", cls=sp.cls, init=init, fit=0, set=s, occ=1)


_R = {}


def source(sp, seed):
    import diff_diff as dd
    k = (sp.kind, seed)
    if k not in _R:
        if sp.kind == "multi":
            df = data("basic", seed)
            _R[k] = dd.CallawaySantAnna(base_period="universal").fit(data("stag", seed), aggregate="event_study", **zoo.SG)
        else:
            _R[k] = dd.CallawaySantAnna().fit(data("stag", seed), aggregate="event_study", **zoo.SG)
    return _R[k]


def do_fit(sp, obj, spec):
    spec = dict(spec)
    seed = spec.pop("seed", 0)
    if sp.cls in ("HonestDiD", "PreTrendsPower"):
        return obj.fit(source(sp, seed), **spec)
    return obj.fit(data(sp.kind, seed, sp.small), **sp.args, **spec)


def bad_fit(sp, obj, i):
    if sp.cls in ("HonestDiD", "PreTrendsPower"):
        return obj.fit("nonsense" if i == 0 else None)
    df = data(sp.kind, 0, sp.small)
    if i == 0:
        return obj.fit(df, **dict(sp.args, outcome="nope"))
    col = sp.args.get("first_treat") or sp.args.get("treatment") or sp.args.get("group")
    if "first_treat" in sp.args:
        if sp.cls == "BaconDecomposition":
            return obj.fit(df, **dict(sp.args, time="nope"))
        return obj.fit(df[df.g > 0], **sp.args)            # no controls
    if sp.cls == "TwoWayFixedEffects":
        return obj.fit(df, **dict(sp.args, unit="nope"))
    return obj.fit(df.assign(**{col: 3}), **sp.args)       # not binary


def fresh(cls, params):
    import diff_diff as dd
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(dd, cls)(**params)


_WANT = {}


def key_of(params):
    return repr(sorted(params.items(), key=lambda kv: kv[0]))


def want_fit(sp, params, i):
    k = (sp.cls, key_of(params), i)
    if k not in _WANT:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _WANT[k] = ("ok", zoo.flat(do_fit(sp, fresh(sp.cls, params), sp.fits[i])))
        except Exception as e:  # noqa: BLE001
            _WANT[k] = ("exc", type(e).__name__)
    return _WANT[k]


def public(o):
    """Current parameters as the object reports them."""
    return {k: v for k, v in o.get_params().items()}


def peq(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) if isinstance(a[k], np.ndarray) or isinstance(b[k], np.ndarray) else a[k] == b[k] for k in a)


def ctor_params(cls, got):
    """What to construct an equal object with: the deprecated alias is not passed on."""
    return {k: v for k, v in got.items() if k != "bootstrap_weight_type"}


class World:
    def __init__(self, sp, init, cx):
        self.sp, self.cx = sp, cx
        self.obj = fresh(sp.cls, sp.inits[init])
        self.params = ctor_params(sp.cls, public(fresh(sp.cls, sp.inits[init])))
        self.kept = []          # (result, flat copy)
        self.last = None
        self.err = np.geterr()

    def check_params(self, what):
        got = ctor_params(self.sp.cls, public(self.obj))
        self.cx.ok(peq(got, self.params), "%s: parameters %s, model %s" % (what, got, self.params))

    def step(self, op, trail):
        sp, cx = self.sp, self.cx
        kind, i = op
        tag = "%s after %s" % (op, trail)
        if kind == "fit":
            state, want = want_fit(sp, self.params, i)
            r, e = cx.attempt(do_fit, sp, self.obj, sp.fits[i])
            if state == "exc":
                cx.same(type(e).__name__, want, tag + ": fails like a fresh object")
            elif e is not None:
                cx.bad(tag + ": failed with %s: %s but a fresh object succeeds" % (type(e).__name__, e))
            else:
                d = zoo.diff(zoo.flat(r), want, rtol=1e-9, atol=1e-12)
                cx.ok(d is None, tag + ": differs from a fresh object: %s" % d)
                self.kept.append((r, zoo.flat(r)))
                self.last = r
                if hasattr(self.obj, "results_"):
                    cx.ok(self.obj.results_ is r and self.obj.is_fitted_, tag + ": results_ is the returned result")
        elif kind == "badfit":
            r, e = cx.attempt(bad_fit, sp, self.obj, i)
            cx.ok(e is not None, tag + ": invalid data accepted")
            if hasattr(self.obj, "results_"):
                cx.ok(self.obj.results_ is self.last, tag + ": a failed fit replaced the result")
                cx.same(bool(self.obj.is_fitted_), self.last is not None, tag + ": is_fitted_ after a failed fit")
        elif kind == "set":
            new = sp.sets[i]
            p = {k: v for k, v in self.params.items()}
            p.update({("bootstrap_weights" if k == "bootstrap_weight_type" else k): v for k, v in new.items()})
            r = cx.op(self.obj.set_params, **new)
            cx.ok(r is self.obj, tag + ": set_params returns the object")
            self.params = p
            self.alias(tag)
        elif kind == "badset":
            bads = [dict(b) for b in sp.badsets] + [dict(alpha=0.33, no_such_parameter=1) if "alpha" in self.params else dict(no_such_parameter=1), dict(fit=None), dict(results_=None)]
            before = dict(vars(self.obj))
            cx.raises(tag + ": set_params(%s)" % bads[i], (ValueError, TypeError), self.obj.set_params, **bads[i])
            cx.ok(all(vars(self.obj).get(k) is v for k, v in before.items()) and set(vars(self.obj)) == set(before), tag + ": a refused parameter changed the object")
        elif kind == "clone":
            p = public(self.obj)
            c = cx.op(fresh, sp.cls, p)
            cx.ok(peq(public(c), p), tag + ": clone has other parameters")
            cx.ok(c.get_params() is not c.get_params(), tag + ": get_params hands out a copy")
            self.obj.get_params().clear()
            self.obj, self.last = c, None
        elif kind == "read":
            if self.last is not None:
                for m in ("summary", "to_dict", "to_dataframe"):
                    if hasattr(self.last, m):
                        cx.attempt(getattr(self.last, m))
                repr(self.last)
            if hasattr(self.obj, "summary"):
                # the estimator's own summary is that of its last result, or a refusal
                if self.last is None:
                    cx.raises(tag + ": summary without a result", RuntimeError, self.obj.summary)
                else:
                    cx.same(cx.op(self.obj.summary), self.last.summary(), tag + ": summary of the last result")
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        cx.op(self.obj.print_summary)
                    cx.same(out.getvalue(), self.last.summary() + "\n", tag + ": printed summary")
        self.check_params(tag)
        cx.ok(np.geterr() == self.err, tag + ": floating-point error handling changed")
        for r, f in self.kept:
            d = zoo.diff(zoo.flat(r), f, rtol=0, atol=0)
            cx.ok(d is None, tag + ": an earlier result changed: %s" % d)

    def alias(self, tag):
        if "bootstrap_weights" in self.params:
            self.cx.same(self.obj.bootstrap_weight_type if hasattr(self.obj, "bootstrap_weight_type") else self.params["bootstrap_weights"], self.params["bootstrap_weights"], tag + ": both names of the weight law agree")


def seq(c, cx):
    sp = BY[c["cls"]]
    ops = ops_of(sp)
    n = 0
    for rest in itertools.product(range(len(ops)), repeat=c["depth"] - len(c["first"])):
        idx = list(c["first"]) + list(rest)
        o = [ops[i] for i in idx]
        if o[-1][0] not in ("fit", "badset") and c["depth"] > 2 and not (o[-1][0] == "read" and o[-2][0] in ("badfit", "clone", "fit")):
            continue            # only endings that observe something new
        w = World(sp, c["init"], cx)
        trail = []
        for op in o:
            w.step(op, trail)
            trail.append("%s%d" % op)
            if cx.violations:
                return
        n += 1
    cx.saw(c["cls"], c["init"], str(c["first"]), n)


def toggle(c, cx):
    """set, fit, set, fit: every ordered pair of settings with every pair of fits between them."""
    sp = BY[c["cls"]]
    n = 0
    nf = range(len(sp.fits))
    for b in range(len(sp.sets)):
        for f, g in itertools.product(nf, nf):
            w = World(sp, c["init"], cx)
            trail = []
            for op in (("set", c["a"]), ("fit", f), ("set", b), ("fit", g)):
                w.step(op, trail)
                trail.append("%s%d" % op)
                if cx.violations:
                    return
            n += 1
    cx.saw(c["cls"], c["init"], c["a"], n)


class Stop(KeyboardInterrupt):
    pass


def calls(f, k=None):
    """Run f; with k, raise Stop at the k-th call of a library function. Returns (result, call sites, stopped)."""
    sites = []
    root = REPO + "/diff_diff"

    def tr(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(root):
            b = frame.f_back
            sites.append((frame.f_code.co_filename, frame.f_code.co_firstlineno, b.f_code.co_name if b else "", b.f_lineno if b else 0))
            if len(sites) == k:
                raise Stop()
        return None
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return f(), sites, False
    except Stop:
        return None, sites, True
    finally:
        sys.settrace(old)


def intr(c, cx):
    sp = BY[c["cls"]]
    fit = sp.fits[c["fit"]]
    params = dict(sp.inits[c["init"]])
    if c["set"] >= 0:
        params.update(sp.sets[c["set"]])
    p0 = ctor_params(c["cls"], public(fresh(c["cls"], params)))
    other = [i for i in range(len(sp.fits)) if i != c["fit"]][0]
    state, want = want_fit(sp, p0, c["fit"])
    so, wo = want_fit(sp, p0, other)
    if state == "exc" or so == "exc":
        cx.saw("exc")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, sites, stopped = calls(lambda: do_fit(sp, fresh(c["cls"], params), fit))
    seen, points = {}, []
    for k, site in enumerate(sites, 1):
        seen[site] = seen.get(site, 0) + 1
        if seen[site] <= c["occ"]:
            points.append(k)
    points.append(len(sites))
    done = 0
    for k in points:
        obj = fresh(c["cls"], params)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            prev = do_fit(sp, obj, sp.fits[other])
            snap = zoo.flat(prev)
            filters = list(warnings.filters)
            cx.ops += 1
            r, n, stopped = calls(lambda: do_fit(sp, obj, fit), k)
            cx.ok(list(warnings.filters) == filters, "interrupt at call %d left the warning filters changed" % k)
        done += stopped
        cx.ok(zoo.diff(zoo.flat(prev), snap, rtol=0, atol=0) is None, "interrupt at call %d changed the earlier result" % k)
        cx.ok(peq(ctor_params(c["cls"], public(obj)), p0), "interrupt at call %d changed the parameters" % k)
        if hasattr(obj, "results_"):
            now = obj.results_
            if now is not prev:
                d = zoo.diff(zoo.flat(now), want, rtol=1e-9, atol=1e-12) if now is not None else "no result"
                cx.ok(d is None, "interrupt at call %d left a partial result: %s" % (k, d))
        again = zoo.flat(cx.op(do_fit, sp, obj, fit))
        d = zoo.diff(again, want, rtol=1e-9, atol=1e-12)
        cx.ok(d is None, "the fit after an interrupt at call %d differs: %s" % (k, d))
        if cx.violations:
            return
    cx.saw(c["cls"], c["init"], c["fit"], c["set"], done)


def run(c, cx):
    dict(seq=seq, toggle=toggle, intr=intr)[c["kind"]](c, cx)
