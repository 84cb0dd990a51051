"""P27: backend selection and equality of the backends, with a stand-in for the accelerated module.

The compiled module cannot be built here; the stand-in follows its source (rust/src): strict argument
types, the same algorithms and the same error texts, plus injected faults.
"""
import importlib
import itertools
import os
import pickle
import sys
import types
import warnings

from .core import np, pd
from . import zoo

PROPERTY = "P27"
LEVEL = "fault_enumeration"
RULE = ("import: every value of the setting x every state of the accelerated module (absent, failing, each function missing, complete), each in a fresh import; "
        "same: every entry point of the library under the pure and the accelerated backend, field by field; "
        "fault: every accelerated function x every call to it made by an entry point x every kind of trouble reported by that call; "
        "direct: least squares, covariance and weight functions on every small design x label type x array kind x trouble")
ASSUMPTIONS = ["the accelerated module is a stand-in written from the Rust source's contract (it cannot be compiled offline); its random streams are made equal to numpy's",
               "settings other than auto, python, rust (any case) are not judged",
               "trouble in the first 8 calls of each function per fit (thorough 40)"]
CHUNK = 2
MIN_OUTCOMES = 20
FUNCS = ["generate_bootstrap_weights_batch", "compute_synthetic_weights", "project_simplex", "solve_ols", "compute_robust_vcov", "compute_unit_distance_matrix", "loocv_grid_search",
         "bootstrap_trop_variance", "loocv_grid_search_joint", "bootstrap_trop_variance_joint"]
UNSTABLE = "Matrix inversion numerically unstable (residual=1.00e-03 > threshold=2.00e-04). Design matrix may be near-singular."
SINGULAR = "Matrix inversion failed (singular matrix)"
NAME = "diff_diff._rust_backend"


# --------------------------------------------------------------------- the stand-in
def _a(x, nd, dt):
    if not isinstance(x, np.ndarray) or x.dtype != np.dtype(dt) or x.ndim != nd:
        raise TypeError("argument: 'ndarray' object cannot be converted to 'PyArray<T, D>' (%r, %r)" % (getattr(x, "dtype", type(x)), getattr(x, "ndim", None)))
    return x


def f_vcov(x, u, cl):
    n, k = x.shape
    try:
        inv = np.linalg.inv(x.T @ x)
    except np.linalg.LinAlgError:
        raise ValueError(SINGULAR)
    if not np.isfinite(inv).all():
        raise ValueError(SINGULAR)
    if np.abs(x.T @ x @ inv - np.eye(k)).max() > 1e-4 * k:
        raise ValueError(UNSTABLE)
    if cl is None:
        return inv @ (x.T @ (x * (u ** 2)[:, None])) @ inv * (n / (n - k))
    s = x * u[:, None]
    labs = sorted(set(cl.tolist()))
    if len(labs) < 2:
        raise ValueError("Need at least 2 clusters for cluster-robust SEs, got %d" % len(labs))
    S = np.array([s[cl == c].sum(axis=0) for c in labs])
    g = len(labs)
    return inv @ (S.T @ S) @ inv * (g / (g - 1) * (n - 1) / (n - k))


class Fake:
    """The stand-in module and its log; `trouble` = {function: {call index: kind}}."""

    def __init__(self, trouble=None, missing=(), lam=None):
        self.calls = {f: 0 for f in FUNCS}
        self.trouble = trouble or {}
        self.lam = lam
        m = types.ModuleType(NAME)
        for f in FUNCS:
            if f not in missing:
                setattr(m, f, self.wrap(f))
        self.module = m

    def wrap(self, f):
        impl = getattr(self, "_" + f)

        def call(*a, **k):
            i = self.calls[f]
            self.calls[f] += 1
            t = self.trouble.get(f, {})
            kind = t.get(i, t.get("all"))
            if kind in ("unstable", "singular"):
                raise ValueError(UNSTABLE if kind == "unstable" else SINGULAR)
            if kind == "clusters":
                raise ValueError("Need at least 2 clusters for cluster-robust SEs, got 1")
            if kind in ("TypeError", "RuntimeError", "MemoryError", "KeyboardInterrupt"):
                raise {"TypeError": TypeError, "RuntimeError": RuntimeError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[kind]("stand-in trouble")
            r = impl(*a, **k)
            if kind == "nanvcov":
                r = (r[0], r[1], None if r[2] is None else np.full_like(r[2], np.nan))
            if kind == "partnan":
                v = None if r[2] is None else r[2].copy()
                if v is not None:
                    v[-1, -1] = np.nan
                r = (r[0], r[1], v)
            if kind == "infscore":
                r = r[:3] + (np.inf, 0, 5, (0, 0))
            if kind == "none":
                r = (np.array([]), 0.0)
            return r
        return call

    def _generate_bootstrap_weights_batch(self, n_bootstrap, n_units, weight_type, seed):
        if weight_type not in ("rademacher", "mammen", "webb"):
            raise ValueError("Unknown weight type: %s" % weight_type)
        int(seed)
        rng = np.random.default_rng(SEED[-1] if SEED else None)
        if weight_type == "rademacher":
            return rng.choice([-1.0, 1.0], size=(n_bootstrap, n_units))
        if weight_type == "mammen":
            s = np.sqrt(5)
            return rng.choice([-(s - 1) / 2, (s + 1) / 2], size=(n_bootstrap, n_units), p=[(s + 1) / (2 * s), 1 - (s + 1) / (2 * s)])
        v = np.sqrt([1.5, 1.0, 0.5])
        return rng.choice(np.concatenate([-v, v[::-1]]), size=(n_bootstrap, n_units))

    def _project_simplex(self, v):
        _a(v, 1, float)
        u = np.sort(v)[::-1]
        c = np.cumsum(u)
        k = max(j for j in range(len(u)) if u[j] * (j + 1) > c[j] - 1)
        return np.maximum(v - (c[k] - 1) / (k + 1), 0)

    def _compute_synthetic_weights(self, y_control, y_treated, lambda_reg=0.0, max_iter=None, tol=None):
        _a(y_control, 2, float), _a(y_treated, 1, float), float(lambda_reg)
        n = y_control.shape[1]
        H = y_control.T @ y_control + lambda_reg * np.eye(n)
        f = y_control.T @ y_treated + lambda_reg / n
        w = np.full(n, 1.0 / n)
        st = 1.0 / (np.linalg.norm(H, 2) + 1e-10)
        for _ in range(max_iter or 1000):
            o, w = w, self._project_simplex(w - st * (H @ w - f))
            if np.linalg.norm(w - o) < (tol or 1e-6):
                break
        return w

    def _solve_ols(self, x, y, cluster_ids=None, return_vcov=True):
        _a(x, 2, float), _a(y, 1, float)
        if cluster_ids is not None:
            _a(cluster_ids, 1, "int64")
        U, s, Vt = np.linalg.svd(x, full_matrices=False)
        keep = s > s.max() * 1e-7
        b = Vt.T @ np.where(keep, (U.T @ y) / np.where(keep, s, 1), 0)
        e = y - x @ b
        V = None
        if return_vcov:
            V = np.full((x.shape[1],) * 2, np.nan) if keep.sum() < x.shape[1] else f_vcov(x, e, cluster_ids)
        return b, e, V

    def _compute_robust_vcov(self, x, residuals, cluster_ids=None):
        _a(x, 2, float), _a(residuals, 1, float)
        if cluster_ids is not None:
            _a(cluster_ids, 1, "int64")
        return f_vcov(x, residuals, cluster_ids)

    def _compute_unit_distance_matrix(self, y, d):
        _a(y, 2, float), _a(d, 2, float)
        n = y.shape[1]
        D = np.full((n, n), np.inf)
        ok = (d == 0) & np.isfinite(y)
        for i in range(n):
            for j in range(n):
                b = ok[:, i] & ok[:, j]
                if b.any():
                    D[i, j] = np.sqrt(np.mean((y[b, i] - y[b, j]) ** 2))
        np.fill_diagonal(D, 0)
        return D

    def _search(self, y, d, mask, arrs, rest):
        _a(y, 2, float), _a(d, 2, float), _a(mask, 2, "uint8")
        for g in arrs:
            _a(g, 1, float)
        m, it, tol, seed = rest
        int(m), int(it), float(tol), int(seed)
        if self.lam is None:
            return 0.0, 0.0, 0.0, np.inf, 0, 5, None
        return tuple(self.lam[:3]) + (self.lam[3], 7, 7, None)

    def _loocv_grid_search(self, y, d, mask, tdist, lt, lu, ln, *rest):
        _a(tdist, 2, "int64")
        return self._search(y, d, mask, (lt, lu, ln), rest)

    def _loocv_grid_search_joint(self, y, d, mask, lt, lu, ln, *rest):
        return self._search(y, d, mask, (lt, lu, ln), rest)

    def _bootstrap_trop_variance(self, y, d, mask, tdist, lt, lu, ln, nb, it, tol, seed):
        _a(y, 2, float), _a(d, 2, float), _a(mask, 2, "uint8"), _a(tdist, 2, "int64")
        return self._boot(lt, lu, ln, nb, it, tol, seed)

    def _bootstrap_trop_variance_joint(self, y, d, lt, lu, ln, nb, it, tol, seed):
        _a(y, 2, float), _a(d, 2, float)
        return self._boot(lt, lu, ln, nb, it, tol, seed)

    def _boot(self, lt, lu, ln, nb, it, tol, seed):
        # the accelerated resampling has its own random stream: the stand-in always reports trouble
        float(lt), float(lu), float(ln), int(nb), int(it), float(tol), int(seed)
        raise RuntimeError("stand-in: no resampling")


SEED = []


class Blocker:
    """Import hook: the accelerated module is absent or fails on import."""

    def __init__(self, exc):
        self.exc, self.hits = exc, 0

    def find_spec(self, name, path=None, target=None):
        if name == NAME:
            self.hits += 1
            raise self.exc
        return None


def fresh(setting, fake=None, exc=None):
    """Import the library anew; returns the package."""
    for k in [k for k in sys.modules if k == "diff_diff" or k.startswith("diff_diff.")]:
        del sys.modules[k]
    os.environ.pop("DIFF_DIFF_BACKEND", None)
    if setting is not None:
        os.environ["DIFF_DIFF_BACKEND"] = setting
    b = None
    if fake is not None:
        sys.modules[NAME] = fake.module
    else:
        b = Blocker(exc or ModuleNotFoundError("No module named " + NAME))
        sys.meta_path.insert(0, b)
    try:
        return importlib.import_module("diff_diff"), b
    finally:
        if b is not None:
            sys.meta_path.remove(b)


def in_child(fn, *a):
    """Run fn in a forked process (a fresh import does not disturb this one); its value."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            import signal
            signal.alarm(0)
            try:
                v = ("ok", fn(*a))
            except BaseException as e:  # noqa: BLE001
                import traceback
                v = ("harness", "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:]))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ("harness", "child died")
    return pickle.loads(data)


def value(cx, r):
    if r[0] != "ok":
        cx.bad("could not run: " + r[1])
        return None
    return r[1]


# --------------------------------------------------------------------- import matrix
SETTINGS = [None, "", "auto", "AUTO", "python", "Python", "PYTHON", "rust", "Rust", "RUST"]
MODULES = ["absent", "ImportError", "OSError", "full"] + ["missing:" + f for f in FUNCS]


def imp(setting, mod):
    f = b = None
    try:
        if mod in ("absent", "ImportError", "OSError"):
            dd, b = fresh(setting, exc={"absent": ModuleNotFoundError("no"), "ImportError": ImportError("undefined symbol"), "OSError": OSError("cannot open")}[mod])
        else:
            f = Fake(missing=[mod.split(":")[1]] if ":" in mod else ())
            dd, _ = fresh(setting, f)
    except BaseException as e:  # noqa: BLE001
        return dict(exc=type(e).__name__, msg=str(e))
    used = {}
    import diff_diff._backend as B
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("diff_diff") and m is not (f and f.module):
            for k, v in vars(m).items():
                if f and callable(v) and any(v is vars(f.module).get(q) for q in FUNCS):
                    used[m.__name__ + "." + k] = 1
    r = None
    if setting is None or setting.lower() in ("auto", "", "python") or f:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e = zoo.BY["did-cluster"]
            df = zoo.frame("basic")
            r = float(dd.DifferenceInDifferences(**e.init).fit(df, **e.args).se)
    return dict(has=bool(dd.HAS_RUST_BACKEND), has2=bool(B.HAS_RUST_BACKEND), used=sorted(used), calls=dict(f.calls) if f else {}, hits=b.hits if b else None, r=r)


def c_import(c, cx):
    r = value(cx, in_child(imp, c["setting"], c["mod"]))
    if r is None:
        return
    s = (c["setting"] or "auto").lower()
    what = "setting %r, module %s" % (c["setting"], c["mod"])
    full = c["mod"] == "full"
    if s == "rust" and not full:
        cx.ok(r.get("exc") in ("ImportError", "ModuleNotFoundError", "OSError"), "fails loudly: %s: %s" % (what, r))
        if c["mod"] != "OSError":
            cx.ok(r.get("exc") == "ImportError" and "DIFF_DIFF_BACKEND" in r.get("msg", ""), "says why: %s: %s" % (what, r))
        cx.saw(what)
        return
    if s == "auto" and c["mod"] == "OSError":
        cx.saw(what)
        return
    if "exc" in r:
        cx.bad("%s: raised %s: %s" % (what, r["exc"], r["msg"]))
        return
    want = full and s != "python"
    cx.same(r["has"], want, "HAS_RUST_BACKEND, " + what)
    cx.same(r["has2"], want, "flag of the backend module, " + what)
    if not want:
        cx.same(r["used"], [], "accelerated functions reachable, " + what)
        cx.same(sum(r["calls"].values()), 0, "accelerated calls, " + what)
    else:
        cx.ok(sum(r["calls"].values()) > 0, "acceleration used, " + what)
    if s == "python":
        cx.same(r["hits"] or 0, 0, "pure setting tries to load the accelerated module, " + what)
    import diff_diff as dd
    e = zoo.BY["did-cluster"]
    cx.eq(r["r"], float(dd.DifferenceInDifferences(**e.init).fit(zoo.frame("basic"), **e.args).se), "standard error, " + what)
    cx.saw(what)


# --------------------------------------------------------------------- entry points
def prepare(name, var):
    e = zoo.BY[name]
    df = zoo.frame(e.kind)
    f = zoo.fill(e, df)
    extra = {}
    if var == "labels":
        for col in ("u", "cl", "fe"):
            if col in df.columns:
                df[col] = df[col].map(lambda v: "n%s" % v)
    elif var == "dup" and "covariates" in e.args:
        df["xd"] = df["x"] * 2
        extra = dict(covariates=list(e.args["covariates"]) + ["xd"])
    elif var == "f32":
        df["y"] = df["y"].astype("float32").astype("float64").astype("float32")
    elif var == "int":
        df["y"] = (df["y"] * 8).round().astype("int64")
    return (f if f is not None and f is not df else e), df, extra


def run_entry(name, var, fake_kw, setting):
    fake = Fake(**fake_kw) if fake_kw is not None else None
    real = np.random.default_rng

    def rng(seed=None):
        if isinstance(seed, (int, np.integer)):
            SEED.append(seed)
        return real(seed)
    dd, _ = fresh(setting, fake)
    e, df, extra = prepare(name, var)
    np.random.default_rng = rng
    if fake:  # the stand-in's own generator
        fake_rng = real
        globals()["np"] = types.SimpleNamespace(**{k: getattr(np, k) for k in dir(np) if k != "random"}, random=types.SimpleNamespace(default_rng=fake_rng))
    del SEED[:]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            k = zoo.Entry.call
            r = k(e, dd, df, extra=extra or None)
            out = zoo.flat(r)
            err = None
        except BaseException as ex:  # noqa: BLE001
            out, err = None, "%s: %s" % (type(ex).__name__, ex)
    return dict(out=out, err=err, calls=dict(fake.calls) if fake else {}, warn=[str(q.message) for q in w if "ackend" in str(q.message)])


_PURE = {}


def pure(cx, name, var):
    if (name, var) not in _PURE:
        _PURE[name, var] = value(cx, in_child(run_entry, name, var, None, "python"))
    return _PURE[name, var]


def lam_of(name, p):
    """The tuning values and score the pure search found, to be reported by the accelerated search."""
    if p is None or p["out"] is None:
        return None
    o = p["out"]
    t = [next((v for k, v in o.items() if k.endswith(q)), None) for q in (".lambda_time", ".lambda_unit", ".lambda_nn", ".loocv_score")]
    if any(v is None for v in t):
        return None
    return t


def compare(cx, p, q, what):
    if p is None or q is None:
        return
    if (p["err"] is None) != (q["err"] is None) or (p["err"] and p["err"].split(":")[0] != q["err"].split(":")[0]):
        cx.bad("%s: pure %s, accelerated %s" % (what, p["err"] or "succeeds", q["err"] or "succeeds"))
        return
    cx.comparisons += 1
    if p["out"] is not None:
        d = zoo.diff(q["out"], p["out"], rtol=1e-6, atol=1e-7)
        cx.comparisons += len(p["out"])
        cx.ok(d is None, "%s: accelerated / pure: %s" % (what, d))


def c_same(c, cx):
    p = pure(cx, c["name"], c["var"])
    q = value(cx, in_child(run_entry, c["name"], c["var"], dict(lam=lam_of(c["name"], p)), "rust"))
    cx.ops += 2
    compare(cx, p, q, "%s (%s)" % (c["name"], c["var"]))
    if q:
        cx.saw(c["name"] + str(sorted(k for k, v in q["calls"].items() if v)))


KINDS = {"solve_ols": ["unstable", "singular", "nanvcov", "partnan", "clusters", "TypeError", "RuntimeError", "MemoryError"],
         "compute_robust_vcov": ["unstable", "clusters", "TypeError", "RuntimeError", "MemoryError"],
         "loocv_grid_search": ["unstable", "RuntimeError", "infscore"], "loocv_grid_search_joint": ["unstable", "RuntimeError", "infscore"],
         "bootstrap_trop_variance": ["unstable", "TypeError", "none"], "bootstrap_trop_variance_joint": ["unstable", "TypeError"],
         "compute_synthetic_weights": [], "compute_unit_distance_matrix": [], "generate_bootstrap_weights_batch": [], "project_simplex": []}
TROUBLE = ("unstable", "singular", "nanvcov", "partnan", "infscore", "none")
# entry points that document catching a failing fit or reporting it as an entry of the result
CATCH = ("trend", "trend-robust", "permutation", "leave-one-out", "sa-boot", "sdid-placebo", "sdid-boot-cov", "equivalence", "did-wild", "twfe-wild")


def c_fault(c, cx):
    p = pure(cx, c["name"], c["var"])
    lam = lam_of(c["name"], p)
    base = value(cx, in_child(run_entry, c["name"], c["var"], dict(lam=lam), "rust"))
    if p is None or base is None or p["err"]:
        return
    for f in FUNCS:
        n = base["calls"].get(f, 0)
        for kind in KINDS[f]:
            if n == 0:
                continue
            if kind in ("nanvcov", "partnan", "unstable", "singular") or f.startswith("loocv") or f.startswith("bootstrap"):
                spots = list(range(min(n, c["cap"]))) + (["all"] if n > 1 else [])
            else:
                spots = list(range(min(n, c["cap"] // 2)))
            for i in spots:
                cx.ops += 1
                q = value(cx, in_child(run_entry, c["name"], c["var"], dict(lam=lam, trouble={f: {i: kind}}), "rust"))
                if q is None:
                    return
                what = "%s: %s in call %s of %s" % (c["name"], kind, i, f)
                if kind in TROUBLE or f.startswith(("loocv", "bootstrap")):
                    compare(cx, p, q, what)
                elif c["name"] not in CATCH:
                    want = {"clusters": "ValueError"}.get(kind, kind)
                    cx.ok(q["err"] is not None and q["err"].startswith(want), "%s is not swallowed: %s" % (what, q["err"]))
                cx.saw(c["name"] + f + kind)
                if len(cx.violations) > 3:
                    return


# --------------------------------------------------------------------- direct calls
def designs():
    """Small designs: a constant with every pair of columns of a small alphabet, well or badly scaled, possibly collinear."""
    base = [(0, 1, 0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 0, 1, 1), (1, 2, 3, 4, 5, 6, 7, 9), (-1, 0, 2, 0, 1, 3, 0, 1), (1, 1, 1, 1, 1, 1, 1, 1), (0, 2, 0, 2, 0, 2, 0, 2)]
    for i, j in itertools.combinations(range(len(base)), 2):
        for sc in (1.0, 1e-9, 1e6):
            yield np.column_stack([np.ones(8), np.array(base[i], float), np.array(base[j], float) * sc])


LABELS = [None, [1, 1, 2, 2, 3, 3, 4, 4], list("aabbccdd"), ["x", 1, "x", 1, 2, 2, "y", "y"], [1.5, 1.5, 2.5, 2.5, 3.5, 3.5, 4.5, 4.5], [0, 0, 0, 0, 0, 0, 0, 0], [7] * 4 + [3] * 4, list(range(8)), "cat", [1.0, 1.0, np.nan, np.nan, 2.0, 2.0, 3.0, 3.0]]


def label(k):
    v = LABELS[k]
    if v is None:
        return None
    if isinstance(v, str):
        return pd.Categorical(list("ddccbbaa"), categories=list("dcbae"))
    return np.array(v, dtype=object if k == 3 else None)


def as_kind(X, kind):
    return {"c": lambda: X, "f": lambda: np.asfortranarray(X), "strided": lambda: np.repeat(X, 2, axis=0)[::2], "f32": lambda: X.astype("float32"), "list": lambda: X.tolist(), "int": lambda: X.astype(int) if (X == X.astype(int)).all() else X}[kind]()


def c_direct(c, cx):
    r = value(cx, in_child(direct, c, None, "python"))
    if r is None:
        return
    for tr in [None] + c["troubles"]:
        q = value(cx, in_child(direct, c, tr, "rust"))
        if q is None:
            return
        for k in r:
            cx.ops += 1
            f = k.split()[0]
            if f == "vcov" and tr in ("singular", "nanvcov", "partnan"):
                continue    # an exactly singular matrix is refused by both; the bare variance has nothing to detect missing values with
            a, b = r[k], q[k]
            what = "design %d, %s, trouble %s" % (c["x"], k, tr)
            other = tr in ("TypeError", "RuntimeError", "MemoryError", "clusters")
            if other:
                if not b[2] or a[0] == "err":
                    continue
                cx.ok(b[0] == "err" and b[1].startswith({"clusters": "ValueError"}.get(tr, tr)), "%s is not swallowed: %s" % (what, b[:2]))
                continue
            if a[0] != b[0] or (a[0] == "err" and a[1].split(":")[0] != b[1].split(":")[0]):
                cx.bad("%s: pure %s, accelerated %s" % (what, a[:2], b[:2]))
                continue
            if a[0] == "ok":
                d = zoo.diff(b[1], a[1], rtol=1e-5, atol=1e-7)
                cx.ok(d is None, "%s: accelerated / pure %s" % (what, d))
            if (tr == "unstable" or tr == "nanvcov" and f not in ("ols-nov", "skip")) and b[2] and a[0] == "ok":
                cx.ok(b[3] > a[3], "a warning says that the pure computation is used: " + what)
        if len(cx.violations) > 4:
            return
    cx.saw(str(c["x"]) + str({k: v[0] for k, v in r.items()}))


def direct(c, tr, setting):
    fake = None
    if setting == "rust":
        fake = Fake(trouble={f: {"all": tr} for f in ("solve_ols", "compute_robust_vcov")} if tr else None)
    fresh(setting, fake)
    from diff_diff import linalg as L
    X = list(designs())[c["x"]]
    y = np.array([1.0, 3, 2, 5, 4, 8, 6, 11])
    out = {}
    for kind in c["kinds"]:
        for lab in range(len(LABELS)):
            for f in ("ols", "ols-fit", "ols-nov", "vcov", "silent", "error", "skip", "reg"):
                if f in ("ols-nov", "silent", "error", "skip", "ols-fit") and (lab not in (0, 2) or kind != "c"):
                    continue
                Xk = as_kind(X, kind)
                yk = as_kind(y[:, None], kind)
                yk = [v[0] for v in yk] if isinstance(yk, list) else yk[:, 0]
                cl = label(lab)
                if f == "vcov" and kind in ("list", "f32") or tr in ("nanvcov", "partnan") and f == "vcov":
                    continue
                if f in ("skip",) and c["deficient"]:
                    continue
                n0 = sum(fake.calls.values()) if fake else 0
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    try:
                        if f == "vcov":
                            b = np.linalg.lstsq(np.asarray(X), y, rcond=None)[0]
                            r = L.compute_robust_vcov(Xk, y - X @ b, cl)
                        elif f == "reg":
                            g = L.LinearRegression(include_intercept=False, cluster_ids=cl, rank_deficient_action="silent").fit(Xk, yk)
                            r = (g.coefficients_, g.vcov_, g.residuals_)
                        else:
                            r = L.solve_ols(Xk, yk, cluster_ids=cl, return_vcov=f != "ols-nov", return_fitted=f == "ols-fit",
                                            rank_deficient_action={"silent": "silent", "error": "error"}.get(f, "warn"), skip_rank_check=f == "skip")
                        v = ("ok", zoo.flat(tuple(r) if isinstance(r, tuple) else r))
                    except BaseException as e:  # noqa: BLE001
                        v = ("err", "%s: %s" % (type(e).__name__, e))
                out["%s %s labels %d" % (f, kind, lab)] = v + ((sum(fake.calls.values()) if fake else 0) > n0, len([1 for q in w if issubclass(q.category, UserWarning)]))
    return out


def c_weights(c, cx):
    """Synthetic weights under both backends: every small outcome table."""
    r = value(cx, in_child(weights, c, "python"))
    q = value(cx, in_child(weights, c, "rust"))
    if r is None or q is None:
        return
    for k in r:
        cx.ops += 1
        cx.eq(q[k], r[k], "synthetic weights %s" % (k,), atol=1e-6)
    cx.saw(str(r))


def weights(c, setting):
    fresh(setting, Fake() if setting == "rust" else None)
    from diff_diff import utils as U
    out = {}
    for k, tab in enumerate(itertools.product([0, 1, 3], repeat=c["n"] * 2)):
        if k % 8 != c["part"]:
            continue
        Y = np.array(tab, float).reshape(2, c["n"])
        for lam in (0.0, 1.0):
            for t in ([1.0, 2.0], [5.0, 0.0]):
                for kind in ("c", "int"):
                    out[tab, lam, tuple(t), kind] = np.array(U.compute_synthetic_weights(as_kind(Y, kind), as_kind(np.array(t), kind) if kind == "int" else np.array(t), lam))
    return out


SKIP = {"f-ddd", "f-trop", "f-bacon", "twfe-decompose"}


def cases(tier):
    big = tier == "thorough"
    for s in SETTINGS:
        for m in MODULES:
            yield dict(kind="import", setting=s, mod=m)
    for e in zoo.ALL:
        for var in ("plain", "labels", "dup", "f32", "int"):
            if var == "dup" and "covariates" not in e.args:
                continue
            yield dict(kind="same", name=e.name, var=var)
        if e.name not in SKIP or big:
            yield dict(kind="fault", name=e.name, var="plain", cap=40 if big else (8 if not e.name.startswith(("trop", "sa-boot", "sdid", "permutation")) else 3))
            if big and "covariates" in e.args:
                yield dict(kind="fault", name=e.name, var="dup", cap=8)
    for x, X in enumerate(designs()):
        yield dict(kind="direct", x=x, kinds=["c", "f", "strided", "f32", "list", "int"] if big or x % 3 == 0 else ["c", "int"], deficient=bool(np.linalg.matrix_rank(X / np.abs(X).max(axis=0)) < 3),
                   troubles=["unstable", "singular", "nanvcov", "TypeError", "RuntimeError", "clusters"] if big or x % 3 == 0 else ["unstable", "nanvcov"])
    for n in (2, 3):
        for part in range(8):
            yield dict(kind="weights", n=n, part=part)


def run(c, cx):
    globals()["c_" + c["kind"]](c, cx)
