"""Bounded exhaustive explorer: shared machinery.

A property module defines

    PROPERTY = "P01"
    TITLE, RULE = ...             # RULE: how the space is generated / what is non trivial
    def cases(tier):              # deterministic enumeration of JSON-able case descriptors
    def run(case, cx):            # drive the real library on one case, compare with the model

Every case of the bounded space is executed; nothing is sampled.  `cx.op(fn, ...)` executes one
operation of the implementation (a transition), `cx.eq/ok/...` compare an observation with the
reference model.  Every violation is stored as a replayable artefact (the case descriptor).
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
for _k, _v in {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
               "MPLBACKEND": "Agg", "DIFF_DIFF_BACKEND": "python"}.items():
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class CaseFailed(Exception):
    """Raised to abandon a case after an unexpected exception was recorded."""


def _plain(v):
    if isinstance(v, (np.floating, float)):
        return repr(float(v))
    if isinstance(v, np.ndarray):
        return repr(np.array2string(v, precision=12, threshold=60))
    return repr(v)[:600]


def isnan(x):
    try:
        return x is None or (isinstance(x, (float, np.floating)) and math.isnan(float(x)))
    except Exception:
        return False


class Cx:
    """Execution context of one case."""

    def __init__(self, findings):
        self.ops = 0
        self.comparisons = 0
        self.violations = []
        self.known = {}
        self.outcome = []
        self.findings = findings

    # --- transitions -------------------------------------------------
    def op(self, fn, *a, **k):
        """One operation of the implementation that the model says must succeed."""
        self.ops += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except (KeyboardInterrupt, MemoryError, CaseTimeout):
            raise
        except BaseException as e:  # noqa: BLE001
            tb = traceback.format_exc().strip().splitlines()
            self.bad("operation %s failed: %s: %s" % (getattr(fn, "__qualname__", fn), type(e).__name__, e),
                     trace=" | ".join(x.strip() for x in tb[-4:]))
            raise CaseFailed()

    def attempt(self, fn, *a, **k):
        """One operation that may legitimately fail: returns (result, exception)."""
        self.ops += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k), None
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def warns(self, fn, *a, **k):
        """Operation plus the warnings it emitted."""
        self.ops += 1
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = fn(*a, **k)
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:  # noqa: BLE001
                self.bad("operation %s failed: %s: %s" % (getattr(fn, "__qualname__", fn), type(e).__name__, e))
                raise CaseFailed()
        return r, [str(x.message) for x in w]

    def raises(self, what, exc, fn, *a, **k):
        """The model says the operation must be refused with one of `exc`."""
        r, e = self.attempt(fn, *a, **k)
        self.comparisons += 1
        if e is None:
            self.bad("%s: was accepted, must be refused (result %s)" % (what, _plain(r)))
        elif not isinstance(e, exc):
            self.bad("%s: refused with %s: %s instead of %s" % (what, type(e).__name__, e, exc))
        return e

    # --- verdicts ----------------------------------------------------
    def bad(self, msg, **d):
        if len(self.violations) < 25:
            self.violations.append(msg + ("" if not d else "  [" + ", ".join(
                "%s=%s" % (k, _plain(v)) for k, v in d.items()) + "]"))

    def ok(self, cond, msg, **d):
        self.comparisons += 1
        if not cond:
            self.bad(msg, **d)
        return bool(cond)

    @staticmethod
    def close(got, want, rtol=1e-7, atol=1e-9):
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            return False
        if g.shape != w.shape:
            return False
        return bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))

    def eq(self, got, want, msg, rtol=1e-7, atol=1e-9, **d):
        """Numeric agreement (NaN equals NaN, shapes must agree)."""
        self.comparisons += 1
        if got is None and want is None:
            return True
        if got is None:
            got = np.nan
        if not self.close(got, want, rtol, atol):
            self.bad(msg + ": got %s, model %s" % (_plain(got), _plain(want)), **d)
            return False
        return True

    def same(self, got, want, msg, **d):
        """Exact equality of plain values."""
        self.comparisons += 1
        try:
            if isinstance(got, float) and isinstance(want, float) and math.isnan(got) and math.isnan(want):
                return True
            r = bool(got == want)
        except Exception:
            r = False
        if not r:
            self.bad(msg + ": got %s, model %s" % (_plain(got), _plain(want)), **d)
        return r

    def finding(self, fid, msg):
        """A mismatch that exactly reproduces the defect recorded under `fid`."""
        self.comparisons += 1
        if fid in self.findings:
            self.known.setdefault(fid, msg)
        else:
            self.bad("unlisted finding %s: %s" % (fid, msg))

    def eq_or(self, got, want, fid, defect, msg, rtol=1e-7, atol=1e-9, **d):
        """Agreement with the model, or else exactly the value of the recorded defect."""
        self.comparisons += 1
        if got is None:
            got = np.nan
        if self.close(got, want, rtol, atol):
            return True
        if defect is not None and self.close(got, defect, rtol, atol):
            self.finding(fid, msg + ": got %s, correct %s" % (_plain(got), _plain(want)))
            return False
        self.bad(msg + ": got %s, model %s" % (_plain(got), _plain(want)), **d)
        return False

    def saw(self, *vals):
        """Record an observation for the distinct-outcome count."""
        for v in vals:
            if isinstance(v, (float, np.floating)):
                v = "%.9g" % v
            self.outcome.append(str(v))


# ---------------------------------------------------------------------
def load_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(t.split("=", 1) for t in line[8:].split() if "=" in t and t.split("=")[0] in ("property", "id"))
                if f.get("property") == prop:
                    out[f["id"]] = line.split("id=" + f["id"], 1)[1].strip()
    return out


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


LIMIT_S = int(os.environ.get("MC_CASE_LIMIT", "150"))


def run_case(mod, case, findings):
    cx = Cx(findings)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT_S)
    try:
        return _run_case(mod, case, cx)
    except CaseTimeout:
        cx.bad("case did not terminate within %d s" % LIMIT_S)
        return cx
    finally:
        signal.alarm(0)


def _run_case(mod, case, cx):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, cx)
    except CaseFailed:
        pass
    except (KeyboardInterrupt, MemoryError, CaseTimeout):
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc().strip().splitlines()
        cx.bad("unexpected %s: %s" % (type(e).__name__, e), trace=" | ".join(x.strip() for x in tb[-6:]))
    return cx


_STATE = {}


def _work(chunk):
    mod, findings = _STATE["mod"], _STATE["findings"]
    agg = dict(n=0, ops=0, cmp=0, viol=[], known={}, outs=[], nontrivial=0)
    for case in chunk:
        cx = run_case(mod, case, findings)
        agg["n"] += 1
        agg["ops"] += cx.ops
        agg["cmp"] += cx.comparisons
        if cx.violations:
            agg["viol"].append((case, cx.violations))
        for k, v in cx.known.items():
            agg["known"].setdefault(k, (v, case))
        key = hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8).digest()
        out = hashlib.blake2b("|".join(cx.outcome).encode(), digest_size=8).digest() if cx.outcome else None
        agg["outs"].append((key, out))
    return agg


def chunks(it, n):
    buf = []
    for c in it:
        buf.append(c)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def main(mod, tier, replay=None, procs=None, limit=None):
    t0 = time.time()
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    findings = load_findings(prop)
    if hasattr(mod, "setup"):
        mod.setup(tier)
    if replay:
        case = json.load(open(replay))["case"]
        cx = run_case(mod, case, findings)
        print(json.dumps(case))
        for v in cx.violations:
            print("  ", v)
        for k, v in cx.known.items():
            print("   KNOWN-FINDING", k, v)
        if cx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(replay)))
            return 1
        print("no violation on replay")
        return 0
    procs = procs or int(os.environ.get("MC_PROCS", str(min(8, os.cpu_count() or 1))))
    _STATE.update(mod=mod, findings=findings)
    tot = dict(n=0, ops=0, cmp=0)
    viol, known, keys, outs, samples = [], {}, set(), set(), []
    gen = mod.cases(tier)
    if limit:
        import itertools
        gen = itertools.islice(gen, limit)
    size = getattr(mod, "CHUNK", 8)

    def absorb(a):
        tot["n"] += a["n"]
        tot["ops"] += a["ops"]
        tot["cmp"] += a["cmp"]
        viol.extend(a["viol"])
        for k, v in a["known"].items():
            known.setdefault(k, v)
        for key, out in a["outs"]:
            keys.add(key)
            if out is not None:
                outs.add(out)

    def feed():
        for i, c in enumerate(chunks(gen, size)):
            if i in (0, 3, 17, 60):
                samples.append(c[0])
            yield c

    if procs == 1:
        for c in feed():
            absorb(_work(c))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as pool:
            for a in pool.imap_unordered(_work, feed()):
                absorb(a)
    wall = time.time() - t0
    trivial = getattr(mod, "MIN_OUTCOMES", 2)
    cov = dict(states=len(keys), transitions=tot["ops"], traces_validated_against_impl=tot["n"],
               comparisons=tot["cmp"], evaluations=tot["n"], distinct_nontrivial=len(outs),
               rule=mod.RULE, samples=samples, exhaustive=limit is None)
    level = getattr(mod, "LEVEL", "model_checking")
    if level in ("exploration", "fault_enumeration"):
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.pop(k)
        cov["operations"] = tot["ops"]
        cov["distinct_cases"] = len(keys)
    else:
        cov.pop("evaluations")
        cov["distinct_outcomes"] = cov.pop("distinct_nontrivial")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
              violations=len(viol), assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: cases=%d (distinct %d) operations=%d comparisons=%d distinct_outcomes=%d wall=%.1fs" % (
        prop, tier, tot["n"], len(keys), tot["ops"], tot["cmp"], len(outs), wall))
    for fid in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, findings.get(fid) or known[fid][0]))
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        viol.sort(key=lambda cv: len(json.dumps(cv[0], default=str)))
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=viol[0][0], messages=viol[0][1],
                           others=[dict(case=c, messages=m) for c, m in viol[1:20]], total=len(viol)),
                      f, indent=1, default=str)
        for c, m in viol[:3]:
            print("case %s" % json.dumps(c, default=str)[:400])
            for x in m[:4]:
                print("   " + x[:700])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if tot["n"] == 0 or len(outs) < trivial:
        print("vacuous exploration: %d cases, %d outcomes" % (tot["n"], len(outs)))
        return 2
    return 0
