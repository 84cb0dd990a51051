"""P26: dataset loading under every download fault, cache state, crash point and interleaving.

The network opener is a stand-in; the cache lives in a scratch HOME that every case creates and removes.
"""
import csv
import contextlib
import http.client
import io
import itertools
import os
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import urllib.error
import urllib.request
from pathlib import Path

import numpy as np
import pandas as pd

from . import core  # noqa: F401

PROPERTY = "P26"
LEVEL = "fault_enumeration"
RULE = ("history: one case = data set x initial cache state x first operation, exploring every sequence of load / forced load / clear with every download fault up to the depth, against a model whose only state is the cached version; "
        "crash: one case = data set x operation x initial cache, exploring a crash in every distinct persistent state met at an executed line or file event and, with the kernel's file-size limit, a crash or a full disk after every byte written (every 16th for three of the data sets in the quick tier), each followed by offline and online loads; "
        "race: one case = pair of concurrent operations x initial cache, exploring every interleaving of their system calls up to the preemption bound")
ASSUMPTIONS = ["crash = death of the process (data handed to the kernel survives, user-space buffers do not); loss of unsynced data at power failure is not modelled",
               "a response that is complete and decodable but not the data set (a schema change or an error page with status 200) is outside the fault model",
               "history depth 3 (thorough: 4 for one data set); two concurrent operations, at most 2 preemptions (thorough 3)"]
CHUNK = 1
MIN_OUTCOMES = 20
NAMES = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]
DOCCOLS = {"card_krueger": ["store_id", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post", "treated", "emp_change"],
           "castle_doctrine": ["state", "year", "first_treat", "homicide_rate", "population", "income", "treated", "cohort"],
           "divorce_laws": ["state", "year", "first_treat", "divorce_rate", "female_lfp", "suicide_rate", "treated", "cohort"],
           "mpdta": ["countyreal", "year", "lpop", "lemp", "first_treat", "treat"]}


def content(name, v, kind=0):
    """CSV text of version v served by the remote end; kind 1 = the column names of the original sources."""
    z = 10 * v
    if name == "card_krueger":
        return ("sheet,chain,nj,emp_pre,emp_post,wage_pre,wage_post\n1,bk,1,%d.5,21,4.6,5.1\n2,kfc,0,23,%d,4.7,4.6\n" if kind else
                "store_id,state,chain,emp_pre,emp_post,wage_pre,wage_post\n1,NJ,bk,%d.5,21,4.6,5.1\n2,PA,kfc,23,%d,4.7,4.6\n") % (z, z)
    if name == "castle_doctrine":
        return ("sid,state,year,effyear,homicide_rate,population,income\n1,AL,2005,2006,%d.5,100,7\n1,AL,2006,2006,8,101,7\n2,Ñ,2005,,%d,90,6\n" if kind else
                "state,year,first_treat,homicide_rate,population,income\nAL,2005,2006,%d.5,100,7\nAL,2006,2006,8,101,7\nÑ,2005,0,%d,90,6\n") % (z, z)
    if name == "divorce_laws":
        return ("stfips,state,year,unilateral,divorce_rate,female_lfp,suicide_rate\n1,AL,1970,0,%d.5,0.4,7\n1,AL,1971,1,8,0.4,7\n2,NY,1970,0,%d,0.3,6\n" if kind else
                "state,year,first_treat,divorce_rate,female_lfp,suicide_rate\nAL,1970,1971,%d.5,0.4,7\nAL,1971,1971,8,0.4,7\nNY,1970,0,%d,0.3,6\n") % (z, z)
    return ("countyreal,year,lpop,lemp,first.treat,treat\n1,2003,%d.5,5,2004,1\n1,2004,6,%d,2004,1\n2,2003,5,4,0,0\n" if kind else
            "countyreal,year,lpop,lemp,first_treat,treat\n1,2003,%d.5,5,2004,1\n1,2004,6,%d,2004,1\n2,2003,5,4,0,0\n") % (z, z)


def expect(name, v, kind=0):
    """Documented columns of the frame the content stands for."""
    rows = list(csv.DictReader(io.StringIO(content(name, v, kind))))
    out = {c: [] for c in DOCCOLS[name]}
    first = {}
    for r in rows:
        if name == "divorce_laws" and kind and r["unilateral"] == "1":
            first[r["state"]] = min(first.get(r["state"], 9999), int(r["year"]))
    for r in rows:
        q = dict(r)
        if name == "card_krueger":
            q.setdefault("store_id", r.get("sheet"))
            q.setdefault("state", {"1": "NJ", "0": "PA"}.get(r.get("nj")))
            q["treated"] = int(q["state"] == "NJ")
            q["emp_change"] = float(r["emp_post"]) - float(r["emp_pre"])
        elif name == "mpdta":
            q.setdefault("first_treat", r.get("first.treat"))
        else:
            if kind and name == "castle_doctrine":
                q["first_treat"] = r["effyear"] or "0"
            elif kind:
                q["first_treat"] = first.get(r["state"], 0)
            q["cohort"] = q["first_treat"]
            q["treated"] = int(0 < int(q["first_treat"]) <= int(r["year"]))
        for c in out:
            out[c].append(q[c])
    return out


def is_version(df, name, v, kind=0):
    want = expect(name, v, kind)
    if len(df) != len(want["state" if "state" in want else "year"]):
        return False
    for c, w in want.items():
        if c not in df.columns:
            return False
        for a, b in zip(df[c].tolist(), w):
            if isinstance(a, str):
                if a != b:
                    return False
            elif not abs(float(a) - float(b)) < 1e-9:
                return False
    return True


_BUILT = {}


def classify(df, name, kinds=(0,)):
    if not isinstance(df, pd.DataFrame):
        return "no frame: %r" % type(df)
    if len(df) > 20:
        if name not in _BUILT:
            _BUILT[name] = df.copy()
        if not df.equals(_BUILT[name]):
            return "a second built-in construction"
        return "built"
    for k in kinds:
        for v in range(1, 9):
            if is_version(df, name, v, k):
                return v
    return "not a version: %d rows, columns %s" % (len(df), list(df.columns))


# --------------------------------------------------------------------- network stand-in
class Resp(io.BytesIO):
    status = code = 200
    reason = msg = "OK"

    def __init__(self, data, err=None, part=0):
        super().__init__(data)
        self._data, self._err, self._part = data, err, part
        self.headers = http.client.HTTPMessage()
        self.headers["Content-Length"] = str(len(data))
        self.url = "stand-in"

    def read(self, n=-1):
        if self._err is not None:
            got = super().read(n if n is not None and n >= 0 else -1)
            if n is None or n < 0 or self.tell() >= self._part:
                raise self._err(got)
            return got
        return super().read(-1 if n is None else n)

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def getcode(self):
        return 200

    def info(self):
        return self.headers

    def getheader(self, k, d=None):
        return self.headers.get(k, d)


OPEN_FAULTS = [lambda: urllib.error.URLError("refused"), lambda: urllib.error.URLError(socket.gaierror(-2, "unknown")), lambda: urllib.error.URLError(socket.timeout("timed out")),
               lambda: urllib.error.HTTPError("u", 404, "Not Found", http.client.HTTPMessage(), io.BytesIO(b"no")), lambda: urllib.error.HTTPError("u", 503, "busy", http.client.HTTPMessage(), io.BytesIO(b"")),
               lambda: TimeoutError("timed out"), lambda: ConnectionResetError(104, "reset"), lambda: http.client.RemoteDisconnected("gone"), lambda: http.client.BadStatusLine("x"),
               lambda: http.client.LineTooLong("header"), lambda: OSError(113, "no route")]
READ_FAULTS = [lambda got: http.client.IncompleteRead(got[:40], 60), lambda got: TimeoutError("read timed out"), lambda got: ConnectionResetError(104, "reset"), lambda got: OSError(5, "io")]
BODY = ["empty", "blank", "undecodable"]
FAULTS = ["o%d" % i for i in range(len(OPEN_FAULTS))] + ["r%d" % i for i in range(len(READ_FAULTS))] + BODY
CORE = ["o0", "o5", "r0", "empty"]


class Net:
    """The stand-in for the network: what the next requests give."""

    def __init__(self):
        self.fault, self.version, self.kind, self.calls, self.timeouts = "o0", 1, 0, 0, []
        self.point = None

    def open(self, _self, req, data=None, timeout=None):
        self.calls += 1
        self.timeouts.append(timeout)
        url = req if isinstance(req, str) else req.full_url
        name = next((n for n in NAMES if n in url or n.split("_")[0] in url), None)
        f = self.fault
        v = self.version
        if self.point:
            self.point()
        if f is None:
            return Resp(content(name, v, self.kind).encode("utf-8"))
        if f[0] == "o":
            raise OPEN_FAULTS[int(f[1:])]()
        if f == "kbd":
            raise KeyboardInterrupt
        if f[0] == "r":
            return Resp(content(name, v, self.kind).encode("utf-8"), READ_FAULTS[int(f[1:])], 40)
        return Resp({"empty": b"", "blank": b" \n", "undecodable": b"a,b\n\xff\xfe,1\n"}[f])


@contextlib.contextmanager
def sandbox():
    import diff_diff.datasets as D
    root = tempfile.mkdtemp(prefix="mc_p26_")
    net = Net()
    old = dict(home=os.environ.get("HOME"), xdg=os.environ.get("XDG_CACHE_HOME"), op=urllib.request.OpenerDirector.open, cd=getattr(D, "_CACHE_DIR", None))
    home = os.path.join(root, "home")
    os.mkdir(home)
    cd = Path(home) / ".cache" / "diff_diff" / "datasets"
    try:
        os.environ["HOME"] = home
        os.environ["XDG_CACHE_HOME"] = os.path.join(home, ".cache")
        urllib.request.OpenerDirector.open = lambda s, r, data=None, timeout=None: net.open(s, r, data, timeout)
        if old["cd"] is not None:
            D._CACHE_DIR = cd
        with contextlib.redirect_stdout(io.StringIO()):
            yield D, cd, net
    finally:
        urllib.request.OpenerDirector.open = old["op"]
        if old["cd"] is not None:
            D._CACHE_DIR = old["cd"]
        for k, e in (("home", "HOME"), ("xdg", "XDG_CACHE_HOME")):
            if old[k] is None:
                os.environ.pop(e, None)
            else:
                os.environ[e] = old[k]
        shutil.rmtree(root, ignore_errors=True)


INIT = ["nodir", "nofile", "v8", "empty", "blank", "undecodable", "isdir", "parentfile"]


def prepare(cd, name, init):
    """Put the cache into an initial state; the version a load may find there."""
    if init == "nodir":
        return None
    if init == "parentfile":
        cd.parent.parent.mkdir(parents=True)
        cd.parent.write_text("x")
        return None
    cd.mkdir(parents=True)
    f = cd / (name + ".csv")
    if init == "v8":
        f.write_text(content(name, 8), encoding="utf-8")
        return 8
    if init == "isdir":
        f.mkdir()
    elif init != "nofile":
        f.write_bytes({"empty": b"", "blank": b" \n", "undecodable": b"a,b\n\xff\xfe,1\n"}[init])
    return None


def cases(tier):
    big = tier == "thorough"
    for n in NAMES:
        for init in INIT:
            for k in range(NOPS):
                yield dict(kind="hist", name=n, init=init, first=k, depth=3, ops=list(range(NOPS)) if big else QUICK)
                if big and n == "card_krueger" and init in ("nodir", "v8", "isdir"):
                    yield dict(kind="hist", name=n, init=init, first=k, depth=4, ops=QUICK)
        for v in range(2):
            yield dict(kind="single", name=n, v=v)
        for init in ("nodir", "nofile", "v8"):
            for op in ("load", "force", "clear"):
                for how in ("line", "torn", "full"):
                    if (op != "clear" or how == "line") and (op == "force" or init != "v8" or op == "clear"):
                        yield dict(kind="crash", name=n, init=init, op=op, how=how, step=1 if big or n == "card_krueger" else 16)
        for init in ("nodir", "v8"):
            for a, b in itertools.combinations_with_replacement(["load", "force", "clear", "forcefail"], 2):
                if big or n in ("card_krueger", "castle_doctrine"):
                    for s in range(2 if a != b else 1):
                        yield dict(kind="race", name=n, init=init, ops=[a, b] if s == 0 else [b, a], bound=3 if big and n == "card_krueger" else 2)
    for k in range(len(UNKNOWN)):
        yield dict(kind="unknown", k=k)
    for n in NAMES:
        yield dict(kind="built", name=n)


OPS = [("load", None), ("load", "o0"), ("load", "r0"), ("force", None), ("force", "o5"), ("force", "r2"), ("force", "undecodable"), ("clear", None), ("other", None), ("load", "kbd"), ("force", "kbd")]
NOPS = len(OPS)
QUICK = [0, 1, 3, 4, 5, 7, 8, 10]


def do(D, net, name, op, fault, version):
    net.fault, net.version, net.calls, net.timeouts = fault, version, 0, []
    if op == "clear":
        return D.clear_cache()
    if op == "other":
        net.fault = None
        return D.load_dataset(NAMES[(NAMES.index(name) + 1) % 4])
    if op == "force":
        return D.load_dataset(name, force_download=True)
    return getattr(D, "load_" + name)()


class Model:
    """Cached version of the data set, and whether the cache directory can be written."""

    def __init__(self, cached, writable):
        self.cached, self.writable = cached, writable

    def step(self, op, fault, version):
        """Expected classification; None for no frame; 'kbd' for an interrupt."""
        if op == "clear":
            self.cached = None
            return None
        if op == "other":
            return None
        if op == "load" and self.cached is not None:
            return self.cached
        if fault == "kbd":
            return "kbd"
        if fault is None:
            if self.writable:
                self.cached = version
            return version
        return self.cached if self.cached is not None else "built"


def history(c, cx):
    for rest in itertools.product(c["ops"], repeat=c["depth"] - 1):
        with sandbox() as (D, cd, net):
            cached = prepare(cd, c["name"], c["init"])
            m = Model(cached, c["init"] not in ("isdir", "parentfile"))
            run_seq(cx, D, cd, net, c["name"], m, [OPS[i] for i in (c["first"],) + rest], c["init"])
        if cx.violations:
            return


def run_seq(cx, D, cd, net, name, m, seq, tag, kind=0):
    foreign = {}
    if m.writable or (cd.exists() and cd.is_dir()):
        for p in (cd / "notes.txt", cd.parent / "keep.csv", cd / "sub" / "inner.csv") if cd.is_dir() else ():
            p.parent.mkdir(exist_ok=True)
            p.write_text("x")
            foreign[p] = 1
    net.kind = kind
    for i, (op, fault) in enumerate(seq):
        label = "%s %s step %d of %s" % (name, tag, i, seq)
        want = m.step(op, fault, i + 1)
        try:
            r, e = cx.attempt(do, D, net, name, op, fault, i + 1)
        except KeyboardInterrupt as k:
            r, e = None, k
        if want == "kbd":
            cx.ok(isinstance(e, KeyboardInterrupt), "interrupt is passed on: " + label + " got %r" % (e,))
            continue
        if e is not None:
            cx.bad("%s: raised %s: %s" % (label, type(e).__name__, e))
            return
        if op == "other":
            continue
        if op != "clear":
            got = classify(r, name, (kind,))
            cx.same(got, want, label)
            for t in net.timeouts:
                cx.ok(isinstance(t, (int, float)) and 0 < t < 3600, "request has a time limit: " + label)
            cx.saw(str(got))
        for p in foreign:
            cx.ok(p.exists(), "file of someone else removed: %s %s" % (p.name, label))
        if cx.violations:
            return


def single(c, cx):
    """Every fault alone, in every cache state, followed by an offline and an online load."""
    kind = c["v"]
    for init in INIT:
        if kind and init == "v8":
            continue
        for op in ("load", "force"):
            for fault in [None] + FAULTS:
                with sandbox() as (D, cd, net):
                    m = Model(prepare(cd, c["name"], init), init not in ("isdir", "parentfile"))
                    run_seq(cx, D, cd, net, c["name"], m, [(op, fault), ("load", "o0"), ("load", None), ("load", "r1")], init, kind)


# --------------------------------------------------------------------- crash points
def fingerprint(cd):
    """The persistent state: every file below HOME with its content."""
    out = []
    for root, ds, fs in os.walk(cd.parents[2]):
        out.append((root, sorted(ds)))
        for f in sorted(fs):
            with io.FileIO(os.path.join(root, f)) as h:
                out.append((os.path.join(root, f), h.readall()))
    return out


def _events_hook():
    st = dict(on=False, n=0, at=None, log=None, cd=None, last=None)

    def tick(*a):
        if not st["on"]:
            return
        st["n"] += 1
        if st["log"] is not None:
            st["on"] = False
            f = fingerprint(st["cd"])
            if f != st["last"]:
                st["last"] = f
                st["log"].append(st["n"])
            st["on"] = True
        if st["at"] is not None and st["n"] == st["at"]:
            os._exit(77)

    def audit(ev, args):
        if st["on"] and (ev == "open" or ev.startswith("os.") or ev.startswith("shutil.") or ev.startswith("tempfile.")):
            tick()

    def trace(frame, ev, arg):
        fn = frame.f_code.co_filename
        if fn.endswith(("datasets.py", "pathlib.py", "tempfile.py", "shutil.py", "_local.py", "pathlib/__init__.py")):
            tick()
            return trace
        return None
    return st, audit, trace


def child(D, cd, net, name, op, crash_at=None, limit=None, kill=False, log=False):
    """Run the operation in a forked process; (how it ended, the points at which the persistent state has changed)."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.alarm(0)
            os.close(rd)
            st, audit, trace = _events_hook()
            st["at"] = crash_at
            if log:
                st["cd"], st["last"], st["log"] = cd, fingerprint(cd), [1]
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                if kill:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            sys.addaudithook(audit)
            st["on"] = True
            if limit is None:
                sys.settrace(trace)
            try:
                r = do(D, net, name, op, None, 1)
            finally:
                sys.settrace(None)
                st["on"] = False
            got = "cleared" if op == "clear" else str(classify(r, name))
            if log:
                st["log"].append(st["n"])
            os.write(wr, ("%s %s" % (",".join(map(str, st["log"] or [])), got)).encode())
            code = 0
        except BaseException as e:  # noqa: BLE001
            try:
                os.write(wr, ("0 raised %s: %s" % (type(e).__name__, e)).encode()[:300])
            except BaseException:  # noqa: BLE001
                pass
        finally:
            os._exit(code)
    os.close(wr)
    out = b""
    while True:
        b = os.read(rd, 4096)
        if not b:
            break
        out += b
    os.close(rd)
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt) or os.WEXITSTATUS(stt) == 77:
        return "crash", []
    t = out.decode().split(" ", 1)
    return t[1] if len(t) > 1 else "no report", [int(x) for x in t[0].split(",") if x]


def crash(c, cx):
    name, op = c["name"], c["op"]
    new = content(name, 1).encode()
    if c["how"] == "line":
        with sandbox() as (D, cd, net):
            prepare(cd, name, c["init"])
            net.fault = None
            end, log = child(D, cd, net, name, op, log=True)
        # two crash points with the same persistent state are the same state
        points = [("crash_at", i) for i in sorted(set(log))]
        cx.ok(len(points) > 1, "crash points found (%s)" % end)
    else:
        points = [("limit", k) for k in range(0, len(new) + 2, c["step"])]
    seen = set()
    for key, k in points:
        with sandbox() as (D, cd, net):
            old = prepare(cd, name, c["init"])
            cx.ops += 1
            end, _ = child(D, cd, net, name, op, **({"crash_at": k} if key == "crash_at" else dict(limit=k, kill=c["how"] == "torn")))
            label = "%s %s from %s, %s at %d (%s)" % (name, op, c["init"], c["how"], k, end)
            if c["how"] == "full":
                cx.same(end, "1", "load with a full disk: " + label)
            elif end != "crash":
                cx.same(end, "cleared" if op == "clear" else "1", "no crash: " + label)
            allowed = {"built" if old is None else old}
            if op == "clear":
                allowed.add("built")
            else:
                allowed.add(1)
            if end == "1" and c["how"] != "full":
                allowed = {1}
            r, e = cx.attempt(do, D, net, name, "load", "o0", 2)
            got = classify(r, name) if e is None else "%s: %s" % (type(e).__name__, e)
            cx.ok(got in allowed, "offline load after %s gives %s, allowed %s" % (label, got, allowed))
            r, e = cx.attempt(do, D, net, name, "load", None, 2)
            got2 = classify(r, name) if e is None else "%s: %s" % (type(e).__name__, e)
            cx.same(got2, 2 if got == "built" else got, "online load after " + label)
            r, e = cx.attempt(do, D, net, name, "force", None, 3)
            cx.same(classify(r, name) if e is None else "%s: %s" % (type(e).__name__, e), 3, "forced load after " + label)
            r, e = cx.attempt(do, D, net, name, "load", "o0", 4)
            cx.same(classify(r, name) if e is None else "%s: %s" % (type(e).__name__, e), 3, "cached after the forced load after " + label)
            r, e = cx.attempt(do, D, net, name, "clear", None, 4)
            cx.ok(e is None, "clear after %s: %s" % (label, e))
            r, e = cx.attempt(do, D, net, name, "load", "o0", 4)
            cx.same(classify(r, name) if e is None else "%s: %s" % (type(e).__name__, e), "built", "cleared after " + label)
            seen.add((end, got))
        if len(cx.violations) > 5:
            return
    for s in sorted(seen, key=str):
        cx.saw(str(s))


# --------------------------------------------------------------------- interleavings
class Sched:
    """Two threads, one running at a time; a schedule is the set of points at which the running one is preempted."""

    def __init__(self, preempt):
        self.preempt, self.n, self.done = preempt, 0, [False, False]
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.cur = 0
        self.ids = {}
        self.points = []

    def point(self):
        me = self.ids.get(threading.get_ident())
        if me is None or me != self.cur:
            return
        i = self.n
        self.n += 1
        self.points.append(me)
        if i in self.preempt and not self.done[1 - me]:
            self.cur = 1 - me
            self.sem[1 - me].release()
            self.sem[me].acquire()

    def finish(self, me):
        self.done[me] = True
        if not self.done[1 - me]:
            self.cur = 1 - me
            self.sem[1 - me].release()


PURE = {"fspath", "getpid", "fsencode", "fsdecode", "text_encoding", "cpu_count", "urandom", "getcwd", "umask", "isatty", "fileno", "readable", "writable", "seekable"}


def race_once(c, preempt):
    name = c["name"]
    with sandbox() as (D, cd, net):
        old = prepare(cd, name, c["init"])
        s = Sched(preempt)
        res = [None, None]
        local = threading.local()

        def netopen(_s, r, data=None, timeout=None):
            i = s.ids.get(threading.get_ident())
            n2 = Net()
            n2.fault, n2.version = local.fault, local.version
            s.point()
            return n2.open(_s, r, data, timeout)
        urllib.request.OpenerDirector.open = netopen

        def profile(frame, ev, arg):
            if ev == "c_call":
                o = getattr(arg, "__self__", None)
                mod = getattr(o, "__name__", None) or type(o).__module__
                if mod in ("posix", "nt", "_io", "io") and arg.__name__ not in PURE and not isinstance(o, (io.StringIO, io.BytesIO)):
                    s.point()
        def body(i):
            s.ids[threading.get_ident()] = i
            s.sem[i].acquire()
            op = c["ops"][i]
            local.fault, local.version = ("o5" if op == "forcefail" else None), i + 1
            sys.setprofile(profile)
            try:
                if op == "clear":
                    D.clear_cache()
                    res[i] = "cleared"
                else:
                    r = D.load_dataset(name, force_download=op != "load")
                    sys.setprofile(None)
                    res[i] = classify(r, name)
            except BaseException as e:  # noqa: BLE001
                res[i] = "raised %s: %s" % (type(e).__name__, e)
            finally:
                sys.setprofile(None)
                s.finish(i)
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
        for t in th:
            t.start()
        s.sem[0].release()
        for t in th:
            t.join(20)
        urllib.request.OpenerDirector.open = lambda s_, r, data=None, timeout=None: net.open(s_, r, data, timeout)
        if any(t.is_alive() for t in th):
            return ["stuck", "stuck"], "stuck", 0
        try:
            net.fault = "o0"
            after = classify(D.load_dataset(name), name)
        except Exception as e:  # noqa: BLE001
            after = "raised %s: %s" % (type(e).__name__, e)
        return res, after, s.n


def race(c, cx):
    name, ops = c["name"], c["ops"]
    with sandbox() as (D, _, net):  # the built-in data, for classification
        net.fault = "o0"
        classify(D.load_dataset(name), name)
    old = 8 if c["init"] == "v8" else None
    anyold = {8} if old else set()

    def check(pre, res, after):
        cached = set(anyold)
        for i, op in enumerate(ops):
            o2 = ops[1 - i]
            other = {2 - i} if o2 in ("load", "force") else set()
            if op == "clear":
                ok = {"cleared"}
            elif op == "force":
                ok = {i + 1}
            elif op == "load":
                ok = anyold | other | {i + 1}
                if old and o2 != "clear":
                    ok = anyold | (other if o2 == "force" else set())
            else:
                ok = anyold | other | {"built"}
                if old and o2 != "clear":
                    ok.discard("built")
            cx.ok(res[i] in ok, "%s: %s concurrent with %s from %s gives %s, allowed %s; preempted at %s" % (name, op, o2, c["init"], res[i], sorted(ok, key=str), pre))
            if op in ("load", "force"):
                cached.add(i + 1)
        ok = cached | ({"built"} if "clear" in ops or not old else set())
        cx.ok(after in ok, "%s: offline load after %s from %s gives %s, allowed %s; preempted at %s" % (name, ops, c["init"], after, sorted(ok, key=str), pre))
        cx.saw("%s %s" % (res, after))
    seen = set()
    todo = [()]
    while todo:
        pre = todo.pop()
        if pre in seen:
            continue
        seen.add(pre)
        cx.ops += 1
        res, after, n = race_once(c, set(pre))
        check(pre, res, after)
        if len(cx.violations) > 3:
            return
        if len(pre) < c["bound"]:
            lo = pre[-1] + 1 if pre else 0
            todo.extend(pre + (i,) for i in range(lo, n))


# --------------------------------------------------------------------- the rest
UNKNOWN = ["", " ", "mpdta ", "MPDTA", "mpdta.csv", "../mpdta", "card-krueger", "card_krueger_data", "all", "castle", None, 3]


def unknown(c, cx):
    with sandbox() as (D, cd, net):
        net.fault = None
        for force in (False, True):
            r, e = cx.attempt(D.load_dataset, UNKNOWN[c["k"]], force_download=force)
            cx.ok(isinstance(e, ValueError), "unknown name %r: %r" % (UNKNOWN[c["k"]], e))
        cx.same(net.calls, 0, "nothing requested for an unknown name")
        cx.same(sorted(D.list_datasets()), sorted(NAMES), "listed data sets")
        d = D.list_datasets()
        d.clear()
        cx.same(sorted(D.list_datasets()), sorted(NAMES), "list not shared with the caller")
        cx.saw(str(UNKNOWN[c["k"]]))


def built(c, cx):
    """The built-in construction: documented columns, consistent, repeatable, private to the caller."""
    name = c["name"]
    with sandbox() as (D, cd, net):
        net.fault = "o0"
        a = cx.op(D.load_dataset, name)
        a0 = a.copy(deep=True)
        for col in DOCCOLS[name]:
            cx.ok(col in a.columns, "documented column %s" % col)
        cx.ok(not a.isna().any().any(), "no missing values")
        a.loc[:, a.columns[-1]] = -1
        a.drop(index=a.index[:5], inplace=True)
        np.random.seed(5)
        b = cx.op(D.load_dataset, name)
        try:
            pd.testing.assert_frame_equal(a0, b)
            same = True
        except AssertionError:
            same = False
        cx.ok(same, "the same construction whatever was done to an earlier one")
        if name == "card_krueger":
            cx.same(sorted(b.state.unique()), ["NJ", "PA"], "states")
            cx.ok(b.store_id.is_unique, "store ids")
            cx.ok(set(b.chain) <= {"bk", "kfc", "roys", "wendys"}, "chains")
            cx.ok(((b.state == "NJ").astype(int) == b.treated).all(), "treated is New Jersey")
            cx.ok(np.allclose(b.emp_change, b.emp_post - b.emp_pre), "change")
            cx.ok((b[["emp_pre", "emp_post", "wage_pre", "wage_post"]] >= 0).all().all(), "non-negative")
        else:
            u = "countyreal" if name == "mpdta" else "state"
            cx.ok(not b.duplicated([u, "year"]).any(), "one row per unit and year")
            cx.same(b.groupby(u).year.nunique().nunique(), 1, "balanced")
            cx.same(int(b.groupby(u).first_treat.nunique().max()), 1, "one adoption date per unit")
            yr = {"castle_doctrine": (2000, 2010), "mpdta": (2003, 2007)}.get(name)
            if yr:
                cx.same((int(b.year.min()), int(b.year.max())), yr, "documented years")
            cx.ok((b.first_treat >= 0).all() and not ((b.first_treat > 0) & (b.first_treat < b.year.min())).any(), "adoption dates")
            if name == "mpdta":
                cx.ok((b.treat == (b.first_treat > 0).astype(int)).all(), "ever treated")
            else:
                cx.ok((b.treated == ((b.first_treat > 0) & (b.year >= b.first_treat)).astype(int)).all(), "treated status")
                cx.ok((b.cohort == b.first_treat).all(), "cohort")
            cx.ok((b.first_treat == 0).any() and b.first_treat.nunique() > 2, "never-treated and several cohorts")
        cx.saw(name)


def run(c, cx):
    k = c["kind"]
    dict(hist=history, single=single, crash=crash, race=race, unknown=unknown, built=built)[k](c, cx)
