"""Ownership of randomness: numpy's generator replaced by one whose every draw the explorer decides.

Feed.elem  - stream of option numbers for independent single draws (choice with replacement, integers, signs)
Feed.perm  - stream of option numbers for whole permutations / draws without replacement
If the implementation draws in a way the feed cannot serve (too many draws, an option out of range, an unknown
method) the run is flagged uncontrolled: no verdict is taken from it.
"""
import contextlib
import itertools
import math
from .core import np


class Feed:
    def __init__(self, elem=(), perm=(), cyc=False):
        self.elem = list(elem)
        self.perm = list(perm)
        self.ie = self.ip = 0
        self.cyc = cyc
        self.broken = None
        self.laws = []          # (values, probabilities) of every draw with replacement
        self.perms = []         # (items, drawn) of every permutation-like draw
        self.draws = 0

    def next_elem(self, K):
        self.draws += 1
        if self.cyc and self.elem:
            v = self.elem[self.ie % len(self.elem)] % K
            self.ie += 1
            return v
        if self.ie >= len(self.elem):
            self.broken = "too many draws"
            return 0
        v = self.elem[self.ie]
        self.ie += 1
        if v >= K:
            self.broken = "option %d of %d" % (v, K)
            return 0
        return v

    def next_perm(self, n):
        self.draws += 1
        if self.cyc and self.perm:
            v = self.perm[self.ip % len(self.perm)] % n
            self.ip += 1
            return v
        if self.ip >= len(self.perm):
            self.broken = "too many permutation draws"
            return 0
        v = self.perm[self.ip]
        self.ip += 1
        if v >= n:
            self.broken = "permutation option %d of %d" % (v, n)
            return 0
        return v

    def ok(self):
        return self.broken is None and self.draws > 0 and (self.cyc or (self.ie == len(self.elem) and self.ip == len(self.perm)))


def nth_arrangement(items, k, idx):
    items = list(items)
    n = len(items)
    out = []
    for i in range(k):
        f = math.factorial(n - i - 1) // math.factorial(n - k)
        out.append(items.pop(idx // f))
        idx %= f
    return out


def n_arrangements(n, k):
    return math.factorial(n) // math.factorial(n - k)


class CtlRng:
    def __init__(self, feed):
        self._f = feed

    def __getattr__(self, name):
        self._f.broken = "unsupported draw %s" % name
        raise AttributeError(name)

    def _many(self, size, K):
        if size is None:
            return self._f.next_elem(K)
        return np.array([self._f.next_elem(K) for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        if replace:
            self._f.laws.append((arr.copy(), None if p is None else np.asarray(p, float)))
            idx = self._many(size, n)
            return arr[idx]
        k = 1 if size is None else int(np.prod(size))
        if k > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        idx = self._f.next_perm(n_arrangements(n, k))
        pos = nth_arrangement(range(n), k, idx)
        self._f.perms.append((arr.copy(), list(pos)))
        res = arr[np.array(pos, dtype=int)]
        return res[0] if size is None else res.reshape(size)

    def permutation(self, x, axis=0):
        arr = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        n = len(arr)
        pos = nth_arrangement(range(n), n, self._f.next_perm(math.factorial(n)))
        self._f.perms.append((arr.copy(), list(pos)))
        return arr[np.array(pos, dtype=int)]

    def shuffle(self, x, axis=0):
        n = len(x)
        pos = nth_arrangement(range(n), n, self._f.next_perm(math.factorial(n)))
        self._f.perms.append((list(x), list(pos)))
        vals = [x[i] for i in pos]
        for i, v in enumerate(vals):
            x[i] = v

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        K = int(high) - int(low) + (1 if endpoint else 0)
        if K > 10 ** 6:
            return low
        self._f.laws.append((np.arange(low, low + K), None))
        return low + self._many(size, K)

    def random(self, size=None, dtype=float, out=None):
        K = 12
        self._f.laws.append(("unit", None))
        return (self._many(size, K) + 0.5) / K


@contextlib.contextmanager
def controlled(feed):
    real = np.random.default_rng
    np.random.default_rng = lambda seed=None: CtlRng(feed)
    try:
        yield feed
    finally:
        np.random.default_rng = real


def members(cx, got, reach, what, share=1.0, atol=1e-6):
    """Replicates of an ordinary run (the library's own generator) must lie in the set reachable by the enumerated draws."""
    got, reach = np.asarray(got, float), np.asarray(reach, float)
    if not cx.ok(len(got) > 0, what + ": no replicates"):
        return
    near = np.abs(got[:, None] - reach[None, :]).min(axis=1) <= atol * max(1.0, np.abs(reach).max())
    cx.ok(near.mean() >= share, what + ": replicate that no draw can produce", outside=got[~near][:5], share=near.mean())


def frequencies(cx, got, every, what):
    """Only when the draws could not be taken over: the replicates of a long ordinary run occur about as often as in
    the exhaustive set of draws (7 standard deviations)."""
    got, every = np.asarray(got, float), np.asarray(every, float)
    B = len(got)
    ids = np.where(np.isfinite(every), np.round(every, 6), 1e99)
    for v in sorted(set(ids)):
        p = np.mean(ids == v)
        q = np.mean(~np.isfinite(got)) if v == 1e99 else np.mean(np.abs(got - v) <= 2e-6 * max(1.0, abs(v)))
        if not cx.ok(abs(p - q) <= 7 * (p * (1 - p) / B) ** 0.5 + 4 / B, what + ": share of replicates equal to %s" % v, got=q, exact=p):
            return


def cube(K, n):
    """Rows = all K^n option vectors."""
    return [list(v) for v in itertools.product(range(K), repeat=n)]


LAWS = {
    "rademacher": [-1.0, 1.0],
    "mammen": [-(5 ** 0.5 - 1) / 2, (5 ** 0.5 + 1) / 2],
    "webb": [-(1.5 ** 0.5), -1.0, -(0.5 ** 0.5), 0.5 ** 0.5, 1.0, 1.5 ** 0.5],
}


def check_law(cx, name, feed):
    """The support, mean and variance of the law the implementation asked for."""
    for vals, p in feed.laws:
        if isinstance(vals, str) or len(vals) != len(LAWS[name]) or not np.issubdtype(vals.dtype, np.floating):
            continue
        pr = np.ones(len(vals)) / len(vals) if p is None else p
        cx.eq(sorted(vals), sorted(LAWS[name]), "support of the %s law" % name, rtol=1e-9)
        cx.ok(abs(pr @ vals) < 1e-9 and abs(pr @ vals ** 2 - 1) < 1e-9, "mean 0, variance 1 of the %s law" % name, values=vals, p=pr)
        if name == "mammen":
            cx.ok(abs(pr @ vals ** 3 - 1) < 1e-9, "third moment 1 of the mammen law", values=vals, p=pr)
