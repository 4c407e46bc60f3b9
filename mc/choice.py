"""Depth-first enumeration of the answers of the random module.

While an Explorer run is active every call of random.choice(seq) (and of the
other functions patched below) is a choice point; `explore` re-executes the
body until every combination of answers has been taken.  Outside an active run
the first answer is always returned, so that nothing is ever sampled."""
import random as _random


class Divergence(Exception):
    """a replayed prefix did not meet the same choice points: hard error"""


class _Run:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []  # (chosen, n)

    def pick(self, n):
        i = len(self.trace)
        c = self.prefix[i][0] if i < len(self.prefix) else 0
        if i < len(self.prefix) and self.prefix[i][1] != n:
            raise Divergence("choice point %d had %d answers, now %d" % (i, self.prefix[i][1], n))
        self.trace.append((c, n))
        return c


class _Fixed:
    """answers every choice point the same way: the first, the last, or taking turns"""

    def __init__(self, policy):
        self.policy, self.n = policy, 0

    def pick(self, n):
        self.n += 1
        return {"first": 0, "last": n - 1, "turns": (self.n - 1) % n}[self.policy]


_active = [None]


def _pick(n):
    if n <= 1:
        return 0
    r = _active[0]
    return 0 if r is None else r.pick(n)


def _choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[_pick(len(seq))]


def _choices(population, weights=None, *, cum_weights=None, k=1):
    return [population[_pick(len(population))] for _ in range(k)]


def _randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    return r[_pick(len(r))]


def _randint(a, b):
    return _randrange(a, b + 1)


def _shuffle(x):
    for i in range(len(x) - 1):
        j = i + _pick(len(x) - i)
        x[i], x[j] = x[j], x[i]


def _sample(population, k, **_):
    pool = list(population)
    out = []
    for _i in range(k):
        out.append(pool.pop(_pick(len(pool))))
    return out


def _rand():
    return (0.0, 0.5, 0.999)[_pick(3)]


def install():
    _random.choice = _choice
    _random.choices = _choices
    _random.randrange = _randrange
    _random.randint = _randint
    _random.shuffle = _shuffle
    _random.sample = _sample
    _random.random = _rand


def explore(body, limit=100000, policies=None):
    """Run body() under every combination of answers.  Returns the list of
    (answers, result); raises OverflowError when more than `limit` exist.
    With `policies` only those fixed ways of answering are taken (for cases
    whose full product of answers is too large; the bound is stated there)."""
    out = []
    if policies is not None:
        for p in policies:
            _active[0] = _Fixed(p)
            try:
                out.append((p, body()))
            finally:
                _active[0] = None
        return out
    prefix = []
    while True:
        run = _Run(prefix)
        _active[0] = run
        try:
            res = body()
        finally:
            _active[0] = None
        if len(run.trace) < len(prefix):
            raise Divergence("execution met fewer choice points than its prefix")
        out.append((tuple(c for c, _ in run.trace), res))
        if len(out) > limit:
            raise OverflowError("more than %d executions" % limit)
        t = run.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return out
        prefix = t[:-1] + [(t[-1][0] + 1, t[-1][1])]
