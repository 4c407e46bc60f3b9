"""Exhaustive topology families (JSON specs without demands/LSPs)."""
from itertools import combinations, combinations_with_replacement, product

NAMES = list("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + ["N%02d" % i for i in range(27, 400)]


def from_pairs(n, chosen, cap=100, cls="P", names=NAMES):
    """chosen: [((i, j), cost_ij, cost_ji)]"""
    return {"cls": cls, "n": list(names[:n]),
            "l": [[names[i], names[j], c, d, cap] for (i, j), c, d in chosen]}


def labelled(n, costs, asym=False, cls="P", cap=100, names=NAMES, min_links=0):
    """every labelled graph on n nodes, each pair absent or with any cost
    (any ordered pair of costs when asym)"""
    pairs = list(combinations(range(n), 2))
    alpha = [None] + ([(a, b) for a in costs for b in costs] if asym else [(c, c) for c in costs])
    for pick in product(alpha, repeat=len(pairs)):
        ch = [(p, c[0], c[1]) for p, c in zip(pairs, pick) if c]
        if len(ch) >= min_links:
            yield from_pairs(n, ch, cap, cls, names)


def multi(n, costs, maxpar, cap=100, names=NAMES, min_links=1):
    """every Flex graph on n nodes with up to maxpar parallel circuits a pair"""
    pairs = list(combinations(range(n), 2))
    alpha = [()]
    for k in range(1, maxpar + 1):
        alpha += list(combinations_with_replacement(costs, k))
    for pick in product(alpha, repeat=len(pairs)):
        ch = [(p, c, c) for p, cs in zip(pairs, pick) for c in cs]
        if len(ch) >= min_links:
            yield from_pairs(n, ch, cap, "F", names)


def chain(k, cost=1, cap=100, cls="P"):
    return from_pairs(k, [((i, i + 1), cost, cost) for i in range(k - 1)], cap, cls)


def ring(k, cost=1, cap=100, cls="P"):
    return from_pairs(k, [((i, (i + 1) % k), cost, cost) for i in range(k)], cap, cls)


def fan(w, cost=1, cap=100, cls="P"):
    """A - w middle nodes - last node"""
    return from_pairs(w + 2, [((0, m), cost, cost) for m in range(1, w + 1)]
                      + [((m, w + 1), cost, cost) for m in range(1, w + 1)], cap, cls)


def ladder(k, cap=100, cls="P"):
    """k diamonds in a row: 2**k equal paths"""
    ch = []
    at = 0
    nxt = 1
    for _ in range(k):
        a, b, c = nxt, nxt + 1, nxt + 2
        ch += [((at, a), 1, 1), ((at, b), 1, 1), ((a, c), 1, 1), ((b, c), 1, 1)]
        at, nxt = c, nxt + 3
    return from_pairs(nxt, ch, cap, cls)


def grid(w, h, cap=100, cls="P"):
    ch = []
    for y in range(h):
        for x in range(w):
            i = y * w + x
            if x + 1 < w:
                ch.append(((i, i + 1), 1, 1))
            if y + 1 < h:
                ch.append(((i, i + w), 1, 1))
    return from_pairs(w * h, ch, cap, cls)


def with_cls(spec, cls):
    s = dict(spec)
    s["cls"] = cls
    return s


def all_demands(spec, traffic=12, only=None):
    ns = spec["n"]
    out = []
    for i, (s, t) in enumerate((s, t) for s in ns for t in ns if s != t):
        if only is None or (s, t) in only:
            tr = traffic[i % len(traffic)] if isinstance(traffic, (list, tuple)) else traffic
            out.append([s, t, tr, "d_%s_%s" % (s, t)])
    return out


def subsets(xs, lo, hi):
    for k in range(lo, hi + 1):
        for c in combinations(xs, k):
            yield list(c)
