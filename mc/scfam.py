"""Case families with IGP shortcuts (C02, C03, C07)."""
from itertools import combinations, combinations_with_replacement, product

from . import topo as T
from .families import scen, with_opts


def sc_sets(ns, k):
    for r in range(1, k + 1):
        for c in combinations(ns, r):
            yield list(c)


def lsps_between(ns, k, metrics=(None,), bws=(None,)):
    """every set of up to k LSPs between distinct nodes, each with any of the
    metrics and bandwidths"""
    pairs = [(s, t) for s in ns for t in ns if s != t]
    temp = [(s, t, b, m) for s, t in pairs for b in bws for m in metrics]
    for r in range(1, k + 1):
        for c in combinations(range(len(temp)), r):
            yield [[temp[i][0], temp[i][1], "lsp%d" % j, temp[i][2], temp[i][3]] for j, i in enumerate(c)]


def sc_cases(tier):
    big = tier == "thorough"

    def c(f, s, x=(), **kw):
        s = dict(s)
        s.setdefault("d", T.all_demands(s, [12, 7.5, 0.1]))
        return dict({"f": f, "s": s, "x": list(x)}, **kw)

    # 1. chain: every LSP pair, every set of shortcut nodes
    base = T.chain(4, cls="F")
    for ps in lsps_between(base["n"], 2):
        for sc in sc_sets(base["n"][:3], 3):
            yield c("chain", dict(base, p=ps, sc=sc))
    # 2. diamonds: unequal and equal branches, metrics above/equal/below the IGP cost
    dia = T.fan(2, cls="F")            # A-{B,C}-D
    for ps in lsps_between(dia["n"], 2, (None, 1, 2, 5)):
        for sc in (["A"], ["B"], ["A", "B"], ["A", "B", "C"]) if len(ps) == 2 else sc_sets(dia["n"], 4):
            yield c("diamond", dict(dia, p=ps, sc=sc))
    # 3. diamonds in a row, LSPs over any stretch, with parallel LSPs
    two = T.ladder(2, cls="F")
    for ps in lsps_between(two["n"], 1, (None, 2, 3, 9)):
        for n in (1, 2, 3):
            pp = [p[:2] + ["%s_%d" % (p[2], i)] + p[3:] for p in ps for i in range(n)]
            for sc in sc_sets(two["n"], 1):
                if sc[0] == ps[0][0] or n == 1:
                    yield c("two-diamonds", dict(two, p=pp, sc=sc))
    # 4. parallel circuits under the LSPs, failures, no room
    par = {"cls": "F", "n": ["A", "B", "C", "D"],
           "l": [["A", "B", 1, 1, 10], ["A", "B", 1, 1, 20], ["B", "C", 1, 1, 20], ["B", "C", 1, 1, 20],
                 ["C", "D", 1, 1, 20], ["B", "D", 2, 2, 20]]}
    for ps in lsps_between(par["n"], 1 if not big else 2, (None, 1, 3), (None, 15)):
        for sc in sc_sets(par["n"], 2):
            if sc[0] != ps[0][0] and len(sc) == 1:
                continue
            for x in scen(par, 1):
                yield c("parallel", dict(par, p=ps, sc=sc, d=[["A", "D", 12, "d1"], ["B", "D", 3, "d2"],
                                                              ["A", "C", 1, "d3"]]), x)
    # 5. squares with every cost pattern: LSPs A-C, B-D and A-D shapes
    shapes = [
        [["A", "C", "l1", None, None], ["B", "D", "l2", None, None]],
        [["B", "C", "l1", None, None], ["B", "C", "l2", None, None]],
        [["B", "C", "l1", None, 1], ["B", "C", "l2", None, 2], ["A", "B", "l3", 4, None]],
        [["A", "C", "l1", None, None], ["A", "C", "l2", None, None], ["C", "D", "l3", None, None]],
    ]
    for s in T.labelled(4, (1, 2), cls="F", min_links=3):
        for ps in shapes if big else shapes[1:]:
            yield c("square", dict(s, p=ps, sc=["A", "B"]))
            if big:
                yield c("square", dict(s, p=ps, sc=["B", "C"]))
    # 6. everything enabled, histories
    for base in (T.ring(5, cls="F"), T.ladder(2, cls="F"), T.grid(3, 2, cls="F")):
        ns = base["n"]
        for s, t in product(ns, ns):
            if s == t:
                continue
            ps = [[s, t, "l1", None, None], [t, s, "l2", None, 1]]
            for x in scen(base, 1):
                yield c("all-enabled", dict(base, p=ps, sc=ns), x, runs=2)
    # 7. long chain: shortcut in the middle of many hops; LSPs in series
    for k in (6, 9, 13):
        base = T.chain(k, cls="F")
        ns = base["n"]
        for i in range(0, k - 1):
            for j in range(i + 1, k):
                ps = [[ns[i], ns[j], "l1", None, None]]
                if j + 1 < k:
                    ps.append([ns[j], ns[-1], "l2", None, None])
                yield c("long-chain", dict(base, p=ps, sc=ns, d=[[ns[0], ns[-1], 5, "d1"], [ns[1], ns[-2], 1, "d2"]]))
    base = T.chain(72, cls="F")
    ns = base["n"]
    for i, j in product((0, 1, 15, 31, 40, 65, 70), (2, 20, 41, 66, 71)):
        if i < j:
            ps = [[ns[i], ns[j], "l1", None, None]]
            for ps in (ps, ps + [[ns[j], ns[-1], "l2", None, None]]) if j < 71 else (ps,):
                yield c("long-chain", dict(base, p=ps, sc=ns, d=[[ns[0], ns[-1], 5, "d1"], [ns[1], ns[-2], 1, "d2"]]))
    # many LSPs in series, one on every k-th node
    for k in (1, 2, 3, 7):
        ps = [[ns[i], ns[min(i + k, 71)], "l", None, None] for i in range(0, 71, k)]
        yield c("long-chain", dict(base, p=ps, sc=ns, d=[[ns[0], ns[-1], 5, "d1"], [ns[1], ns[-2], 1, "d2"]]))
    # 8. wide: shortcut node behind k equal paths, k parallel LSPs
    for w, ks in ((3, (1, 3, 5, 40)), (5, (1, 3, 5)), (7, (1, 3, 5)), (40, (1, 3))):
        for k in ks:
            base = T.fan(w, cls="F")
            ns = base["n"]
            base = dict(base, n=ns + ["ZZ"], l=base["l"] + [[ns[-1], "ZZ", 1, 1, 100]])
            for a, b in ((ns[0], ns[-1]), (ns[1], "ZZ"), (ns[-1], "ZZ"), (ns[1], ns[-1])):
                ps = [[a, b, "l%d" % i, None, None] for i in range(k)]
                for sc in ([a], ns):
                    yield c("wide", dict(base, p=ps, sc=sc, d=[[ns[0], "ZZ", 11, "d1"], [ns[0], ns[-1], 2, "d2"]]),
                            rc=["first", "last", "turns"])
    # 11. three LSPs on a chain: in series, overlapping, nested, starting inside one another
    for k in (5, 6) if not big else (5, 6, 7):
        base = T.chain(k, cls="F")
        ns = base["n"]
        fwd = [(ns[i], ns[j]) for i in range(k) for j in range(i + 1, k)]
        for cs in combinations(fwd, 3):
            ps = [[a, b, "l%d" % i, None, None] for i, (a, b) in enumerate(cs)]
            starts = sorted({p[0] for p in ps})
            for sc in [ns] + ([starts[:1], starts[1:]] if len(starts) > 1 else []):
                yield c("series", dict(base, p=ps, sc=sc, d=[[ns[0], ns[-1], 12, "d1"], [ns[1], ns[-1], 7.5, "d2"],
                                                             [ns[0], ns[-2], 1, "d3"]]))
    # 12. groups whose members differ in metric and in whether they find room
    temp = [(b, m) for b in (None, 500) for m in (None, 1, 2, 4)]
    for k in (2, 3):
        for cs in combinations_with_replacement(temp, k):
            if all(b == 500 for b, _ in cs):
                continue
            ps = [["B", "D", "l%d" % i, b, m] for i, (b, m) in enumerate(cs)]
            base = T.chain(5, cls="F")
            for sc in (["B"],) if k == 3 and not big else (["B"], ["A", "B", "C"]):
                for extra in ([], [["B", "C", "x", None, 1]]):
                    yield c("group-room", dict(base, p=ps + extra, sc=sc, d=[["A", "E", 12, "d1"], ["B", "D", 2, "d2"]]))
    # 13. same interface names on different nodes, same LSP names between different nodes
    for cs in product((1, 2), repeat=3):
        l = [["A", "B", cs[0], 1, 100, {"na": "e0", "nb": "e1"}], ["B", "C", cs[1], 1, 100, {"na": "e0", "nb": "e1"}],
             ["C", "D", cs[2], 1, 100, {"na": "e0", "nb": "e1"}], ["A", "C", cs[0] + cs[1], 1, 100, {"na": "e2", "nb": "e3"}],
             ["B", "D", cs[1] + cs[2], 1, 100, {"na": "e3", "nb": "e2"}]]
        for pairs in combinations([("A", "B"), ("B", "C"), ("C", "D"), ("A", "C"), ("B", "D")], 2):
            for sc in (["A", "B"], ["A", "B", "C"]):
                ps = [[a, b, "same", None, None] for a, b in pairs]
                yield c("same-names", {"cls": "F", "n": list("ABCD"), "l": l, "p": ps, "sc": sc,
                                       "d": [["A", "D", 12, "d"], ["B", "D", 3, "d"], ["A", "C", 1, "d"]]})
    # 9. nodes off: no shortcut node -> the LSPs must not be used inside paths
    for ps in lsps_between(dia["n"], 1, (None, 1)):
        for cls in "PF":
            yield c("off", dict(dia, cls=cls, p=ps, sc=[]))
    # 10. rsvp off somewhere: LSP detours, shortcut follows it
    for i in range(4):
        s = with_opts(dia, {i: {"r": [False, False]}})
        for ps in lsps_between(dia["n"], 1, (None, 1)):
            yield c("rsvp-off", dict(s, p=ps, sc=["A", "B", "C"]))
