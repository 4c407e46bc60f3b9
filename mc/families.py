"""Case families shared by several properties.  Every family is a finite set
enumerated completely; tiers differ in the bounds.  Small cases come first."""
from itertools import combinations, combinations_with_replacement, permutations, product

from . import topo as T

# the traffic alphabet: zero, fractional, values whose shares repeat, large
TRAFFIC = [12, 1, 0, 7.5, 0.1, 1000000, 3, 0.001]
ODD_NAMES = ["A", "AB", "B", "A-B", "B-A", "node 1", "Unrouted", "none", "1", "10"]
ODD_COSTS = [1, 9, 10, 100, 65535, 1000000, 16777217, 4294967297]


def scen(spec, links=1, nodes=True):
    """no failure, every set of up to `links` failed links, every failed node"""
    yield []
    k = len(spec["l"])
    for f in T.subsets(range(k), 1, min(links, k)):
        yield [["link", i] for i in f]
    if nodes:
        for n in spec["n"]:
            yield [["node", n]]


def with_opts(spec, opts):
    """opts: {link index: {...}}"""
    s = dict(spec)
    s["l"] = [l[:5] + [dict(l[5] if len(l) > 5 else {}, **opts[i])] if i in opts else l
              for i, l in enumerate(spec["l"])]
    return s


def rsvp_patterns(spec):
    """rsvp_enabled off on one direction of one link, on both, on all links;
    percent_reservable_bandwidth 0 and 50"""
    k = len(spec["l"])
    for i in range(k):
        for o in ({"r": [False, True]}, {"r": [True, False]}, {"r": [False, False]},
                  {"pct": [0, 0]}, {"pct": [0, 50]}):
            yield with_opts(spec, {i: o})
    yield with_opts(spec, {i: {"r": [False, False]} for i in range(k)})
    yield with_opts(spec, {i: {"pct": [0, 0]} for i in range(k)})


def wide(big=False):
    """larger regular topologies: long, wide, many equal cost paths"""
    for cls in "PF":
        yield T.chain(15 if not big else 24, cls=cls), [("A", "O")] if not big else None
        yield T.ring(9, cls=cls), None
        yield T.ring(12 if not big else 18, cls=cls), None
        yield T.fan(12 if not big else 20, cls=cls), None
        yield T.ladder(4 if not big else 6, cls=cls), None
        yield T.grid(3, 3, cls=cls), None
        yield T.grid(4, 3, cls=cls), None
        if big:
            yield T.grid(5, 4, cls=cls), None


def huge(big=False):
    """large networks with end to end demands only: more equal cost paths,
    hops and parallel circuits than any fixed small bound"""
    def ends(s):
        return s, {(s["n"][0], s["n"][-1]), (s["n"][-1], s["n"][0])}

    for cls in "PF":
        yield ends(T.fan(40, cls=cls))
        yield ends(T.fan(140 if not big else 270, cls=cls))
        yield ends(T.chain(40, cls=cls))
        yield ends(T.chain(140 if not big else 270, cls=cls))
        yield ends(T.ladder(7, cls=cls))
        yield ends(T.ladder(9 if not big else 10, cls=cls))
        yield ends(T.grid(5, 5, cls=cls))
        if big:
            yield ends(T.grid(6, 6, cls=cls))
    for ws in ((12,), (33,), (130,), (6, 6), (12, 3), (3, 12), (2, 3, 4), (1, 12, 1), (4, 4, 4), (17, 17),
               (7, 7, 7)) + (((12, 12), (300,), (33, 33)) if big else ()):
        yield ends({"cls": "F", "n": T.NAMES[:len(ws) + 1],
                    "l": [[T.NAMES[i], T.NAMES[i + 1], 1, 1, 100] for i, w in enumerate(ws) for _ in range(w)]})


def few(spec):
    """no failure, the first, the last and a middle link, one inner node"""
    k, n = len(spec["l"]), spec["n"]
    yield []
    for i in sorted({0, k // 2, k - 1}):
        yield [["link", i]]
    if len(n) > 2:
        yield [["node", n[len(n) // 2]]]


def odd_specs():
    """unusual but legal attribute values"""
    for cls in "PF":
        for base in (T.ring(4, cls=cls), T.grid(3, 2, cls=cls), T.fan(3, cls=cls)):
            n = len(base["n"])
            for shift in range(0, len(ODD_NAMES), 3):
                names = (ODD_NAMES + ODD_NAMES)[shift:shift + n]
                if len(set(names)) != n:
                    continue
                ren = dict(zip(base["n"], names))
                yield dict(base, n=names, l=[[ren[l[0]], ren[l[1]]] + l[2:] for l in base["l"]])
            for c in ODD_COSTS:
                for cap in (0.5, 1, 1e9):
                    yield dict(base, l=[[l[0], l[1], c, c, cap] for l in base["l"]])
            yield dict(base, l=[[l[0], l[1], ODD_COSTS[i % 8], ODD_COSTS[(i + 1) % 8], l[4]]
                                for i, l in enumerate(base["l"])])
            # a node without interfaces, and two islands
            yield dict(base, n=base["n"] + ["Z"])
            yield dict(base, n=base["n"] + ["Y", "Z"], l=base["l"] + [["Y", "Z", 1, 1, 10]])


LENGTHS = (1, 2, 3, 7, 8, 10, 11, 12, 13, 15, 16, 17, 20, 21, 24, 25, 30, 31, 32, 33, 40, 48, 50, 60, 63, 64, 65, 80, 100, 128, 129, 255, 256)
NUMBERS = (1, 0, 7.5, 0.1, 1 / 3, 2 / 3, 1e-3, 1e-7, 123456, 1234567, 10000001, 999999.9999, 123456.789012345, 1e9 + 0.5, 1e12 + 1, 2 ** 53 - 1, 1e21, 3e-12)


def stretched():
    """names of every length (alike except for one character), numbers of every magnitude and precision"""
    for k, n in enumerate(LENGTHS):
        for pos in (0, 1, 2):
            cls = "PF"[(k + pos) % 2]
            base = T.ring(3, cap=50, cls=cls) if pos else T.fan(2, cap=50, cls=cls)

            def nm(c, i, x):
                return (c * n + i, i + c * n, c * (n // 2) + i + c * (n - n // 2))[x]
            names = [nm("x", str(i), pos) for i in range(len(base["n"]))]
            ren = dict(zip(base["n"], names))
            yield dict(base, n=names, l=[[ren[l[0]], ren[l[1]]] + l[2:] + [{"na": nm("e", str(i), pos), "nb": nm("f", str(i), pos)}]
                                         for i, l in enumerate(base["l"])],
                       d=[[names[0], names[2], 6, nm("d", str(i), pos)] for i in range(3)] + [[names[1], names[2], 4, "d"]],
                       p=[[names[0], names[2], nm("p", str(i), pos), 3, None] for i in range(2)])
    for cls in "PF":
        for v in NUMBERS:
            for base in (T.ring(3, cap=v or 5, cls=cls), T.fan(3, cap=v or 5, cls=cls)):
                n = base["n"]
                yield dict(base, d=[[n[0], n[-1], v, "d1"], [n[0], n[1], 2 * v, "d2"]], p=[[n[0], n[-1], "p", v / 2, 1]])


def parallels(big=False):
    """bundles of parallel circuits along a short path"""
    for w in range(1, 6 if not big else 8):
        for v in range(0, 4):
            for extra in (0, 1, 2):
                l = [["A", "B", 2, 2, 100]] * w + [["B", "C", 1, 1, 100]] * v
                l += [["A", "C", 3, 3, 100]] * extra
                yield {"cls": "F", "n": ["A", "B", "C"], "l": [list(x) for x in l]}
    for costs in product((1, 2, 3), repeat=4):
        yield {"cls": "F", "n": ["A", "B", "C"],
               "l": [["A", "B", costs[0], costs[1], 10], ["B", "A", costs[2], costs[3], 20],
                     ["B", "C", 1, 1, 10], ["C", "A", 3, 3, 10]]}


def par_asym():
    """triangles, every pair up to two circuits, each direction its own cost"""
    one = [(a, b) for a in (1, 2) for b in (1, 2)]
    alpha = [()] + [(x,) for x in one] + list(combinations_with_replacement(one, 2))
    pairs = list(combinations(range(3), 2))
    for pick in product(alpha, repeat=3):
        if any(len(p) == 2 for p in pick):
            yield T.from_pairs(3, [(p, x[0], x[1]) for p, xs in zip(pairs, pick) for x in xs], cls="F")


def igp_cases(tier, traffic=12):
    big = tier == "thorough"

    def c(f, s, x=(), only=None, **kw):
        s = dict(s)
        s["d"] = T.all_demands(s, traffic, only)
        return dict({"f": f, "s": s, "x": list(x)}, **kw)

    for cls in "PF":
        for s in T.labelled(3, (1, 2, 3), asym=True, cls=cls):
            for x in scen(s, 1):
                yield c("tri-asym", s, x)
    for s in T.multi(3, (1, 2), 2 if not big else 3):
        for x in scen(s, 2):
            yield c("tri-parallel", s, x)
    for s in par_asym():
        for x in scen(s, 0 if not big else 1, nodes=False):
            yield c("tri-par-asym", s, x)
    for s in parallels(big):
        for x in scen(s, 1 if not big else 2):
            yield c("bundles", s, x)
    for s in odd_specs():
        for x in scen(s, 1):
            yield c("odd-values", s, x)
    for cls in "PF":
        for base in (T.ring(3, cls=cls), T.ring(4, cls=cls), T.fan(2, cls=cls)):
            for s in rsvp_patterns(base):
                for x in scen(s, 1 if not big else 2):
                    yield c("rsvp-off", s, x)
    for cls in "PF":
        for s in T.labelled(4, (1, 2), cls=cls):
            for x in scen(s, 1 if not big else 2, nodes=True):
                yield c("quad", s, x)
    for s, only in wide(big):
        for x in scen(s, 1):
            yield c("wide", s, x, only)
    for s, only in huge(big):
        for x in few(s):
            yield c("huge", s, x, only)
    for s in stretched():
        for x in few(s):
            yield {"f": "stretched", "s": s, "x": x}
    # routes of equal (or nearly equal) cost over very different numbers of hops
    for cls in "PF":
        for h1, h2 in product((1, 2, 3, 5, 8, 12, 16, 31, 64), repeat=2):
            for d in (0, 1) if h1 < h2 else ():
                rs = [(h2 - h1 + 1,) + (1,) * (h1 - 1), (1,) * (h2 - 1) + (1 + d,), (h2 + d,)]
                s = routes(rs if h1 > 1 else rs[:2], (10, 10, 10), cls)
                n = s["n"]
                only = {(n[0], n[-1]), (n[-1], n[0]), (n[1], n[-1]), (n[-2], n[0])}
                for x in few(s):
                    yield c("hop-ties", s, x, only)
    # histories: fail, simulate, restore, then the scenario
    for cls in "PF":
        for s in T.labelled(3, (1, 2), cls=cls, min_links=2):
            for pre in scen(s, 1):
                for x in scen(s, 1):
                    yield c("history", s, x, pre=pre)
        base = T.ring(5, cls=cls)
        base["l"].append(["A", "C", 2, 2, 100])
        for pre in scen(base, 1):
            for x in scen(base, 2):
                yield c("history", base, x, pre=pre, runs=2)
    # LSPs elsewhere in the network must not change IGP routing
    for cls in "PF":
        for base in (T.ring(4, cap=10, cls=cls), T.fan(2, cap=10, cls=cls)):
            ns = base["n"]
            for s, t in permutations(ns, 2):
                for bw in (None, 10, 4):
                    sp = dict(base, p=[[s, t, "lsp1", bw, None]])
                    for x in scen(sp, 1):
                        yield c("lsp-elsewhere", sp, x)
    for cls in "PF":
        for s in T.labelled(5, (1,), cls=cls):
            for x in scen(s, 1 if big else 0, nodes=False):
                yield c("penta", s, x)
    if big:
        for cls in "PF":
            for s in T.labelled(5, (1, 2), cls=cls):
                yield c("penta", s)


# ------------------------------------------------------------------ LSPs
TRI_LSPS = [
    ["A", "C", None, None], ["A", "C", 4, None], ["A", "C", 6, 1], ["A", "C", None, 5],
    ["B", "C", None, None], ["A", "B", 4, None], ["A", "C", 20, None],
]


def lsp_sets(templates, lo, hi):
    for k in range(lo, hi + 1):
        for ts in combinations_with_replacement(range(len(templates)), k):
            yield [templates[i][:2] + ["lsp%d" % (j + 1)] + templates[i][2:] for j, i in enumerate(ts)]


DEMANDS = [
    [["A", "C", 12, "d1"]],
    [["A", "C", 6, "d1"], ["A", "C", 6, "d2"], ["B", "C", 4, "d3"]],
    [["B", "C", 8, "d1"], ["A", "B", 3, "d2"]],
]


def lsp_cases(tier, fractional=False):
    """triangles and squares with scarce bandwidth, up to three LSPs"""
    big = tier == "thorough"
    for s in stretched():
        for x in few(s):
            yield {"f": "stretched", "s": s, "x": x}
    # 1. triangles: every capacity assignment, every LSP multiset
    tris = [[("A", "B", 1), ("B", "C", 1), ("A", "C", c)] for c in (1, 2, 3)]
    tris.append([("A", "B", 2), ("B", "C", 1), ("A", "C", 2)])
    for cls in "PF":
        for tri in tris:
            for caps in product((4, 12), repeat=3):
                s = {"cls": cls, "n": ["A", "B", "C"],
                     "l": [[a, b, c, c, cap] for (a, b, c), cap in zip(tri, caps)]}
                for ps in lsp_sets(TRI_LSPS, 1, 3):
                    for di, ds in enumerate(DEMANDS):
                        if di and len(ps) == 3 and not big:
                            continue
                        yield {"f": "tri-lsp", "s": dict(s, p=ps, d=ds), "x": []}
    # 2. the same with failures and rsvp_enabled off, fewer LSPs
    for cls in "PF":
        for tri in tris[1:]:
            s = {"cls": cls, "n": ["A", "B", "C"], "l": [[a, b, c, c, 12] for a, b, c in tri]}
            for sp in [s] + list(rsvp_patterns(s)):
                for ps in lsp_sets(TRI_LSPS, 1, 2):
                    for x in scen(sp, 1):
                        yield {"f": "tri-lsp-fail", "s": dict(sp, p=ps, d=DEMANDS[1]), "x": x}
    # 3. squares: cost ties with different hop counts, two-LSP groups
    sets4 = [
        [["A", "D", "l1", None, None], ["A", "D", "l2", None, None]],
        [["A", "D", "l1", None, None], ["A", "D", "l2", 10, None], ["B", "D", "l3", 5, None]],
        [["A", "D", "l1", 6, None], ["A", "C", "l2", 6, None], ["D", "A", "l3", None, 7]],
    ]
    for cls in "PF":
        for s in T.labelled(4, (1, 2), cls=cls, cap=10, min_links=3):
            for ps in sets4[:3 if big else 2]:
                yield {"f": "quad-lsp", "s": dict(s, p=ps, d=[["A", "D", 12, "d1"], ["B", "D", 2, "d2"]]), "x": []}
    # 4. parallel circuits with different room and cost
    for caps in product((4, 6, 12), repeat=3):
        for costs in ((1, 1, 1), (1, 2, 1), (2, 1, 3)):
            s = {"cls": "F", "n": ["A", "B", "C"],
                 "l": [["A", "B", costs[0], costs[0], caps[0]], ["A", "B", costs[1], costs[1], caps[1]],
                       ["B", "C", 1, 1, 100], ["A", "C", costs[2] + 1, costs[2] + 1, caps[2]]]}
            for ps in lsp_sets(TRI_LSPS[:3] + [["A", "B", None, None]], 1, 3 if big else 2):
                for x in scen(s, 1, nodes=False):
                    yield {"f": "parallel-lsp", "s": dict(s, p=ps, d=[["A", "C", 12, "d1"], ["A", "B", 6, "d2"]]),
                           "x": x}
    # 5. groups of three and four where some members do not fit
    for cls in "PF":
        for k in (3, 4) if big else (3,):
            for caps in product((4, 6, 8, 12), repeat=2):
                for cfg in product((None, 4, 8), repeat=2):
                    s = {"cls": cls, "n": ["A", "B", "C"],
                         "l": [["A", "C", 2, 2, caps[0]], ["A", "B", 1, 1, caps[1]], ["B", "C", 1, 1, caps[1]]]}
                    ps = [["A", "C", "g%d" % i, cfg[i] if i < 2 else None, None] for i in range(k)]
                    yield {"f": "groups", "s": dict(s, p=ps, d=[["A", "C", 12, "d1"], ["A", "C", 12, "d2"]]), "x": []}
    # ... over routes of every length, with room for some of them
    hops = (1, 2, 3, 4, 5, 6, 9, 17, 34)
    for cls in "PF":
        for h1, h2 in product(hops, repeat=2):
            if h1 == h2 == 1 and cls == "P" or not big and h1 > 6 and h2 > 6:
                continue
            for tie in (0, 1):
                r1, r2 = (1,) * h1, (1,) * h2
                if tie and h1 != h2:
                    r1, r2 = ((1 + h2 - h1,) + r1[1:], r2) if h1 < h2 else (r1, (1 + h1 - h2,) + r2[1:])
                elif tie:
                    continue
                for k, caps in product((3, 4), ((10, 3), (3, 10), (7, 5), (5, 7), (11, 2), (8, 4))):
                    s = routes([r1, r2], caps, cls)
                    z = s["n"][-1]
                    yield {"f": "group-hops", "rc": ["first", "last", "turns"], "x": [],
                           "s": dict(s, p=[["A", z, "g%d" % i, None, None] for i in range(k)], d=[["A", z, 12, "d1"]])}
    # 6. every order of the LSP set, every random answer
    for cls in "PF":
        for caps in ((4, 4, 4), (6, 6, 6), (12, 6, 4), (4, 12, 12), (12, 12, 12)):
            s = {"cls": cls, "n": ["A", "B", "C", "D"],
                 "l": [["A", "B", 1, 1, caps[0]], ["B", "D", 1, 1, caps[0]], ["A", "C", 1, 1, caps[1]],
                       ["C", "D", 1, 1, caps[1]], ["A", "D", 2, 2, caps[2]]]}
            for ps in ([["A", "D", "l1", None, None], ["A", "D", "l2", None, None], ["A", "D", "l3", 4, None]],
                       [["A", "D", "l1", 6, None], ["B", "D", "l2", 4, None], ["C", "D", "l3", 4, None]],
                       [["A", "D", "l1", None, None], ["A", "D", "l2", None, None], ["B", "D", "l3", None, None]]):
                for lo in permutations(range(3)):
                    yield {"f": "orders", "s": dict(s, p=ps, d=[["A", "D", 12, "d1"], ["B", "D", 3, "d2"]]),
                           "x": [], "lo": list(lo)}
    # 7. equal cost routes with every split of the cost over one to four hops
    comps = [c for k in (1, 2, 3, 4) for c in compositions(5, k)]
    for cls in "PF":
        for r1 in comps:
            for r2 in comps:
                if len(r1) == 1 and len(r2) == 1 and cls == "P":
                    continue
                for caps in ((10, 10), (3, 10)):
                    s = routes([r1, r2], caps, cls)
                    z = s["n"][-1]
                    yield {"f": "hop-ties", "s": dict(s, p=[["A", z, "l1", 4, None], ["A", z, "l2", None, None]],
                                                      d=[["A", z, 6, "d1"]]), "x": []}
        # ... and over long routes
        for h in range(4, 13):
            comps_h = [(1,) * h + (3,), (1,) * (h + 1) + (2,), (2,) + (1,) * (h + 1), (1,) * (h + 3), (h + 1, 2)]
            for r1, r2 in product(comps_h, repeat=2):
                for caps in ((10, 10), (3, 10)):
                    s = routes([r1, r2], caps, cls)
                    z = s["n"][-1]
                    yield {"f": "hop-ties", "s": dict(s, p=[["A", z, "l1", 4, None], ["A", z, "l2", None, None]],
                                                      d=[["A", z, 6, "d1"]]), "x": []}
    # 8. long paths, many equal paths, thick bundles
    for cls in "PF":
        for s in (T.chain(30, cls=cls), T.chain(140, cls=cls), T.fan(12, cls=cls), T.fan(50, cls=cls), T.ladder(4, cls=cls),
                  T.ladder(6, cls=cls), T.grid(4, 3, cls=cls)):
            a, z = s["n"][0], s["n"][-1]
            for bws in ((None, None), (60, 60), (60, 60, 60), (100, 1)):
                ps = [[a, z, "l%d" % i, b, None] for i, b in enumerate(bws)]
                yield {"f": "wide-lsp" if len(s["l"]) in (29, 139) or len(s["l"]) < 25 else "many-paths", "x": [],
                       "s": dict(s, p=ps, d=[[a, z, 60, "d1"], [a, z, 60.5, "d2"]]),
                       "rc": ["first", "last", "turns"]}
    for ws in ((9,), (12,), (3, 3), (6, 2), (2, 2, 2)):
        s = {"cls": "F", "n": T.NAMES[:len(ws) + 1],
             "l": [[T.NAMES[i], T.NAMES[i + 1], 1, 1, 100] for i, w in enumerate(ws) for _ in range(w)]}
        z = s["n"][-1]
        for bws in ((None,), (60, 60), (60, 60, 60)):
            ps = [["A", z, "l%d" % i, b, None] for i, b in enumerate(bws)]
            for x in scen(s, 1, nodes=False) if len(ws) == 1 else ([],):
                yield {"f": "wide-lsp", "s": dict(s, p=ps, d=[["A", z, 60, "d1"]]), "x": list(x),
                       "rc": ["first", "last", "turns"]}
    # 9. very small and very large bandwidths
    for cls in "PF":
        for k in (0.125, 0.0078125, 1000000, 10000000000):
            for caps in product((4, 12), repeat=3):
                s = {"cls": cls, "n": ["A", "B", "C"],
                     "l": [[a, b, c, c, cap * k] for (a, b, c), cap in zip(tris[1], caps)]}
                for ps in lsp_sets(TRI_LSPS[:5], 2, 2):
                    ps = [p[:3] + [p[3] and p[3] * k, p[4]] for p in ps]
                    yield {"f": "scaled", "s": dict(s, p=ps, d=[["A", "C", 12 * k, "d1"]]), "x": []}
                    if k < 0.1 or k == 1000000:     # ... simulated over and over
                        yield {"f": "scaled", "s": dict(s, p=ps, d=[["A", "C", 12 * k, "d1"]]), "x": [], "runs": 6}
    # 10. shares that are no finite decimals, links that just (do not) fit
    for cls in "PF":
        for tr, k in ((10, 3), (100, 3), (1, 6), (0.1, 3), (70, 6), (1000000, 3)):
            for near in (0, 0.04, -0.04, 0.001, -0.001):
                if tr + near <= 0.05:
                    continue
                for two in (None, tr, tr / 4):
                    for pct in (100, 50):
                        m = 100 // pct
                        l = [["A", "B", 1, 1, (tr + near) * m, {"pct": [pct, pct]}]]
                        if two:
                            l += [["A", "C", 1, 1, two], ["C", "B", 1, 1, two]]
                        yield {"f": "thirds", "x": [], "rc": ["first", "last", "turns"],
                               "s": {"cls": cls, "n": ["A", "B", "C"] if two else ["A", "B"], "l": l,
                                     "p": [["A", "B", "g%d" % i, None, None] for i in range(k)],
                                     "d": [["A", "B", tr, "d1"]]}}


    # 11. interfaces of different nodes that carry the same name
    for cls in "PF":
        for costs in product((1, 2, 5), repeat=3):
            for na, nb in (("up", "down"), ("e", "e2"), ("e0", "e1")):
                l = [["A", "B", costs[0], costs[1], 10, {"na": na, "nb": nb}],
                     ["B", "C", costs[1], costs[2], 12, {"na": na, "nb": nb}],
                     ["C", "D", costs[2], costs[0], 10, {"na": na, "nb": nb}],
                     ["A", "D", 6, 6, 7, {"na": nb + "x", "nb": na}]]
                s = {"cls": cls, "n": ["A", "B", "C", "D"], "l": l}
                for ps in ([["A", "D", "l1", None, None], ["A", "C", "l2", 4, None]],
                           [["A", "D", "l1", 5, None], ["D", "A", "l2", 5, None], ["A", "D", "l3", 5, None]]):
                    yield {"f": "same-names", "s": dict(s, p=ps, d=[["A", "D", 6, "d1"], ["D", "B", 1, "d2"]]), "x": []}
    # 12. many LSPs in a group, many demands in a group, many groups
    for cls in "PF":
        for k in (5, 9, 13, 24, 70):
            for caps in ((100, 100), (100, 7), (7, 100), (11, 3), (3, 11)):
                for bws in ((None,), (1,), (None, 1), (None, None, 3)):
                    if 9 > caps[0] or k < 24 or len(set(bws)) == 1:
                        yield {"f": "many-lsps", "x": [], "rc": ["first", "last", "turns"],
                               "s": {"cls": cls, "n": ["A", "B", "C"],
                                     "l": [["A", "C", 2, 2, caps[0]], ["A", "B", 1, 1, caps[1]],
                                           ["B", "C", 2, 2, caps[1]]],
                                     "p": many(k, bws), "d": [["A", "C", 11, "d1"], ["B", "C", 1, "d2"]]}}
        # ... of which some have a lower or higher metric
        for k in (3, 5, 9, 13, 24, 70):
            for mts in ((None,) * (k - 1) + (1,), (1,) + (None,) * (k - 1), (5, 1), (9,) * (k - 2) + (3, 3), (7, None)):
                for caps in ((100, 100), (11, 3)):
                    yield {"f": "many-lsps", "x": [], "rc": ["first", "last", "turns"],
                           "s": {"cls": cls, "n": ["A", "B", "C"],
                                 "l": [["A", "C", 2, 2, caps[0]], ["A", "B", 1, 1, caps[1]], ["B", "C", 2, 2, caps[1]]],
                                 "p": [p[:4] + [mts[i % len(mts)]] for i, p in enumerate(many(k, (None, 1)))],
                                 "d": [["A", "C", 11, "d1"], ["B", "C", 1, "d2"]]}}
        for k in (6, 9, 17, 40, 140):
            for ps in ([["A", "C", "l1", None, None]], [["A", "C", "l1", None, None], ["A", "C", "l2", None, None]],
                       [["A", "C", "l1", 3, None], ["A", "C", "l2", None, None], ["B", "C", "l3", None, None]]):
                for cap in (1000, k, k / 2):
                    yield {"f": "many-demands", "x": [], "rc": ["first", "last", "turns"],
                           "s": {"cls": cls, "n": ["A", "B", "C"],
                                 "l": [["A", "C", 2, 2, cap], ["A", "B", 1, 1, cap], ["B", "C", 2, 2, cap]], "p": ps,
                                 "d": [["A", "C", 1 + i % 3, "d%d" % i] for i in range(k)] + [["B", "C", 2, "e"]]}}
        for k in (6, 10):
            base = T.ring(k, cls=cls)
            ns = base["n"]
            for step in (1, 2, k - 1):
                for bw in (None, 30):
                    for x in few(base):
                        yield {"f": "many-groups", "x": x, "rc": ["first", "last", "turns"],
                               "s": dict(base, p=[[ns[i], ns[(i + step) % k], "l", bw, None] for i in range(k)],
                                         d=[[ns[i], ns[(i + step) % k], 1 + i, "d"] for i in range(k)])}


def many(k, bws):
    return [["A", "C", "g%02d" % i, bws[i % len(bws)], None] for i in range(k)]


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def routes(costs, caps, cls):
    """disjoint routes between the first and the last node, one tuple of hop
    costs each"""
    n = 2 + sum(len(c) - 1 for c in costs)
    at, l = 1, []
    for cs, cap in zip(costs, caps):
        prev = 0
        for h, c in enumerate(cs):
            if h == len(cs) - 1:
                nxt = n - 1
            else:
                nxt = at
                at += 1
            l.append([T.NAMES[prev], T.NAMES[nxt], c, c, cap])
            prev = nxt
    return {"cls": cls, "n": T.NAMES[:n], "l": l}
