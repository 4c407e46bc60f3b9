"""C08: the failure/restore state machine stays coherent over every history."""
from itertools import combinations, product

from .. import failops as F
from .. import topo as T
from ..monitors import Sim
from ..ref import Net, link_names

PROP = "C08"


def ends(spec):
    for l, (na, nb, _) in zip(spec["l"], link_names(spec)):
        yield (l[0], na), (l[1], nb)


def base_ops(spec, both=True, objs=False):
    ops = [("sim",)]
    for a, b in ends(spec):
        for k in (a, b) if both else (a,):
            ops += [("fail_if",) + k, ("unfail_if",) + k]
        ops.append(("unfail_if",) + b + (True,))
        if objs:
            ops += [("ifail",) + b, ("iunfail",) + a, ("iunfail",) + b, ("one_end",) + a, ("one_end",) + b]
    for n in spec["n"]:
        ops += [("fail_node", n), ("unfail_node", n)]
    return ops


def srlg_ops(names):
    return [(k, s) for s in names for k in ("fail_srlg", "unfail_srlg")]


def join_ops(spec, names, create=(False, True), both=True):
    ops = []
    for s in names:
        for n in spec["n"]:
            ops += [("node_join", n, s, c) for c in create] + [("node_leave", n, s)]
        for a, b in ends(spec):
            for k in (a, b) if both else (a,):
                ops += [("if_join",) + k + (s, c) for c in create] + [("if_leave",) + k + (s,)]
    return ops


def pair(cls, par=1):
    return {"cls": cls, "n": ["A", "B"], "l": [["A", "B", 1, 1, 10]] * par, "d": [["A", "B", 5, "d1"]],
            "p": [["A", "B", "l1", None, None]]}


def tri(cls):
    s = T.ring(3, cap=10, cls=cls)
    s["d"] = [["A", "C", 4, "d1"], ["B", "A", 3, "d2"]]
    s["p"] = [["A", "C", "l1", None, None]]
    return s


def tri_par():
    s = tri("F")
    s["l"] = s["l"] + [["A", "B", 1, 1, 10]]
    return s


def chain(cls):
    s = T.chain(4, cap=10, cls=cls)
    s["d"] = [["A", "D", 4, "d1"], ["D", "B", 3, "d2"]]
    s["p"] = [["A", "C", "l1", 2, None]]
    return s


def asym(classes):
    for cls in classes:
        yield {"cls": cls, "n": ["A", "B", "C"], "d": [["A", "C", 4, "d1"], ["C", "A", 3, "d2"]],
               "p": [["A", "C", "l1", None, None]],
               "l": [["A", "B", 1, 3, 10], ["B", "C", 2, 2, 10, {"na": "x", "nb": "x"}],
                     ["C", "A", 5, 1, 20, {"na": "A-B", "nb": "x"}]]}


def large():
    for cls in "PF":
        yield dict(T.fan(14, cls=cls, cap=10), d=[["A", "P", 6, "d1"]], p=[["A", "P", "l1", 2, None]])
        yield dict(T.chain(15, cls=cls, cap=10), d=[["A", "O", 6, "d1"]], p=[["A", "O", "l1", 2, None]])
    yield {"cls": "F", "n": ["A", "B"], "l": [["A", "B", 1, 1, 10]] * 15, "d": [["A", "B", 5, "d1"]], "p": []}


def members(spec):
    return [("node_join", n) for n in spec["n"]] + [("if_join",) + a for a, _ in ends(spec)]


def init_of(ms, s):
    return [("add_srlg", s)] + [m + (s, False) for m in ms]


def cases(tier):
    big = tier == "thorough"
    for cls in "PF":
        # closures: every reachable failure state, no SRLG
        for s in (pair(cls), tri(cls), chain(cls)) + ((tri_par(), pair("F", 2)) if cls == "F" else ()):
            yield {"f": "closure", "s": s, "ops": base_ops(s, objs=True), "depth": 40 if len(s["n"]) < 4 and (len(s["l"]) < 4 or big) else 3 if not big else 5}
        # one SRLG with every membership of up to three elements
        for s in (pair(cls), tri(cls)):
            ms = members(s)
            for k in (1, 2, 3):
                for c in combinations(ms, k):
                    if k == 3 and cls == "P" and not big:
                        continue
                    yield {"f": "one-srlg", "s": s, "init": init_of(c, "s1"),
                           "ops": base_ops(s, both=False) + srlg_ops(["s1"]), "depth": 40 if len(s["n"]) == 2 or big else 3}
        # two SRLGs that overlap: every pair of memberships of up to two elements
        for s in (pair(cls),):
            ms = members(s)
            subs = [c for k in (1, 2, 3) for c in combinations(ms, k)]
            for c1, c2 in product(subs, subs):
                yield {"f": "two-srlgs", "s": s, "init": init_of(c1, "s1") + init_of(c2, "s2"),
                       "ops": base_ops(s, both=False) + srlg_ops(["s1", "s2"]), "depth": 40}
        s = tri(cls)
        ms = members(s)
        subs = [c for k in (1, 2) for c in combinations(ms, k)]
        for i, (c1, c2) in enumerate(product(subs, subs)):
            if c1 > c2 or not set(c1) & set(c2) and not big:
                continue
            yield {"f": "two-srlgs-tri", "s": s, "init": init_of(c1, "s1") + init_of(c2, "s2"),
                   "ops": base_ops(s, both=False) + srlg_ops(["s1", "s2"]), "depth": 3 if not big else 5}
        # membership changes mixed with failures, to a depth
        s = pair(cls)
        for d0 in base_ops(s)[1:] + [("add_srlg", "s1")]:
            yield {"f": "mixed", "s": s, "init": [] if d0[0] == "unfail_node" else [d0],
                   "ops": base_ops(s, both=False) + srlg_ops(["s1"]) + [("add_srlg", "s1"), ("new_srlg", "s1")]
                   + join_ops(s, ["s1"]), "depth": 4 if big else 3}
    # different cost and name at the two ends of a circuit
    for s in asym("PF"):
        ms = members(s)
        for c in [()] + list(combinations(ms, 1)) + list(combinations(ms[-3:], 2)):
            yield {"f": "asym", "s": s, "init": init_of(c, "s1") if c else [], "depth": 2 if not big else 4,
                   "ops": base_ops(s, objs=True) + (srlg_ops(["s1"]) if c else [])}
    # SRLGs with many members
    for s in large():
        ms = members(s)
        for c in (ms, ms[:len(s["n"])], ms[len(s["n"]):], ms[::2]):
            l = list(ends(s))
            ops = srlg_ops(["s1"]) + [("sim",), ("fail_node", s["n"][0]), ("unfail_node", s["n"][0]),
                                      ("fail_if",) + l[-1][0], ("unfail_if",) + l[-1][1], ("unfail_node", s["n"][-1])]
            yield {"f": "large", "s": s, "init": init_of(c, "s1"), "ops": ops, "depth": 3}
    s = pair("F", 2)
    yield {"f": "mixed", "s": s, "ops": base_ops(s, both=False) + srlg_ops(["s1"]) + join_ops(s, ["s1"], (True,), False),
           "depth": 5 if big else 4}


def check(case, st):
    ops = [tuple(o) for o in case["ops"]]

    def on_state(m, r):
        F.check_flags(m, r)
        F.check_members(m, r)
        F.check_queries(m, r)
        F.invariants(m)

    def on_sim(m, r):
        F.check_flags(m, r)
        F.monitors(Sim(m, F.net_of(case["s"], r)))

    F.bfs(case, st, ops, case["depth"], on_state, on_sim)
