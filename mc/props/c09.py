"""C09: SRLG membership is symmetric and complete over every history."""
from .. import failops as F
from ..families import with_opts
from .c08 import base_ops, chain, ends, init_of, join_ops, large, members, pair, srlg_ops, tri, tri_par

PROP = "C09"


def cases(tier):
    big = tier == "thorough"
    pairs = [pair("P"), pair("F"), pair("F", 2)]
    # every sequence of membership and SRLG operations on the smallest networks
    for s in pairs:
        adds = [("add_srlg", "s1"), ("new_srlg", "s1")]
        names = ["s1"]
        yield {"f": "one-name", "s": s, "ops": join_ops(s, names) + srlg_ops(names) + adds + [("sim",)],
               "depth": 4 if len(s["l"]) == 1 or big else 3}
    # two SRLGs: elements in both, in one, in none; failed or not
    for s in [pair("P"), pair("F"), pair("F", 2), tri("P"), tri_par(), chain("F")]:
        names = ["s1", "s2"]
        ops = join_ops(s, names, (False,), both=len(s["l"]) < 3) + srlg_ops(names)
        firsts = [o for o in ops if o[0] in ("node_join", "if_join", "fail_srlg")]
        for o in firsts:
            yield {"f": "two-names", "s": s, "init": [("add_srlg", "s1"), ("add_srlg", "s2"), o], "ops": ops,
                   "depth": (3 if big else 2) + (1 if len(s["n"]) == 2 and len(s["l"]) == 1 else 0)}
    # create_if_not_present from every element, both ends of every circuit
    for s in [tri("P"), tri("F"), tri_par(), chain("P")]:
        for names in (["s1"], ["s1", "s2"]):
            yield {"f": "create", "s": s, "ops": join_ops(s, names, (True,)) + srlg_ops(names[:1]), "depth": 2}
    # unusual SRLG names (empty, spaces, equal to a node name, '-')
    for s in [pair("P"), pair("F", 2)]:
        for names in (["", "A"], ["s 1", "s-1"], ["None", "none"]):
            yield {"f": "names", "s": s, "ops": join_ops(s, names, (True,), False) + srlg_ops(names), "depth": 2 + big}
    # nodes without interfaces, in SRLGs like any other
    for s in [pair("P"), pair("F")]:
        s = dict(s, n=s["n"] + ["Z"])
        yield {"f": "orphan", "s": s, "ops": join_ops(s, ["s1"], (True,), False) + srlg_ops(["s1"])
               + [("fail_node", "Z"), ("unfail_node", "Z")], "depth": 3 + big}
    # many members: joined one by one, left one by one
    for s in large():
        ms = members(s)
        out = [("node_leave",) + m[1:] if m[0] == "node_join" else ("if_leave",) + m[1:] for m in ms]
        for k in (0, 1, len(ms) // 2):
            yield {"f": "large", "s": s, "init": init_of(ms[k:] + ms[:k], "s1"), "depth": 2,
                   "ops": [o + ("s1",) for o in out] + srlg_ops(["s1"])}
    # interface names and circuits that look alike: parallel circuits, equal names on both nodes,
    # and membership while individually failed
    s = with_opts(tri_par(), {0: {"na": "x", "nb": "x"}, 1: {"na": "y", "nb": "x2"}, 2: {"na": "x", "nb": "y"},
                              3: {"na": "z", "nb": "z"}})
    for o in [("fail_if",) + a for a, _ in ends(s)] + [("fail_node", n) for n in s["n"]] + [("sim",)]:
        yield {"f": "alike", "s": s, "init": [o], "ops": join_ops(s, ["s1"], (True,)) + srlg_ops(["s1"])
               + base_ops(s, both=False)[1:5], "depth": 2 + big}


def check(case, st):
    def on_state(m, r):
        F.check_members(m, r)
        F.check_flags(m, r)
        F.invariants(m)

    def on_sim(m, r):
        F.check_members(m, r)
        F.check_flags(m, r)

    F.bfs(case, st, [tuple(o) for o in case["ops"]], case["depth"], on_state, on_sim)
