"""C10: a simulation depends on the model as it is now, not on its history."""
from itertools import product

from .. import build as B
from .. import choice, edits, snap
from .. import topo as T
from ..failops import monitors
from ..monitors import Sim, placement
from ..ref import link_names

PROP = "C10"


def base(cls, kind):
    if kind == "square":     # A-B-D cheap, A-C-D dear
        s = {"cls": cls, "n": ["A", "B", "C", "D"],
             "l": [["A", "B", 1, 1, 10], ["B", "D", 1, 1, 10], ["A", "C", 1, 1, 10], ["C", "D", 2, 2, 10]],
             "d": [["A", "D", 6, "d1"], ["B", "C", 2, "d2"]],
             "p": [["A", "D", "l1", None, None], ["B", "D", "l2", 3, None]]}
    elif kind == "chain":
        s = {"cls": cls, "n": ["A", "B", "C"], "l": [["A", "B", 1, 1, 10], ["B", "C", 1, 1, 10]],
             "d": [["A", "C", 6, "d1"], ["A", "B", 2, "d2"]], "p": [["A", "C", "l1", 4, 3], ["A", "B", "l2", None, None]]}
    else:                    # parallel circuits
        s = {"cls": "F", "n": ["A", "B", "C"],
             "l": [["A", "B", 1, 1, 10], ["A", "B", 2, 2, 10], ["B", "C", 1, 1, 10], ["A", "C", 4, 4, 10]],
             "d": [["A", "C", 6, "d1"], ["B", "C", 2, "d2"]], "p": [["A", "C", "l1", None, None]], "sc": ["A"]}
    return s


def alphabet(s, kind, eager):
    ends = [((l[0], n[0]), (l[1], n[1])) for l, n in zip(s["l"], link_names(s))]
    a0, b0 = ends[0]
    a1, b1 = ends[1]
    d1 = tuple(s["d"][0][i] for i in (0, 1, 3))
    p1 = tuple(s["p"][0][:3])
    ops = [("fail", a0), ("fail", b1), ("unfail", b0), ("fnode", "B"), ("unode", "B"), ("fnode", s["n"][-1]),
           ("unode", s["n"][-1]), ("cost", a0, 3), ("cost", b1, 3), ("cap", a0, 30),
           ("dtraffic", d1, 12), ("dtraffic", d1, 0.5), ("add_d", d1[0], d1[1], 3, "new"), ("add_d", "B", "A", 1, "nb"),
           ("del_d", d1), ("add_p", p1[0], p1[1], "new"), ("add_p", "B", "C", "nb"), ("del_p", p1),
           ("metric", p1, 9), ("metric", p1, 1), ("metric", p1, -1), ("bw", p1, 8), ("bw", p1, None),
           ("rsvp", a0, False), ("rsvp", a0, True), ("pct", a1, 10), ("pct", a1, 100), ("rename", a0, "zz")]
    if eager:
        ops += [("cap", a0, 3)]
    if s["cls"] == "F":
        ops += [("sc", "A", True), ("sc", "A", False), ("sc", "B", True),
                ("circuit", "A", "B", "n1", "n2", 1, 1, 5), ("circuit", "A", s["n"][-1], "n3", "n4", 1, 2, 5)]
    elif kind == "chain":
        ops += [("circuit", "A", "C", "n3", "n4", 1, 2, 5)]
    return ops


def srlg_alphabet(cls, kind):
    s = base(cls, kind)
    ends = [((l[0], n[0]), (l[1], n[1])) for l, n in zip(s["l"], link_names(s))]
    ops = [("fsrlg", "g"), ("usrlg", "g"), ("fail", ends[0][0]), ("unfail", ends[0][1]), ("fnode", "B"), ("unode", "B"),
           ("fnode", s["n"][-1]), ("unode", s["n"][-1]), ("cap", ends[1][0], 30), ("cost", ends[-1][0], 1), ("rsvp", ends[-1][0], False),
           ("dtraffic", tuple(s["d"][0][i] for i in (0, 1, 3)), 12)]
    return s, (["C"], [ends[0][1]]), ops


def look(m):
    """read everything: what is read now must not show in what is read later"""
    snap.full(m, True)
    for i in m.interface_objects:
        i.lsps(m), i.demands(m), i.get_circuit_object(m)


def cases(tier):
    big = tier == "thorough"
    for depth in (1, 2, 3):
        for cls, kind in (("P", "square"), ("F", "square"), ("P", "chain"), ("F", "parallel")):
            for eager in (True, False):
                s = base(cls, kind)
                ops = alphabet(s, kind, eager)
                if depth == 3 and not big:
                    if not eager or kind == "square":
                        continue
                    ops = [o for o in ops if o[0] not in ("rename", "cap", "pct") and o != ("cost", ops[8][1], 3)]
                for seq in product(range(len(ops)), repeat=depth):
                    if len(set(seq)) < depth:
                        continue
                    # removing an LSP has no API; after taking it out of the set the
                    # model must be simulated before the next validating call
                    if not eager and any(ops[i][0] == "del_p" for i in seq[:-1]):
                        continue
                    yield {"f": "%s-%d-%s" % (kind, depth, "eager" if eager else "lazy"), "s": s,
                           "ops": [ops[i] for i in seq], "eager": eager, "look": eager and (depth < 3 or big) or depth == 1}
    # the same with everything that depends on a risk group
    for cls, kind in (("P", "square"), ("F", "parallel")):
        for depth in (1, 2, 3):
            for eager in (True, False):
                s, pre, ops = srlg_alphabet(cls, kind)
                for seq in product(range(len(ops)), repeat=depth):
                    if len(set(seq)) < depth or depth == 3 and not eager and not big:
                        continue
                    if not any(ops[i][0] in ("fsrlg", "usrlg") for i in seq):
                        continue
                    yield {"f": "srlg-%d" % depth, "s": s, "ops": [("srlg", "g", pre[0], pre[1])] + [ops[i] for i in seq], "eager": eager,
                           "look": eager}
    # repeated simulation and larger histories: fail everything one by one, restore in any rotation
    for cls in "PF":
        for s in (T.ring(5, cap=20, cls=cls), T.grid(3, 2, cap=20, cls=cls), T.ladder(2, cap=20, cls=cls)):
            n = s["n"]
            s = dict(s, d=[[n[0], n[-1], 6, "d1"], [n[2], n[0], 3, "d2"], [n[1], n[-1], 1, "d3"]],
                     p=[[n[0], n[2], "l1", None, None], [n[1], n[-1], "l2", 5, None]])
            ends = [(l[0], x[0]) for l, x in zip(s["l"], link_names(s))]
            for r in range(len(ends)):
                for step in (1, 2):
                    seq = [ends[(r + step * i) % len(ends)] for i in range(len(ends))]
                    for cut in range(len(seq) + 1):
                        yield {"f": "long", "s": s, "eager": True, "rc": ["first", "last"],
                               "ops": [("fail", k) for k in seq] + [("unfail", k) for k in seq[:cut]]}
            for a in n:
                for b in n:
                    yield {"f": "long", "s": s, "eager": True, "rc": ["first", "last"],
                           "ops": [("fnode", a), ("fnode", b), ("unode", a), ("sim",), ("unode", b)]}


def check(case, st):
    s = case["s"]
    m, n0 = edits.start(s)
    m.update_simulation()
    for op in case["ops"]:
        if not edits.applicable(n0, op):
            return
        edits.edit(m, n0, op)   # dry run for applicability; random answers: first
        if case["eager"]:
            m.update_simulation()
    box = {}

    def body():
        m, net = edits.start(s)
        m.update_simulation()
        if case.get("look"):
            look(m)
        for op in case["ops"]:
            edits.edit(m, net, op)
            st.steps += 1
            if case["eager"]:
                m.update_simulation()
                if case.get("look"):
                    look(m)
        if not case["eager"]:
            m.update_simulation()
        st.execs += 1
        st.saw(B.digest(m))
        sim = Sim(m, net)
        monitors(sim)
        if "o" not in box:
            box["o"] = net.lsp_outcomes()
        placement(sim, box["o"])

    choice.explore(body, policies=case.get("rc"))
