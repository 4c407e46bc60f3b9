"""C20: every failure scenario of realistic networks keeps every guarantee.

Networks: the model files shipped with the library (copies in mc/samples, read
through load_model_file) and generated rings, grids and ladders with scarce
bandwidth.  Scenario: SRLGs are formed, the model is simulated, one or two
elements (circuits, nodes, SRLGs) fail in turn, the model is simulated and
monitored, the elements are restored in either order, and it is simulated and
monitored again; flags are compared with the reference machine at every step."""
import os
from itertools import combinations

from .. import build as B
from .. import choice, env
from .. import modelfile as MF
from .. import topo as T
from ..failops import check_flags, check_members, check_queries, invariants, monitors, net_of, step
from ..monitors import Sim, need, placement
from ..ref import Net
from ..refstate import FailState

PROP = "C20"
DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "samples")
CASE_TIMEOUT = 300
OUTCOMES = 4000     # steps of the signalling enumeration
ANSWERS = 200       # executions per case before fixed ways of answering are taken instead


def rows(path):
    """the tables of a model file as rows of cells"""
    with open(path, encoding="utf-8-sig") as f:
        lines = [x.rstrip("\r\n") for x in f]
    tab = {"INTERFACES_TABLE": "i", "NODES_TABLE": "n", "DEMANDS_TABLE": "d", "RSVP_LSP_TABLE": "p"}
    desc = {"i": [], "n": [], "d": [], "p": None}
    cur, head = None, False
    for x in lines:
        if x.strip() in tab:
            cur, head = tab[x.strip()], True
            if desc[cur] is None:
                desc[cur] = []
        elif head:
            head = False
        elif x.strip():
            desc[cur].append(x.split("\t"))
    return desc


_desc = {}


def desc_of(name):
    if name not in _desc:
        _desc[name] = rows(os.path.join(DIR, name))
    return _desc[name]


def generated():
    """(spec): larger regular networks with LSPs competing for bandwidth"""
    for cls in "PF":
        r = T.ring(7, cap=20, cls=cls)
        r["l"].append(["A", "D", 2, 2, 10])
        r["d"] = [["A", "D", 12, "d1"], ["B", "F", 9, "d2"], ["G", "C", 4, "d3"], ["C", "E", 7.5, "d4"], ["D", "A", 5, "d5"]]
        r["p"] = [["A", "D", "l1", None, None], ["A", "D", "l2", 6, None], ["B", "F", "l1", None, 3], ["C", "E", "l3", 12, None]]
        yield "ring7", r
        g = T.grid(3, 3, cap=15, cls=cls)
        g["d"] = [["A", "I", 12, "d1"], ["C", "G", 8, "d2"], ["B", "H", 6, "d3"], ["A", "F", 10, "d4"], ["D", "F", 3, "d5"]]
        g["p"] = [["A", "I", "l1", None, None], ["A", "F", "l2", 8, None], ["D", "F", "l3", None, 1]]
        yield "grid33", g
        la = T.ladder(2, cap=12, cls=cls)
        la["d"] = [["A", "G", 12, "d1"], ["B", "E", 4, "d2"], ["G", "A", 9, "d3"]]
        la["p"] = [["A", "G", "l1", None, None], ["A", "G", "l2", None, None], ["D", "G", "l3", 9, None]]
        yield "ladder2", la
    f = T.ladder(2, cap=12, cls="F")
    f["l"] += [["A", "B", 1, 1, 6], ["D", "E", 1, 1, 6], ["A", "D", 2, 2, 20]]
    f["sc"] = ["A", "B", "D"]
    f["d"] = [["A", "G", 12, "d1"], ["B", "G", 4, "d2"], ["A", "F", 6, "d3"]]
    f["p"] = [["A", "D", "l1", None, None], ["D", "G", "l2", None, None], ["D", "G", "l3", 5, None], ["B", "G", "l4", 2, 9]]
    yield "shortcuts", f
    f = T.ring(5, cap=20, cls="F")
    f["l"] += [["A", "B", 1, 1, 10], ["A", "B", 1, 1, 10], ["C", "D", 1, 1, 5], ["A", "C", 2, 2, 8]]
    f["sc"] = ["B"]
    f["d"] = [["A", "C", 12, "d1"], ["A", "D", 9, "d2"], ["B", "D", 6, "d3"], ["E", "B", 5, "d4"]]
    f["p"] = [["A", "C", "l1", None, None], ["A", "C", "l2", None, None], ["B", "D", "l3", None, None], ["B", "D", "l4", 4, 2]]
    yield "bundle5", f


def srlgs(nodes, circuits, k):
    """two shared-risk groups: a pair of circuits, and a circuit with a node"""
    c = sorted(circuits)
    n = sorted(nodes)
    return [["S1", [], [list(c[k % len(c)][0]), list(c[(k + 2) % len(c)][1])]],
            ["S2", [n[(k + 1) % len(n)]], [list(c[(k + 3) % len(c)][0])]]]


def elements(nodes, circuits):
    return ([["if", list(c[0])] for c in sorted(circuits)] + [["node", n] for n in sorted(nodes)]
            + [["srlg", "S1"], ["srlg", "S2"]])


def scenarios(src, cls, net, big):
    fs = FailState(net)
    nodes, circuits = list(fs.nodes), list(fs.links)
    el = elements(nodes, circuits)

    def case(f, x, k, **kw):
        return dict({"f": f, "cls": cls, "src": src, "g": srlgs(nodes, circuits, k), "x": x}, **kw)

    for o in ("asc", "desc"):
        yield case("none", [], 0, o=o, rc=None)
        for k, e in enumerate(el):
            yield case("single", [e], k, o=o, rc=None if o == "asc" or big else ["first", "last"])
    for k, (e, f) in enumerate(combinations(el, 2)):
        yield case("pair", [e, f] if k % 2 == 0 else [f, e], k, rc=["first"] if not big else ["first", "last", "turns"],
                   back="fifo" if k % 4 < 2 else "lifo")
        if big:
            yield case("pair", [f, e] if k % 2 == 0 else [e, f], k, rc=["last"], o="desc", back="lifo" if k % 4 < 2 else "fifo")
    if big:
        links = [e for e in el if e[0] != "node"]
        for k, t in enumerate(combinations(links, 3)):
            if len(links) <= 12 or k % 7 == 0:
                yield case("triple", list(t), k, rc=["first"], back="lifo")


def cases(tier):
    big = tier == "thorough"
    gens = []
    for name in sorted(os.listdir(DIR)):
        cls = name[0]
        net = MF.net_from(cls, MF.expected(cls, desc_of(name)))
        gens.append(scenarios({"file": name}, cls, net, big))
        if big:
            alias = {"P": "M", "F": "L"}[cls]
            gens.append(scenarios({"file": name}, alias, net, False))
    for name, s in generated():
        gens.append(scenarios({"spec": s, "name": name}, s["cls"], Net(s), big))
    order = {"none": 0, "single": 1, "pair": 2, "triple": 3}
    out = [c for g in gens for c in g]
    out.sort(key=lambda c: order[c["f"]])
    return out


def fresh(case):
    """(model, function making the reference network)"""
    src = case["src"]
    env.reset_order(case.get("o", "asc"))
    if "spec" in src:
        return B.build(src["spec"], order=case.get("o", "asc")), lambda: Net(src["spec"])
    cls = case["cls"]
    m = B.CLS[cls].load_model_file(os.path.join(DIR, src["file"]))
    e = MF.expected(cls, desc_of(src["file"]))
    MF.compare(m, e)
    kind = "F" if cls in "FL" else "P"
    return m, lambda: MF.net_from(kind, e)


def with_flags(mk, r):
    net = mk()
    for n, f in r.nodes.items():
        net.node_failed[n] = f
    for k, i in net.ifs.items():
        i.failed = r.links[r.of[k]]
    net.touch()
    return net


FAIL = {"if": "fail_if", "node": "fail_node", "srlg": "fail_srlg"}
UNFAIL = {"if": "unfail_if", "node": "unfail_node", "srlg": "unfail_srlg"}


def op(table, e):
    return (table[e[0]],) + (tuple(e[1]) if e[0] == "if" else (e[1],))


_outs = {}


def outcomes(case, net, r):
    """the admissible signalling results, or None where there are too many"""
    k = (str(case["src"]), r.key()[:2])
    if k not in _outs:
        if len(_outs) > 500:
            _outs.clear()
        try:
            _outs[k] = net.lsp_outcomes(OUTCOMES)
        except OverflowError:
            _outs[k] = None
    return _outs[k]


def check(case, st):
    def judge(m, mk, r):
        check_flags(m, r)
        invariants(m)
        net = with_flags(mk, r)
        sim = Sim(m, net)
        monitors(sim)
        outs = outcomes(case, net, r)
        if outs is None:
            st.count("placements checked by the monitors only")
        else:
            st.count("placements checked against all admissible ones")
            placement(sim, outs)
        st.saw(B.digest(m))

    def body():
        m, mk = fresh(case)
        r = FailState(mk())
        m.update_simulation()   # circuits of a loaded model are known after the first simulation
        for name, ns, ks in case["g"]:
            step(m, r, ("add_srlg", name))
            for n in ns:
                step(m, r, ("node_join", n, name, False))
            for k in ks:
                step(m, r, ("if_join", k[0], k[1], name, False))
        m.update_simulation()
        st.steps += 1
        judge(m, mk, r)
        for e in case["x"]:
            step(m, r, op(FAIL, e))
            check_flags(m, r)
            st.steps += 1
        m.update_simulation()
        judge(m, mk, r)
        check_members(m, r)
        check_queries(m, r)
        st.execs += 1
        if case.get("rc") is None and case["x"]:
            return      # the restore phase is explored with fixed answers
        back = list(case["x"])
        if case.get("back", "lifo") == "lifo":
            back.reverse()
        for e in back:
            step(m, r, op(UNFAIL, e))
            check_flags(m, r)
            st.steps += 1
        # whatever is still down now is down because a restore was refused
        for s in list(r.srlg):
            if r.srlg[s]:
                step(m, r, ("unfail_srlg", s))
        for n in list(r.nodes):
            if r.nodes[n]:
                step(m, r, ("unfail_node", n))
        for c in list(r.links):
            if r.links[c]:
                step(m, r, ("unfail_if",) + c[0])
        m.update_simulation()
        need(not any(r.nodes.values()) and not any(r.links.values()), "harness: not everything restored")
        judge(m, mk, r)

    if case.get("rc") is None:
        try:
            choice.explore(body, limit=ANSWERS)
        except OverflowError:
            st.count("random answers too many, fixed policies taken")
            choice.explore(body, policies=["first", "last", "turns"])
        if case["x"]:
            c2 = dict(case, rc=["first"])
            check(c2, st)
    else:
        choice.explore(body, policies=case["rc"])


