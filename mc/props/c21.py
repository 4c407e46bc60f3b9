"""C21: the printed reports and the representations state the network as it is."""
import io
import re
import sys

from .. import build as B
from .. import choice, edits
from .. import topo as T
from ..families import few, huge
from ..monitors import Sim, need
from ..simcase import run
from . import c10, c13

PROP = "C21"


def cases(tier):
    for c in c13.cases(tier):
        if c["f"] not in ("many-paths", "edits"):
            yield c
    for s, only in huge(tier == "thorough"):
        for x in few(s):
            yield {"f": "huge", "s": dict(s, d=T.all_demands(s, 12, only)), "x": x}
    for c in c10.cases("quick"):
        if c["eager"] and ("-1-" in c["f"] or "-2-" in c["f"] and (tier == "thorough" or c["ops"][0][0] != c["ops"][1][0])):
            yield dict(c, f="edits")


def printed(call):
    saved, sys.stdout = sys.stdout, io.StringIO()
    try:
        call()
        return sys.stdout.getvalue()
    finally:
        sys.stdout = saved


def words(x):
    return " ".join(str(x).split())


def lines(text):
    return sorted(filter(None, map(words, text.splitlines())))


def table(what, text, head, rows):
    want = sorted(filter(None, [words(head)] + [words(" ".join(map(str, r))) for r in rows]))
    need(lines(text) == want, "%s printed %s, expected %s", what, lines(text), want)




def judge(sim):
    m, net = sim.m, sim.net
    before = B.digest(m)
    table("display_interface_status", printed(m.display_interface_status), "Node Interface Remote Node Failed",
          [(k[0], k[1], r.remote, r.failed) for k, r in net.ifs.items()])
    table("display_node_status", printed(m.display_node_status), "Node Failed", list(net.node_failed.items()))
    # the figures of an interface are decided by C02; here, that they are the ones shown
    table("display_interfaces_traffic", printed(m.display_interfaces_traffic), "Node Interface Remote Node Traffic",
          [(B.ikey(i)[0], B.ikey(i)[1], i.remote_node_object.name, repr(i.traffic)) for i in m.interface_objects])
    reps = {}
    for i in m.interface_objects:
        k = B.ikey(i)
        r = net.ifs[k]
        want = "Interface(name = %r, cost = %s, capacity = %s, node_object = Node(%r), remote_node_object = Node(%r), circuit_id = %r)" % (
            k[1], i.cost, i.capacity, k[0], r.remote, i.circuit_id)
        need(words(repr(i)) == words(want) and (i.cost, i.capacity) == (r.cost, r.cap), "repr of interface %s is %r, expected %r", k, repr(i), want)
        reps["I", k] = words(want)
    got = sorted(filter(None, (words(b) for b in printed(m.display_interface_objects).split("\n\n"))))
    need(got == sorted(words(v) for v in reps.values()), "display_interface_objects printed %s", got)
    for d in m.demand_objects:
        s, t, n = B.dkey(d)
        need(repr(d) == "Demand(source = %s, dest = %s, traffic = %s, name = %r)" % (s, t, d.traffic, n), "repr of demand %s is %r", (s, t, n), repr(d))
    for p in m.rsvp_lsp_objects:
        s, t, n = B.lkey(p)
        reps["L", (s, t, n)] = words("RSVP_LSP(source = %s, dest = %s, lsp_name = %r)" % (s, t, n))
        need(words(repr(p)) == reps["L", (s, t, n)], "repr of LSP %s is %r", (s, t, n), repr(p))
    for n in m.node_objects:
        need(repr(n) == "Node(%r)" % n.name, "repr of node %r is %r", n.name, repr(n))
    for g in m.srlg_objects:
        need(repr(g) == "SRLG(Name: %s)" % g.name, "repr of SRLG %r is %r", g.name, repr(g))
    for c in m.circuit_objects:
        a, b = (words(repr(i)) for i in c.get_circuit_interfaces(m))
        need(words(repr(c)) in ("Circuit(%s, %s)" % x for x in ((a, b), (b, a))), "repr of circuit %s is %r", (a, b), repr(c))
    nums = [int(x) for x in re.findall(r": (\d+)", repr(m))]
    need(nums == [len(net.ifs), len(net.nodes), len(net.demands), len(net.lsps)] and
         repr(m).startswith({"P": "PerformanceModel(", "F": "FlexModel("}[net.cls]), "repr of the model is %r", repr(m))
    # each demand with exactly its paths
    want = []
    for dk, ref in sim.dm.items():
        ps = sorted("[%s]" % ", ".join(reps[x] for x in q) for q, _ in ref or ())
        want.append((words(repr(dk)), len(ps), ps))
    got = []
    for b in printed(m.display_demand_paths).split("demand._key is ")[1:]:
        x = re.match(r"(.*)\nDemand has (\d+) paths:\n(.*)\Z", b, re.S)
        need(x, "display_demand_paths printed %r", b)
        got.append((words(x.group(1)), int(x.group(2)), sorted(filter(None, (words(p) for p in x.group(3).split("\n\n"))))))
    need(sorted(got) == sorted(want), "display_demand_paths printed %s, expected %s", sorted(got), sorted(want))
    need(B.digest(m) == before, "a report changed the model")


def check(case, st):
    if "ops" not in case:
        run(case, st, judge)
        return
    for pol in ("first",):
        def body():
            m, net = edits.start(case["s"])
            m.update_simulation()
            for op in case["ops"]:
                if not edits.applicable(net, op):
                    return
                edits.edit(m, net, op)
                m.update_simulation()
                st.steps += 1
            st.execs += 1
            st.saw(B.digest(m))
            judge(Sim(m, net))
        choice.explore(body, policies=[pol])
