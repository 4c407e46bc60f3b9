"""C13: cross-reference queries agree with each other and with the network."""
from .. import build as B
from .. import choice, edits, env
from .. import topo as T
from ..families import igp_cases, few, lsp_cases, odd_specs, scen, stretched
from ..monitors import Sim, need
from ..simcase import run
from . import c07, c10

PROP = "C13"

# names whose concatenations or prefixes look alike
TRICKY = [["A", "A-B", "B", "B-C"], ["A-B", "A", "B-A", "B"], ["A", "AA", "AAA", "AAAA"], ["Unrouted", "none", "path", "-"],
          ["a", "A", "a ", " a"], ["1", "11", "1-1", "1-1-1"]]


def cases(tier):
    big = tier == "thorough"
    for names in TRICKY:
        for cls in "PF":
            for base in (T.ring(4, cap=20, cls=cls), T.fan(2, cap=20, cls=cls), T.chain(4, cap=20, cls=cls)):
                ren = dict(zip(base["n"], names))
                s = dict(base, n=names, l=[[ren[l[0]], ren[l[1]]] + l[2:] + [{"na": "x%d" % i, "nb": "x%d" % i}]
                                           for i, l in enumerate(base["l"])])
                if base["l"][0][1] != base["l"][-1][0] or True:
                    s["d"] = [[a, b, 3, nm] for a in names for b in names if a != b for nm in ("none", "d", "Unrouted")]
                    s["p"] = [[a, b, "l-%s" % k, 1, m] for a in names[:2] for b in names[2:] for k, m in (("x", None), ("none", 2))]
                s["n"] = names + ["orphan", "orphan-2"]
                for x in scen(s, 1):
                    yield {"f": "look-alike", "s": s, "x": x, "rc": ["first", "last"]}
    for c in c07.cases("quick"):
        if c["f"] in ("parallel", "chain") or c["f"] == "diamond" and len(c["s"]["sc"]) == 2:
            yield c
    for c in lsp_cases(tier):
        if c["f"] in ("wide-lsp", "many-paths", "same-names", "many-lsps", "many-demands", "many-groups"):
            yield dict(c, rc=["first"])
        if c["f"] in ("parallel-lsp", "groups") or (c["f"] == "tri-lsp-fail" and (big or c["x"])):
            yield c
    for s in stretched():
        for x in few(s):
            yield {"f": "stretched", "s": s, "x": x, "rc": ["first"]}
    for c in c07.cases("quick"):
        if c["f"] in ("series", "same-names", "group-room", "wide"):
            yield dict(c, rc=["first"])
    for s in odd_specs():
        s = dict(s, d=T.all_demands(s, [12, 0, 3]), p=[[s["n"][0], s["n"][2], "l1", None, None], [s["n"][2], s["n"][0], "l2", 0.1, 9]])
        for x in scen(s, 1):
            yield {"f": "odd-values", "s": s, "x": x, "rc": ["first", "last"]}
    for c in igp_cases(tier, [12, 7.5, 0]):
        if c["f"] in ("bundles", "tri-parallel") and (big or len(c["s"]["l"]) <= 4):
            yield c
        if c["f"] == "quad" and big:
            yield c
    for c in c10.cases("quick"):
        if c["eager"] and ("-1-" in c["f"] or "-2-" in c["f"] and (big or c["ops"][0][0] != c["ops"][1][0])):
            yield dict(c, f="edits")
    # between an edit and the next simulation
    for c in c10.cases("quick"):
        if not c["eager"] and ("-1-" in c["f"] or "-2-" in c["f"]) and not any(o[0] == "del_p" for o in c["ops"]):
            yield dict(c, f="unsimulated")


class Now:
    """the paths demands and LSPs have at the moment, for queries between simulations"""

    def __init__(self, m, net):
        self.m, self.net = m, net
        self.routed = {B.lkey(p): B.lsp_path(p) for p in m.rsvp_lsp_objects}
        self.dm = {k: None if ps is None else [(q, 0) for q in ps] for k, ps in B.obs_demand_paths(m).items()}


def names(xs, key):
    xs = list(xs)
    out = sorted(key(x) for x in xs)
    return out


def raises(what, call):
    try:
        r = call()
    except env.ModelException:
        return
    need(False, "%s returned %r for a name that does not exist, expected a ModelException", what, r)


def judge(sim):
    m, net = sim.m, sim.net
    before = B.digest(m)
    interfaces(sim)
    nodes(sim)
    demands_and_lsps(sim)
    if isinstance(sim, Sim):    # diagnostics are those of a simulation
        diagnostics(sim)
    else:
        riders = {k: set() for k in sim.routed}
        for dk, ref in sim.dm.items():
            for q, _ in ref or ():
                for c, k in q:
                    if c == "L":
                        riders[k].add(dk)
        for p in m.rsvp_lsp_objects:
            k = B.lkey(p)
            need(names(p.demands_on_lsp(m), B.dkey) == sorted(riders[k]), "demands_on_lsp of %s", k)
            if sim.routed[k] is None:
                need((p.traffic_on_lsp(m), p.topology_metric(m)) == (0, "Unrouted"), "unrouted LSP %s carries %r, has metric %r",
                     k, p.traffic_on_lsp(m), p.topology_metric(m))
    need(B.digest(m) == before, "a query changed the model")


def crossing(sim):
    d = {k: set() for k in sim.net.ifs}
    for dk, ref in sim.dm.items():
        for q, _ in ref or ():
            for c, k in q:
                for i in ((k,) if c == "I" else sim.routed[k]):
                    d[i].add(dk)
    p = {k: set() for k in sim.net.ifs}
    for lk, path in sim.routed.items():
        for i in path or ():
            p[i].add(lk)
    return d, p


def interfaces(sim):
    m, net = sim.m, sim.net
    d, p = crossing(sim)
    for i in m.interface_objects:
        k = B.ikey(i)
        r = net.ifs[k]
        need(names(i.demands(m), B.dkey) == sorted(d[k]), "interface %s demands() %s, expected %s",
             k, names(i.demands(m), B.dkey), sorted(d[k]))
        need(names(i.lsps(m), B.lkey) == sorted(p[k]), "interface %s lsps() %s, expected %s",
             k, names(i.lsps(m), B.lkey), sorted(p[k]))
        need(m.get_interface_object(k[1], k[0]) is i, "get_interface_object%s returns another interface", (k[1], k[0]))
        rem = i.get_remote_interface(m)
        need(B.ikey(rem) == r.rkey, "remote interface of %s is %s, expected %s", k, B.ikey(rem), r.rkey)
        for c in (i.get_circuit_object(m), m.get_circuit_object_from_interface(k[1], k[0])):
            got = sorted(B.ikey(x) for x in c.get_circuit_interfaces(m))
            need(got == sorted((k, r.rkey)), "circuit of interface %s joins %s", k, got)
            need(c.failed(m) is r.failed, "circuit of %s failed() is %r", k, c.failed(m))
            need(c.circuit_id() == i.circuit_id == rem.circuit_id, "circuit of %s: circuit_id() %r, interfaces have %r, %r",
                 k, c.circuit_id(), i.circuit_id, rem.circuit_id)
        if net.cls == "F":
            got = m.get_interface_object_from_nodes(r.node, r.remote, i.circuit_id)
            need(len(got) == 1 and got[0] is i, "get_interface_object_from_nodes%s returns %s", (r.node, r.remote, i.circuit_id), got)
    ckts = sorted(sorted(B.ikey(x) for x in c.get_circuit_interfaces(m)) for c in m.circuit_objects)
    want = sorted({tuple(sorted((k, i.rkey))) for k, i in net.ifs.items()})
    need([tuple(c) for c in ckts] == want, "circuits are %s, expected %s", ckts, want)
    need(len({c.circuit_id() for c in m.circuit_objects}) == len(want), "circuit_ids repeat")
    need(m.all_interface_circuit_ids == {i.circuit_id for i in m.interface_objects}, "all_interface_circuit_ids")
    need(names(m.get_failed_interface_objects(), B.ikey) == sorted(k for k, i in net.ifs.items() if i.failed),
         "get_failed_interface_objects returns %s", names(m.get_failed_interface_objects(), B.ikey))
    need(names(m.get_unfailed_interface_objects(), B.ikey) == sorted(k for k, i in net.ifs.items() if not i.failed),
         "get_unfailed_interface_objects returns %s", names(m.get_unfailed_interface_objects(), B.ikey))
    for a in net.nodes + ["no such node"]:
        for b in net.nodes:
            want = sorted(k for k, i in net.ifs.items() if (i.node, i.remote) == (a, b))
            got = m.get_interface_object_from_nodes(a, b)
            got = [] if got is None else [B.ikey(x) for x in got] if net.cls == "F" else [B.ikey(got)]
            need(sorted(got) == want, "get_interface_object_from_nodes(%s, %s) returns %s, expected %s", a, b, got, want)
    for k in [(n, "no such interface") for n in net.nodes[:2]] + [("no such node", k[1]) for k in list(net.ifs)[:2]]:
        raises("get_interface_object", lambda: m.get_interface_object(k[1], k[0]))
        raises("get_circuit_object_from_interface", lambda: m.get_circuit_object_from_interface(k[1], k[0]))
    # an interface of one node is not found under another node
    for (n, nm) in list(net.ifs)[:2]:
        for o in net.nodes:
            if (o, nm) not in net.ifs:
                raises("get_interface_object", lambda: m.get_interface_object(nm, o))


def nodes(sim):
    m, net = sim.m, sim.net
    orphans = sorted(n for n in net.nodes if not any(i.node == n for i in net.ifs.values()))
    need(names(m.get_orphan_node_objects(), lambda n: n.name) == orphans, "get_orphan_node_objects returns %s, expected %s",
         names(m.get_orphan_node_objects(), lambda n: n.name), orphans)
    for n in m.node_objects:
        mine = sorted(k for k, i in net.ifs.items() if i.node == n.name)
        need(names(n.interfaces(m), B.ikey) == mine, "node %s interfaces() %s, expected %s", n.name, names(n.interfaces(m), B.ikey), mine)
        need(names(m.get_node_interfaces(n.name), B.ikey) == mine, "get_node_interfaces(%s) %s", n.name, mine)
        adj = sorted({net.ifs[k].remote for k in mine})
        need(names(n.adjacent_nodes(m), lambda x: x.name) == adj, "node %s adjacent_nodes() %s, expected %s",
             n.name, names(n.adjacent_nodes(m), lambda x: x.name), adj)
        need(m.get_node_object(n.name) is n, "get_node_object(%s) returns another node", n.name)
        need(m.is_node_an_orphan(n) is (n.name in orphans), "is_node_an_orphan(%s) is %r", n.name, m.is_node_an_orphan(n))
        for what, f, end in (("source", m.get_demand_objects_source_node, 0), ("dest", m.get_demand_objects_dest_node, 1)):
            want = sorted(k for k in net.demands if k[end] == n.name)
            need(names(f(n.name), B.dkey) == want, "get_demand_objects_%s_node(%s) returns %s, expected %s",
                 what, n.name, names(f(n.name), B.dkey), want)
    need(names(m.get_failed_node_objects(), lambda n: n.name) == sorted(n for n in net.nodes if net.node_failed[n]),
         "get_failed_node_objects returns %s", names(m.get_failed_node_objects(), lambda n: n.name))
    need(names(m.get_non_failed_node_objects(), lambda n: n.name) == sorted(n for n in net.nodes if not net.node_failed[n]),
         "get_non_failed_node_objects returns %s", names(m.get_non_failed_node_objects(), lambda n: n.name))
    raises("get_node_object", lambda: m.get_node_object("no such node"))
    raises("get_srlg_object", lambda: m.get_srlg_object("no such srlg"))
    need(m.get_srlg_object("no such srlg", raise_exception=False) is None, "get_srlg_object(raise_exception=False)")


def groups(keys):
    g = {}
    for k in keys:
        g.setdefault("%s-%s" % (k[0], k[1]), []).append(k)
    return {n: sorted(v) for n, v in g.items()}


def demands_and_lsps(sim):
    m, net = sim.m, sim.net
    want = sorted(k for k, ref in sim.dm.items() if ref is None)
    need(names(m.get_unrouted_demand_objects(), B.dkey) == want, "get_unrouted_demand_objects returns %s, expected %s",
         names(m.get_unrouted_demand_objects(), B.dkey), want)
    for d in m.demand_objects:
        need(m.get_demand_object(*B.dkey(d)) is d, "get_demand_object%s returns another demand", B.dkey(d))
        s, t, n = B.dkey(d)
        if (t, s, n) not in net.demands:
            raises("get_demand_object", lambda: m.get_demand_object(t, s, n))
    for p in m.rsvp_lsp_objects:
        k = B.lkey(p)
        need(m.get_rsvp_lsp(*k) is p, "get_rsvp_lsp%s returns another LSP", k)
        if (k[1], k[0], k[2]) not in net.lsps:
            raises("get_rsvp_lsp", lambda: m.get_rsvp_lsp(k[1], k[0], k[2]))
    a, b = net.nodes[:2]
    raises("get_demand_object", lambda: m.get_demand_object(a, b, "no such demand"))
    raises("get_rsvp_lsp", lambda: m.get_rsvp_lsp(a, b, "no such lsp"))
    got = {n: sorted(B.lkey(p) for p in v) for n, v in m.parallel_lsp_groups().items()}
    need(got == groups(net.lsps), "parallel_lsp_groups() %s, expected %s", got, groups(net.lsps))
    got = {n: sorted(B.dkey(p) for p in v) for n, v in m.parallel_demand_groups().items()}
    need(got == groups(net.demands), "parallel_demand_groups() %s, expected %s", got, groups(net.demands))


def diagnostics(sim):
    m = sim.m
    s = m.simulation_diagnostics()
    used = {k for ref in sim.dm.values() for q, _ in ref or () for c, k in q if c == "L"}
    riding = sorted(dk for dk, ref in sim.dm.items() if any(c == "L" for q, _ in ref or () for c, _ in q))
    routed = {k for k, p in sim.routed.items() if p is not None}
    want = {
        "Number of routed LSPs carrying Demands": len(used),
        "Number of routed LSPs with no Demands": len(routed - used),
        "Number of Demands riding LSPs": len(riding),
        "Number of Demands not riding LSPs": len(sim.dm) - len(riding),
        "Number of unrouted LSPs": len(sim.routed) - len(routed),
        "Number of unrouted Demands": sum(r is None for r in sim.dm.values()),
    }
    for k, v in want.items():
        need(s[k] == v, "simulation_diagnostics[%r] is %r, expected %r", k, s[k], v)
    for k, v, key in (("routed LSPs with no demands generator", sorted(routed - used), B.lkey),
                      ("routed LSPs with demands generator", sorted(used), B.lkey),
                      ("demands riding LSPs generator", riding, B.dkey)):
        got = sorted(key(x) for x in s[k])
        need(got == v, "simulation_diagnostics[%r] yields %s, expected %s", k, got, v)


def check(case, st):
    if "ops" not in case:
        run(case, st, judge)
        return
    if case["f"] == "unsimulated":
        def unsim():
            m, net = edits.start(case["s"])
            m.update_simulation()
            judge(Now(m, net))
            for op in case["ops"]:
                if not edits.applicable(net, op):
                    return
                edits.edit(m, net, op)
                judge(Now(m, net))
                st.steps += 1
            st.execs += 1
            st.saw(B.digest(m))
        choice.explore(unsim, policies=["first"])
        return
    # queries after a history of edits
    for pol in ("first", "last"):
        def body():
            m, net = edits.start(case["s"])
            m.update_simulation()
            for op in case["ops"]:
                if not edits.applicable(net, op):
                    return
                edits.edit(m, net, op)
                m.update_simulation()
                st.steps += 1
            st.execs += 1
            st.saw(B.digest(m))
            judge(Sim(m, net))
        choice.explore(body, policies=[pol])
