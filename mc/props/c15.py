"""C15: edits add exactly what was asked, or reject and change nothing."""
from .. import build as B
from .. import choice, env
from .. import topo as T
from ..failops import monitors
from ..monitors import Sim, Violation, need, placement
from ..ref import Net

PROP = "C15"


# ------------------------------------------------------------ reference state
class Ref:
    """Plain description of the model; `bad` once a rejected step may have left
    an invalid network behind (such states are not explored further)."""

    def __init__(self, net):
        self.net = net
        self.attrs = {n: (0, 0) for n in net.nodes}
        self.bad = False

    def key(self):
        n = self.net
        return (tuple(n.nodes), tuple(sorted(n.node_failed.items())), tuple(sorted(self.attrs.items())),
                tuple(sorted((i.key, i.rkey, i.cost, i.cap, i.failed) for i in n.ifs.values())),
                tuple(sorted(n.demands.items())), tuple(sorted((k, str(v)) for k, v in n.lsps.items())))


REJECT, INVALID, OK = "reject", "invalid", "ok"


def predict(r, op):
    """outcome and, when ok, apply to the reference.  REJECT: ModelException
    and nothing changed.  INVALID: ModelException, state left undefined."""
    n, k, a = r.net, op[0], op[1:]
    if k == "add_node":
        if a[0] in n.nodes:
            return REJECT
        n.nodes.append(a[0])
        n.node_failed[a[0]] = False
        r.attrs[a[0]] = tuple(a[1:3]) if len(a) > 1 else (0, 0)
    elif k == "add_demand":
        s, t = a[:2]
        tr = a[2] if len(a) > 2 else 0
        nm = a[3] if len(a) > 3 else "none"
        if s not in n.nodes or t not in n.nodes or (s, t, nm) in n.demands:
            return REJECT
        n.demands[s, t, nm] = tr
    elif k == "bad_demand":
        return REJECT
    elif k == "add_lsp":
        if a[0] not in n.nodes or a[1] not in n.nodes or tuple(a) in n.lsps:
            return REJECT
        n.lsps[tuple(a)] = (None, None)
    elif k == "add_circuit":
        x, y, na, nb = a[:4]
        o = a[4] if len(a) > 4 else {}
        if x not in n.nodes or y not in n.nodes or (x, na) in n.ifs or (y, nb) in n.ifs:
            return REJECT
        if n.cls == "F" and (o.get("cid") is None or o["cid"] in {i.cid for i in n.ifs.values()}):
            return REJECT
        if n.cls == "P" and any((i.node, i.remote) == (x, y) for i in n.ifs.values()):
            return INVALID
        link(r, x, y, na, nb, o.get("ca", 1), o.get("cb", 1), o.get("cap", 1000), o.get("failed", False), o.get("cid"))
    elif k == "add_list":
        for x, y, na, nb, ca, cb, cap, failed, cid in a:
            for e in (x, y):
                if e not in n.nodes:
                    n.nodes.append(e)
                    n.node_failed[e] = False
                    r.attrs[e] = (0, 0)
            for key, rem in (((x, na), y), ((y, nb), x)):
                i = n.ifs.get(key)
                if i is not None and i.remote == rem and i.cap == cap:
                    return None      # the very same interface again may be merged instead: not explored
            if (x, na) in n.ifs or (y, nb) in n.ifs:
                return INVALID
            if n.cls == "F" and cid in {i.cid for i in n.ifs.values()}:
                return INVALID
            if n.cls == "P" and any((i.node, i.remote) == (x, y) for i in n.ifs.values()):
                return INVALID
            link(r, x, y, na, nb, ca, cb, cap, failed, cid)
    elif k == "one_way":
        return INVALID
    elif k == "rename":
        i = n.ifs.get(a[0])
        if i is None:
            return REJECT
        if (a[0][0], a[1]) in n.ifs:
            return None      # caught at the next validation only: not explored
        del n.ifs[a[0]]
        i.name, i.key = a[1], (a[0][0], a[1])
        n.ifs[i.key] = i
        n.ifs[i.rkey].rkey = i.key
    elif k == "fail_node":
        if a[0] not in n.nodes:
            return REJECT
        n.fail_node(a[0])
    elif k == "fail":
        if a[0] not in n.ifs:
            return REJECT
        n.fail_if(a[0])
    elif k == "unfail_node":
        if a[0] not in n.nodes:
            return REJECT
        n.node_failed[a[0]] = False
        for i in n.ifs.values():
            if a[0] in (i.node, i.remote) and not n.node_failed[i.node] and not n.node_failed[i.remote]:
                i.failed = False
    n.touch()
    return OK


def link(r, x, y, na, nb, ca, cb, cap, failed, cid):
    n = r.net
    n.add_link(x, y, ca, cb, cap, na, nb, cid)
    f = bool(failed or n.node_failed[x] or n.node_failed[y])
    n.ifs[x, na].failed = n.ifs[y, nb].failed = f


def apply(m, op):
    k, a = op[0], op[1:]
    if k == "add_node":
        m.add_node(env.Node(*a))
    elif k == "add_demand":
        m.add_demand(*a)
    elif k == "bad_demand":
        m.add_demand(*a)
    elif k == "add_lsp":
        m.add_rsvp_lsp(*a)
    elif k == "add_circuit":
        o = a[4] if len(a) > 4 else {}
        kw = {w: o[v] for v, w in (("ca", "cost_intf_a"), ("cb", "cost_intf_b"), ("cap", "capacity"), ("failed", "failed"),
                                   ("cid", "circuit_id")) if v in o}
        m.add_circuit(m.get_node_object(a[0]), m.get_node_object(a[1]), a[2], a[3], **kw)
    elif k == "add_list":
        rows = []
        for x, y, na, nb, ca, cb, cap, failed, cid in a:
            for nm, c, p, q in ((na, ca, x, y), (nb, cb, y, x)):
                d = {"name": nm, "cost": c, "capacity": cap, "node": p, "remote_node": q, "circuit_id": cid}
                if failed is not None:
                    d["failed"] = failed
                rows.append(d)
        m.add_network_interfaces_from_list(rows)
    elif k == "one_way":
        m.add_network_interfaces_from_list([{"name": a[0], "cost": 1, "capacity": 10, "node": a[1], "remote_node": a[2],
                                             "circuit_id": "one-way", "failed": False}])
    elif k == "rename":
        i = m.change_interface_name(a[0][0], a[0][1], a[1])
        need(i.name == a[1], "change_interface_name returned %r", i)
    elif k == "fail_node":
        m.fail_node(a[0])
    elif k == "fail":
        m.fail_interface(a[0][1], a[0][0])
    elif k == "unfail_node":
        m.unfail_node(a[0])
    elif k == "sim":
        m.update_simulation()
    else:
        raise ValueError(op)


# ------------------------------------------------------------ comparison
def compare(m, r):
    n = r.net
    need(sorted(x.name for x in m.node_objects) == sorted(n.nodes), "nodes are %s, expected %s",
         sorted(x.name for x in m.node_objects), sorted(n.nodes))
    by = {x.name: x for x in m.node_objects}
    for x in m.node_objects:
        need((x.lat, x.lon) == r.attrs[x.name], "node %s lat/lon %r, expected %r", x.name, (x.lat, x.lon), r.attrs[x.name])
        need(x.failed is n.node_failed[x.name], "node %s failed=%r", x.name, x.failed)
    got = sorted(B.ikey(i) for i in m.interface_objects)
    need(got == sorted(n.ifs), "interfaces are %s, expected %s", got, sorted(n.ifs))
    for i in m.interface_objects:
        w = n.ifs[B.ikey(i)]
        g = (i.remote_node_object.name, i.cost, i.capacity, i.failed, i.rsvp_enabled, i.percent_reservable_bandwidth)
        e = (w.remote, w.cost, w.cap, w.failed, w.rsvp, w.pct)
        need(g == e, "interface %s is (remote, cost, capacity, failed, rsvp, percent) %s, expected %s", w.key, g, e)
        need(i.node_object is by[w.node] and i.remote_node_object is by[w.remote],
             "interface %s is not attached to the model's nodes", w.key)
        if n.cls == "F":
            need(i.circuit_id == w.cid, "interface %s circuit_id %r, expected %r", w.key, i.circuit_id, w.cid)
    got = sorted((B.dkey(d), d.traffic) for d in m.demand_objects)
    need(got == sorted(n.demands.items()), "demands are %s, expected %s", got, sorted(n.demands.items()))
    got = sorted(B.lkey(p) for p in m.rsvp_lsp_objects)
    need(got == sorted(n.lsps), "LSPs are %s, expected %s", got, sorted(n.lsps))
    for x in list(m.demand_objects) + list(m.rsvp_lsp_objects):
        need(x.source_node_object is by[x.source_node_object.name] and x.dest_node_object is by[x.dest_node_object.name],
             "%s is not attached to the model's nodes", x)
    for p in m.rsvp_lsp_objects:
        need((p.configured_setup_bandwidth, p.manual_metric) == (n.lsps[B.lkey(p)][0], "not set"), "LSP %s has attributes %r",
             B.lkey(p), (p.configured_setup_bandwidth, p.manual_metric))


VALIDATES = ("add_node", "add_demand", "add_lsp", "add_circuit", "add_list", "sim")


def circuits(m, r):
    got = sorted(tuple(sorted(B.ikey(i) for i in c.get_circuit_interfaces(m))) for c in m.circuit_objects)
    want = sorted({tuple(sorted((k, i.rkey))) for k, i in r.net.ifs.items()})
    need(got == want, "circuits are %s, expected %s", got, want)
    ids = [c.circuit_id() for c in m.circuit_objects]
    need(len(set(ids)) == len(ids), "circuit_ids repeat: %s", sorted(map(str, ids)))
    for i in m.interface_objects:
        rem = i.get_remote_interface(m)
        need(B.ikey(rem) == r.net.ifs[B.ikey(i)].rkey, "remote interface of %s is %s", B.ikey(i), B.ikey(rem))


def state(m, r):
    """what must not change when an edit is rejected"""
    return (B.digest(m), len(m.interface_objects), len(m.node_objects), len(m.demand_objects), len(m.rsvp_lsp_objects),
            sorted((B.ikey(i), str(i.circuit_id), i.cost, str(i.capacity)) for i in m.interface_objects),
            sorted((x.name, x.lat, x.lon) for x in m.node_objects))


# ------------------------------------------------------------ exploration
def bases():
    for cls in "PF":
        yield {"cls": cls, "n": [], "l": []}, False
        s = T.chain(3, cap=10, cls=cls)
        s["d"] = [["A", "C", 4, "d1"]]
        s["p"] = [["A", "C", "l1", None, None]]
        yield s, True
        yield s, False      # not validated or simulated yet
    yield {"cls": "F", "n": ["A", "B", "C"], "l": [["A", "B", 1, 1, 10], ["A", "B", 1, 1, 10], ["B", "C", 2, 2, 10]],
           "d": [["A", "C", 4, "d1"]], "p": [["A", "B", "l1", None, None]]}, True


def alphabet(s):
    f = s["cls"] == "F"
    if not s["n"]:
        ops = [("add_node", "A"), ("add_node", "B", 1.5, -2), ("add_demand", "A", "B", 5), ("add_lsp", "A", "B", "l"),
               ("add_list", ("A", "B", "a1", "b1", 1, 2, 10, False, "c1")),
               ("add_list", ("B", "C", "b2", "c1", 3, 3, 5, None, "c2"), ("C", "A", "c2", "a2", 1, 1, 5, None, "c3")),
               ("add_list", ("A", "B", "a1", "b1", 1, 2, 10, True, "c1")),
               ("add_circuit", "A", "B", "a3", "b3", {"cid": "c4"} if f else {}), ("add_circuit", "B", "A", "b3", "a3", {"cid": "c5"}),
               ("fail_node", "A"), ("unfail_node", "A"), ("sim",)]
        return ops
    cid = {"cid": "new"} if f else {}
    ops = [
        ("add_node", "D"), ("add_node", "A"), ("add_node", "E", -10.5, 20),
        ("add_demand", "A", "C", 3, "d2"), ("add_demand", "A", "C", 9, "d1"), ("add_demand", "C", "A"), ("add_demand", "A", "X", 1, "d"),
        ("add_demand", "X", "A", 1, "d"), ("add_demand", "A", "D", 2.5),
        ("add_lsp", "A", "C", "l2"), ("add_lsp", "A", "C", "l1"), ("add_lsp", "C", "A", "l1"), ("add_lsp", "A", "X", "l"), ("add_lsp", "X", "A", "l"),
        ("add_circuit", "A", "C", "A-C", "C-A", dict(cid, ca=3, cb=4, cap=7)), ("add_circuit", "A", "C", "A-C", "C-A2", dict(cid, failed=True)),
        ("add_circuit", "A", "D", "x", "x", cid), ("add_circuit", "D", "B", "y", "B-C", cid), ("add_circuit", "A", "D", "A-B", "y", cid),
        ("add_circuit", "A", "B", "p1", "p2", dict(cid, cap=3)),
        ("add_list", ("C", "D", "c", "d", 1, 2, 10, False, "n1"), ("D", "A", "d2", "a2", 5, 5, 20, None, "n2")),
        ("add_list", ("A", "C", "q", "q", 1, 2, 5, True, "n3")), ("add_list", ("B", "A", "q1", "q2", 1, 2, 5, False, "n4")),
        ("add_list", ("A", "C", "A-B", "q", 1, 2, 5, False, "n5")), ("one_way", "o", "A", "C"),
        ("add_list", ("A ", "B", "s1", "s2", 1, 2, 5, False, "n6")), ("add_node", " A"),
        ("rename", ("A", "A-B"), "renamed"), ("rename", ("A", "none"), "x"),
        ("fail_node", "C"), ("unfail_node", "C"), ("fail_node", "X"), ("fail", ("A", "A-B")), ("fail", ("A", "zz")), ("sim",),
    ]
    if f:
        ops += [("add_circuit", "A", "C", "r1", "r2"), ("add_circuit", "A", "C", "r1", "r2", {"cid": "1"}),
                ("add_circuit", "C", "A", "r3", "r4", {"cid": 1})]
    else:
        ops += [("add_circuit", "C", "A", "r1", "r2", {"cid": 9})]
    return ops


BULK = ("node", "circuit", "list", "one list", "demand", "lsp")


def bulk(s, kind, n, at=0):
    """n edits of one kind (and the nodes they need), numbered from at"""
    f = s["cls"] == "F"
    hub = "hub" if at else "A"
    pre = [("add_node", "hub")] if at else [] if s["n"] else [("add_node", "A")]
    ids = ["%s%d" % ("m" if at else "k", at + j) for j in range(n)]
    if kind == "node":
        return pre + [("add_node", x, j, -j) for j, x in enumerate(ids)]
    rows = [(hub, x, "to-" + x, "up", 1 + j, 2, 5 + j, [False, None, True][j % 3], "cid-" + x) for j, x in enumerate(ids)]
    if kind == "one list":
        return pre + [("add_list",) + tuple(rows)]
    if kind == "list":
        return pre + [("add_list", r) for r in rows]
    need_nodes = pre + [("add_node", x) for x in ids]
    if kind == "circuit":
        return need_nodes + [("add_circuit", hub, x, "to-" + x, "up", dict({"cap": 7 + j}, **({"cid": "cid-" + x} if f else {})))
                             for j, x in enumerate(ids)]
    if kind == "demand":
        return need_nodes + [("add_demand", hub, x, j, "d") for j, x in enumerate(ids)]
    return need_nodes + [("add_lsp", hub, x, "l") for j, x in enumerate(ids)]


def cases(tier):
    big = tier == "thorough"
    for s, sim in bases():
        ops = alphabet(s)
        for o in ops:
            yield {"f": "edits-%s-%s" % (s["cls"], "empty" if not s["n"] else "sim" if sim else "fresh"), "s": s, "sim": sim,
                   "first": o, "depth": 4 if (big or not s["n"]) else 3}
    # long histories: every prefix of many edits of one kind, then one of each
    for cls in "PF":
        for s, sim in ((T.chain(3, cap=10, cls=cls), True), (T.chain(3, cap=10, cls=cls), False), ({"cls": cls, "n": [], "l": []}, True)):
            for kind in BULK:
                for n in (2, 5, 14) if not big else (2, 5, 14, 30):
                    for end in BULK:
                        yield {"f": "long-history", "s": dict(s, d=[], p=[]), "sim": sim, "script": bulk(s, kind, n) + bulk(s, end, 1, 100)}
                    for again in (0, n - 1):    # the first or last edit once more is rejected
                        h = bulk(s, kind, n)
                        if kind != "list" and kind != "one list":
                            yield {"f": "long-history", "s": dict(s, d=[], p=[]), "sim": sim,
                                   "script": h + [[o for o in h if o[0] == h[-1][0]][again]] + bulk(s, kind, 1, 100)}
    for cls in "PF":
        for tr in (-1, "5", None, float("-inf")):
            yield {"f": "bad-values", "s": dict(T.chain(3, cls=cls)), "sim": True, "first": ("bad_demand", "A", "C", tr, "bad"), "depth": 1}


def start(case):
    s = case["s"]
    m = B.build(s)
    r = Ref(Net(s))
    if case["sim"]:
        m.update_simulation()
    return m, r


def step(m, r, op):
    """outcome; raises Violation"""
    before = state(m, r)
    n = r.net
    unknown = op[0] == "add_circuit" and (op[1] not in n.nodes or op[2] not in n.nodes)
    want = predict(r, op)
    if want is None or unknown:
        return None
    try:
        apply(m, op)
        got = OK
    except env.ModelException as e:
        got = e
    except ValueError as e:
        if op[0] != "bad_demand":
            raise
        got = e
    except TypeError as e:
        if op[0] != "bad_demand":
            raise
        got = e
    if want == OK:
        need(got is OK, "%s was rejected: %s", op, got)
        compare(m, r)
        if op[0] in VALIDATES:
            circuits(m, r)
    else:
        need(got is not OK, "%s was accepted; it must be rejected", op)
        if want == REJECT:
            need(state(m, r) == before, "%s was rejected but changed the model", op)
            compare(m, r)
    return want


def replay(case, trace):
    m, r = start(case)
    for op in trace:
        predict(r, op)
        apply(m, op)
    return m, r


def simulated(m, r):
    m.update_simulation()
    sim = Sim(m, r.net)
    monitors(sim)
    compare(m, r)
    circuits(m, r)
    if len(r.net.lsps) <= 3:
        placement(sim, r.net.lsp_outcomes())


def deep(x):
    """JSON lists back to tuples (dict options stay)"""
    return tuple(deep(y) for y in x) if isinstance(x, (list, tuple)) else x


def history(case, st):
    done = []

    def body():
        m, r = start(case)
        for j, op in enumerate(deep(o) for o in case["script"]):
            done.append(op)
            step(m, r, op)
            st.steps += 1
        st.execs += 1
        simulated(m, r)
        st.saw((r.key(), B.digest(m)))
    try:
        choice.explore(body, policies=["first"])
    except Violation as e:
        raise Violation("after %s: %s" % ([list(o) for o in done], e))


def check(case, st):
    if "script" in case:
        return history(case, st)
    ops = [deep(o) for o in alphabet(case["s"])]
    seen = set()
    frontier = [()]
    for d in range(case["depth"]):
        nxt = []
        for trace in frontier:
            for op in ([deep(case["first"])] if d == 0 else ops):
                def body():
                    m, r = replay(case, trace)
                    out = step(m, r, op)
                    st.execs += 1
                    st.steps += 1
                    if out == OK:
                        k = (r.key(), B.digest(m))
                        if k not in seen:
                            seen.add(k)
                            nxt.append(trace + (op,))
                            simulated(m, r)
                try:
                    choice.explore(body, policies=["first"])
                except Violation as e:
                    raise Violation("after %s: %s" % ([list(o) for o in trace + (op,)], e))
                except Exception as e:
                    raise Violation("after %s: %s: %s" % ([list(o) for o in trace + (op,)], type(e).__name__, e))
        frontier = nxt
    for k in seen:
        st.saw(k)
