"""C18: attribute guards hold; manual metrics have their documented life cycle."""
from itertools import product

from .. import build as B
from .. import choice, edits, env, snap
from .. import topo as T
from ..monitors import Sim, Violation, demand_paths, lsp_traffic, need
from ..ref import Net

PROP = "C18"

REFUSED = (env.ModelException, ValueError, TypeError)
STR = ["", "1", "x", "True", "-1"]
JUNK = [None, [], {}, (1,), b"1"]
POSINT = [1, 2, 7, 65535, 10 ** 9]

# attribute -> (values inside the domain, values outside)
ATTRS = {
    "cost": (POSINT, [0, -1, -100, 0.5, 1.5, 2.0, -2.5, 1e3] + STR + JUNK),
    "capacity": ([1, 100, 0.5, 1e-3, 2.5, 1e9, 10 ** 6], [0, -1, 0.0, -0.5, -1e9] + STR + JUNK),
    "ifailed": ([True, False], [0, 1, -1, 0.0, 1.0, 2] + STR + JUNK),
    "nfailed": ([True, False], [0, 1, -1, 0.0, 1.0, 2] + STR + JUNK),
    "sfailed": ([True, False], [0, 1, -1, 0.0, 1.0, 2] + STR + JUNK),
    "lat": ([0, 5, -3, 1.5, -90.25, 180.0, 1000], STR + JUNK + [1j]),
    "lon": ([0, 5, -3, 1.5, -90.25, 180.0, 1000], STR + JUNK + [1j]),
    "sc": ([True, False, "True", "False"], [2, -1, 0.5, "true", "yes", "", "x", "1"] + JUNK),
    "traffic": ([0, 1, 12, 0.5, 0.0, 1e9, 1e-3], [-1, -0.5, -1e9] + STR + JUNK),
    "metric": (POSINT, [0, -2, -100, 0.5, 1.5, -0.5, 2.0] + STR + JUNK),
    "initial": (POSINT, [-1, -2, 0.5, 1.5, -0.5, 2.0, "x", "1"]),
    "setup": ([0, 1, 0.5, 12, 1e6], [-1, -0.5, -1e6, "x", None]),
    "reserved": ([0, 1, 0.5, 12.0], ["x", "", "1", None, []]),
    "circuit cost a": (POSINT, [0, -1, 1.5, 2.0, "1", None]),
    "circuit cost b": (POSINT, [0, -1, 1.5, 2.0, "1", None]),
    "circuit capacity": ([1, 0.5, 1e6], [0, -1, -0.5, "1", None]),
    "list cost": (POSINT, [0, -1, 1.5, "1", None]),
    "list capacity": ([1, 0.5, 1e6], [0, -1, -0.5, "1", None]),
    "add_demand": ([0, 1, 0.5], [-1, -0.5, "1", None]),
}
SHORTHAND = {"initial": "constructing", "traffic": "constructing"}


def spec(cls):
    s = {"cls": cls, "n": ["A", "B", "C"], "l": [["A", "B", 1, 2, 10], ["B", "C", 1, 1, 10], ["A", "C", 3, 3, 10]]}
    s["d"] = [["A", "C", 4, "d1"], ["C", "A", 1, "d2"]]
    s["p"] = [["A", "C", "l1", None, None], ["A", "C", "l2", 3, 7]]
    return s


STATES = ("fresh", "simulated", "interface down", "node down", "srlg down")
A = ("A", "C", "l1")
K = ("A", "A-B")
METRIC_OPS = [("metric", A, 2), ("metric", A, 9), ("metric", A, -1), ("bad", A, 0), ("bad", A, "3"), ("bad", A, 2.5), ("bad", A, -2),
              ("metric", ("A", "C", "l2"), -1), ("metric", ("A", "C", "l2"), 1), ("sim",), ("read", A), ("fail", K), ("unfail", K),
              ("cost", K, 5), ("bw", A, 20), ("bw", A, None), ("del_d", ("A", "C", "d1")), ("fnode", "B"), ("unode", "B")]


def cases(tier):
    big = tier == "thorough"
    for cls in "PF":
        for a in ATTRS:
            for stt in STATES:
                yield {"f": "guards", "cls": cls, "attr": a, "state": stt}
        for first, second in product(range(len(METRIC_OPS)), repeat=2):
            for init in (None, 4) if big else (4,) if cls == "F" else (None,):
                yield {"f": "metric-life", "cls": cls, "init": init, "start": [METRIC_OPS[first], METRIC_OPS[second]], "depth": 3 if big else 2}


# ------------------------------------------------------------ guards
def prepare(cls, state):
    m = B.build(spec(cls))
    if state != "fresh":
        m.update_simulation()
    if state == "interface down":
        m.fail_interface("A-B", "A")
    elif state == "node down":
        m.fail_node("A")
    elif state == "srlg down":
        m.add_srlg("s")
        m.get_interface_object("A-B", "A").add_to_srlg("s", m)
        m.fail_srlg("s")
    return m


def access(m, a):
    """(read, assign) of one attribute of the model's objects"""
    o, name = {
        "cost": lambda: (m.get_interface_object("A-B", "A"), "cost"),
        "capacity": lambda: (m.get_interface_object("A-C", "A"), "capacity"),
        "ifailed": lambda: (m.get_interface_object("B-C", "B"), "failed"),
        "nfailed": lambda: (m.get_node_object("C"), "failed"),
        "sfailed": lambda: (srlg(m), "failed"),
        "lat": lambda: (m.get_node_object("B"), "lat"),
        "lon": lambda: (m.get_node_object("B"), "lon"),
        "sc": lambda: (m.get_node_object("B"), "igp_shortcuts_enabled"),
        "metric": lambda: (m.get_rsvp_lsp("A", "C", "l1"), "manual_metric"),
        "setup": lambda: (m.get_rsvp_lsp("A", "C", "l1"), "setup_bandwidth"),
        "reserved": lambda: (m.get_interface_object("A-C", "A"), "reserved_bandwidth"),
    }[a]()
    return (lambda: getattr(o, name)), (lambda v: setattr(o, name, v))


def srlg(m):
    if not any(s.name == "g" for s in m.srlg_objects):
        m.add_srlg("g")
    return m.get_srlg_object("g")


def refused(what, v, f):
    try:
        f()
    except REFUSED:
        return
    raise Violation("%s %r was accepted" % (what, v))


def norm(a, v):
    return {"True": True, "False": False}.get(v, v) if a == "sc" else float(v) if a == "setup" else v


def guards(case, st):
    cls, a, state = case["cls"], case["attr"], case["state"]
    good, bad = ATTRS[a]
    st.execs += len(good) + len(bad)
    if a in ("cost", "capacity", "ifailed", "nfailed", "sfailed", "lat", "lon", "sc", "metric", "setup", "reserved"):
        m = prepare(cls, state)
        read, assign = access(m, a)
        old = read()
        for v in good:
            assign(v)
            old = norm(a, v)
            need(read() == old and type(read()) is type(old), "%s of an object (%s): %r was assigned, %r is read back", a, state, v, read())
            whole = snap.attributes(m)
            for w in bad:       # after every good value, every bad one
                refused("assigning %s" % a, w, lambda: assign(w))
                need(read() is old or read() == old and type(read()) is type(old),
                     "%s of an object (%s): assigning %r was refused but changed the value from %r to %r", a, state, w, old, read())
                need(snap.attributes(m) == whole, "refusing %s = %r changed the model: %s", a, w, snap.diff(snap.attributes(m), whole))
                st.steps += 1
            st.saw((cls, a, state, repr(v)))
        constructors(a, good, bad)
        return
    if state != "fresh" and not a.startswith(("circuit", "list", "add_")):
        return
    for v in good + bad:
        m = prepare(cls, state)
        before = snap.attributes(m)
        call, after = deed(m, cls, a, v)
        st.steps += 1
        if v in bad and not any(v is g for g in good):
            refused(a, v, call)
            if not a.startswith("list"):
                need(snap.attributes(m) == before, "%s = %r was refused but changed the model: %s", a, v, snap.diff(snap.attributes(m), before))
        else:
            call()
            need(after() == v, "%s = %r, read back as %r", a, v, after())
        st.saw((cls, a, state, repr(v)))


def constructors(a, good, bad):
    x, y = env.Node("X"), env.Node("Y")
    make = {
        "cost": (lambda v: env.Interface("i", v, 10, x, y, "1"), "cost"),
        "capacity": (lambda v: env.Interface("i", 1, v, x, y, "1"), "capacity"),
        "lat": (lambda v: env.Node("N", v, 0), "lat"),
        "lon": (lambda v: env.Node("N", 0, v), "lon"),
    }.get(a)
    if make is None:
        return
    for v in good:
        need(getattr(make[0](v), make[1]) == v, "constructed with %s %r, read back as %r", a, v, getattr(make[0](v), make[1]))
    for v in bad:
        refused("constructing with %s" % a, v, lambda: make[0](v))


def deed(m, cls, a, v):
    ckt = {"circuit_id": "new"} if cls == "F" else {}
    X, Y = env.Node("X"), env.Node("Y")
    if a == "traffic":
        box = []
        return (lambda: box.append(env.Demand(X, Y, v, "d"))), (lambda: box[0].traffic)
    if a == "initial":
        box = []

        def call():
            p = env.RSVP_LSP(m.get_node_object("A"), m.get_node_object("C"), "new", None, v)
            p.manual_metric      # an invalid configured metric shows when it is first used
            box.append(p)
        return call, (lambda: box[0].manual_metric)
    if a == "add_demand":
        return (lambda: m.add_demand("A", "C", v, "new")), (lambda: m.get_demand_object("A", "C", "new").traffic)
    if a.startswith("circuit"):
        kw = dict(ckt, **{{"circuit cost a": "cost_intf_a", "circuit cost b": "cost_intf_b", "circuit capacity": "capacity"}[a]: v})
        m.add_node(env.Node("D"))

        def add():
            m.add_circuit(m.get_node_object("A"), m.get_node_object("D"), "A-D", "D-A", **kw)

        def undo_and_add():
            try:
                add()
            except REFUSED:
                # the node added above is not part of what must be unchanged
                m.node_objects = {n for n in m.node_objects if n.name != "D"}
                raise
        end = ("D-A", "D") if a == "circuit cost b" else ("A-D", "A")
        return undo_and_add, (lambda: getattr(m.get_interface_object(*end), "capacity" if a == "circuit capacity" else "cost"))
    if a.startswith("list"):
        rows = [{"name": "A-D", "cost": 1, "capacity": 5, "node": "A", "remote_node": "D", "circuit_id": "new", "failed": False},
                {"name": "D-A", "cost": 1, "capacity": 5, "node": "D", "remote_node": "A", "circuit_id": "new", "failed": False}]
        k = a.split()[1]
        rows[1][k] = v
        if k == "capacity":
            rows[0][k] = v
        return (lambda: m.add_network_interfaces_from_list(rows)), (lambda: getattr(m.get_interface_object("D-A", "D"), k))
    raise ValueError(a)


# ------------------------------------------------------------ manual metrics
def life(case, st):
    s = spec(case["cls"])
    s["p"][0][4] = case["init"]
    seen = set()
    frontier = [tuple(tuple(tuple(x) if isinstance(x, list) else x for x in o) for o in case["start"])]
    for d in range(case["depth"] + 1):
        nxt = []
        for trace in frontier:
            def body():
                m, net = edits.start(s)
                for op in trace:
                    metric_op(m, net, op)
                    st.steps += 1
                st.execs += 1
                h = (tuple(sorted((k, str(v)) for k, v in net.lsps.items())), B.digest(m), net.ifs[K].cost, tuple(sorted(net.demands)))
                fresh = h not in seen
                seen.add(h)
                st.saw(h)
                m.update_simulation()
                sim = Sim(m, net)
                demand_paths(sim, "all")
                lsp_traffic(sim)
                return fresh
            try:
                fresh = any([r for _, r in choice.explore(body)])
            except Violation as e:
                raise Violation("after %s: %s" % ([list(o) for o in trace], e))
            except Exception as e:
                raise Violation("after %s: %s: %s" % ([list(o) for o in trace], type(e).__name__, e))
            if fresh and d < case["depth"]:
                nxt += [trace + (op,) for op in METRIC_OPS]
        frontier = nxt


def metric_op(m, net, op):
    if op[0] == "bad":
        refused("manual_metric", op[2], lambda: setattr(m.get_rsvp_lsp(*op[1]), "manual_metric", op[2]))
    elif op[0] == "read":
        m.get_rsvp_lsp(*op[1]).manual_metric
    elif edits.applicable(net, op):
        edits.edit(m, net, op)
    for k, (bw, mt) in net.lsps.items():
        p = m.get_rsvp_lsp(*k)
        need(p.manual_metric == ("not set" if mt is None else mt), "LSP %s manual_metric is %r, expected %r", k, p.manual_metric, mt)
        if mt is not None:
            need(p.effective_metric(m) == mt, "LSP %s effective_metric is %r, its manual metric is %r", k, p.effective_metric(m), mt)


def check(case, st):
    if case["f"] == "guards":
        choice.explore(lambda: guards(case, st))
    else:
        life(case, st)
