"""C11: malformed networks are rejected, well-formed ones are accepted and converge."""
from itertools import combinations

from .. import build as B
from .. import choice
from .. import env
from .. import topo as T
from ..families import lsp_cases, odd_specs
from ..failops import monitors
from ..monitors import Sim, Violation, need
from ..ref import Net, link_names

PROP = "C11"


# A raw network: lists that a malformation edits before construction
def raw(spec):
    ifs = []
    for l, (na, nb, cid) in zip(spec["l"], link_names(spec)):
        ifs.append([na, l[2], l[4], l[0], l[1], cid])
        ifs.append([nb, l[3], l[4], l[1], l[0], cid])
    return {"n": [[n] for n in spec["n"]], "i": ifs}


def malform(spec, kind, at):
    """the raw network with one defect"""
    r = raw(spec)
    ifs, ns = r["i"], r["n"]
    x = list(ifs[at % len(ifs)])
    mate = at ^ 1
    if kind == "no-return":          # an interface without its counterpart
        del ifs[mate]
    elif kind == "no-return-new":    # an extra one-way interface between unconnected or connected nodes
        used = {(i[3], i[4]) for i in ifs}
        free = [(a[0], b[0]) for a in ns for b in ns if a != b and (a[0], b[0]) not in used]
        if not free:
            return None
        a, b = free[at % len(free)]
        ifs.append(["one-way", 1, 100, a, b, "one-way"])
    elif kind == "capacity":         # two ends with different capacity
        x[2] = x[2] + 1
        ifs[at] = x
    elif kind == "capacity-small":
        x[2] = x[2] * 0.999
        ifs[at] = x
    elif kind == "capacity-frac":    # differs in the decimals only
        x[2] = x[2] + 0.25
        ifs[at] = x
    elif kind == "capacity-large":   # differs in the last of many digits only
        x[2] = 4000000001
        ifs[at] = x
        ifs[mate][2] = 4000000000
    elif kind == "dup-interface":    # same name twice on one node, other circuit
        y = [i for i in ifs if i[3] == x[3] and i is not ifs[at] and i[0] != x[0]]
        if not y:
            return None
        y[0][0] = x[0]
    elif kind == "dup-node":         # two different nodes of one name
        ns.append([x[3], 7])
    elif kind == "dup-orphan":
        ns += [["orphan", 1], ["orphan", 2]]
    elif kind == "parallel":         # second circuit between two nodes (Performance only)
        ifs += [["p1", 1, 10, x[3], x[4], "par"], ["p2", 1, 10, x[4], x[3], "par"]]
    elif kind == "parallel-one-way":
        ifs += [["p1", 1, 10, x[3], x[4], "par"]]
    elif kind == "shortcuts":        # igp_shortcuts_enabled (Performance only)
        ns[at % len(ns)] = [ns[at % len(ns)][0], 0, True]
    elif kind == "cid-once":         # the two ends name different circuits (Flex)
        x[5] = "lonely"
        ifs[at] = x
    elif kind == "cid-shared":       # two circuits share one circuit_id (Flex)
        y = [i for i in ifs if i[5] != x[5]]
        if not y:
            return None
        other = y[at % len(y)][5]
        for i in ifs:
            if i[5] == other:
                i[5] = x[5]
    elif kind == "cid-crossed":      # ends of two parallel circuits swapped to one id (Flex)
        y = [i for i in ifs if i[5] != x[5]]
        if not y:
            return None
        y[at % len(y)][5] = x[5]
    else:
        raise ValueError(kind)
    return r


BOTH = ["no-return", "no-return-new", "capacity", "capacity-small", "capacity-frac", "capacity-large",
        "dup-interface", "dup-node", "dup-orphan"]
KINDS = {"P": BOTH + ["parallel", "parallel-one-way", "shortcuts"], "F": BOTH + ["cid-once", "cid-shared", "cid-crossed"]}


def bases(cls):
    yield {"cls": cls, "n": ["A", "B"], "l": [["A", "B", 1, 1, 10]]}
    yield T.ring(3, cap=10, cls=cls)
    yield T.chain(4, cap=10, cls=cls)
    yield T.fan(2, cap=10, cls=cls)
    yield T.grid(3, 2, cap=10, cls=cls)
    if cls == "F":
        yield {"cls": "F", "n": ["A", "B", "C"],
               "l": [["A", "B", 1, 1, 10], ["A", "B", 2, 2, 10], ["A", "B", 1, 1, 20], ["B", "C", 1, 1, 10]]}


def cases(tier):
    big = tier == "thorough"
    for cls in "PF":
        for s in bases(cls):
            n = s["n"]
            s = dict(s, d=[[n[0], n[-1], 4, "d1"]], p=[[n[0], n[-1], "l1", None, None]])
            for kind in KINDS[cls]:
                for at in range(2 * len(s["l"])):
                    for hist in ("validate", "simulate", "grow", "failed", "all down", "this end", "other end"):
                        yield {"f": kind, "s": s, "kind": kind, "at": at, "hist": hist}
    # pairs of defects never cancel out
    for cls in "PF":
        s = T.fan(2, cap=10, cls=cls)
        for k1, k2 in combinations(KINDS[cls], 2):
            for at in range(0, 8, 1 if big else 3):
                yield {"f": "two-defects", "s": s, "kind": k1, "kind2": k2, "at": at, "hist": "simulate"}
    # a simulated network whose reservations no longer fit or add up
    for cls in "PF":
        for s in bases(cls):
            n = s["n"]
            s = dict(s, d=[[n[0], n[-1], 4, "d1"], [n[-1], n[0], 2, "d2"]],
                     p=[[n[0], n[-1], "l1", None, None], [n[-1], n[0], "l2", 1.5, None]])
            for kind in ("overbooked", "misbooked"):
                for at in range(len(s["l"]) if kind == "overbooked" else 2 * len(s["l"])):
                    for value in (0.25, 0.5, 1, 1.75, 3.75, 3.99, 4, 9) if kind == "overbooked" else (0.5, 1, 2, 3, 4, 5, 9):
                        for x in ([], [["link", 0]]):
                            yield {"f": kind, "s": s, "kind": kind, "at": at, "value": value, "x": x}
    # well-formed networks are accepted and converge
    for s in well_formed(big):
        yield {"f": "well-formed", "s": s}
    for c in lsp_cases("quick"):
        if c["f"] in ("tri-lsp-fail", "groups", "parallel-lsp"):
            yield {"f": "well-formed", "s": c["s"], "x": c["x"]}
    # ... and stay valid through every single edit and failure
    from . import c10
    for c in c10.cases("quick"):
        if ("-1-" in c["f"] or "-2-" in c["f"]) and c["eager"]:
            yield dict(c, f="well-formed-edit")


def well_formed(big):
    yield from odd_specs()
    for cls in "PF":
        yield {"cls": cls, "n": [], "l": []}
        yield {"cls": cls, "n": ["A"], "l": []}
        yield {"cls": cls, "n": ["A", "B", "C"], "l": []}
        yield {"cls": cls, "n": ["A", "B"], "l": [], "d": [["A", "B", 1, "d"]], "p": [["A", "B", "l", None, None]]}
        for s in T.labelled(4, (1,) if not big else (1, 2), cls=cls):
            yield dict(s, d=T.all_demands(s, 12), p=[["A", "C", "l", None, None], ["B", "D", "m", 5, 2]])
        # tight and fractional bandwidth: shares that do not divide evenly
        for k in range(1, 8):
            for cap in (1, 7, 10, 10.5, 100):
                for tr in (1, 10, 100, 0.3, 7.77):
                    yield {"cls": cls, "n": ["A", "B"], "l": [["A", "B", 1, 1, cap]], "d": [["A", "B", tr, "d"]],
                           "p": [["A", "B", "l%d" % i, None, None] for i in range(k)]}
        # names that are equal across nodes, circuits, demands and LSPs
        s = T.ring(4, cap=10, cls=cls)
        s = dict(s, l=[l + [{"na": "x", "nb": "y"}] for l in s["l"]])
        yield dict(s, d=[[a, b, 1, "same"] for a in s["n"] for b in s["n"] if a != b],
                   p=[[a, b, "same", 1, None] for a in "AB" for b in "CD"])
    # circuit ids: ints, strings, zero, mixed
    for ids in ([0, 1, 2], ["0", "1", "2"], ["1", 1, "x"], ["", " ", "1.0"], ["10.0.0.0/30", "10.0.0.4/30", "l"]):
        yield {"cls": "F", "n": ["A", "B", "C"], "d": [["A", "C", 1, "d"]],
               "l": [["A", "B", 1, 1, 10, {"cid": ids[0]}], ["A", "B", 1, 1, 20, {"cid": ids[1]}],
                     ["B", "C", 1, 1, 10, {"cid": ids[2]}]]}


def construct(cls, r, spec):
    nodes, objs = {}, []
    for n in r["n"]:
        o = env.Node(n[0], *([n[1]] if len(n) > 1 else []))
        if len(n) > 2:
            o.igp_shortcuts_enabled = True
        nodes.setdefault(n[0], o)
        objs.append(o)
    ifs = [env.Interface(i[0], i[1], i[2], nodes[i[3]], nodes[i[4]], i[5]) for i in r["i"]]
    dm = [env.Demand(nodes[d[0]], nodes[d[1]], d[2], d[3]) for d in spec.get("d", ())]
    lp = [env.RSVP_LSP(nodes[p[0]], nodes[p[1]], p[2], p[3], p[4]) for p in spec.get("p", ())]
    return ifs, objs, dm, lp


def reject(m, what, call, any_error=False):
    try:
        call()
    except env.ModelException:
        return
    except Exception as e:
        if any_error:
            return
        raise Violation("%s: expected a ModelException, got %s: %s" % (what, type(e).__name__, e))
    raise Violation("%s was accepted" % what)


def check_bad(case, st):
    s = case["s"]
    r = malform(s, case["kind"], case["at"])
    if r is None:
        return
    if "kind2" in case:
        # apply the second defect on top of the raw network of the first
        r2 = malform(s, case["kind2"], (case["at"] + 3) % 8)
        if r2 is None:
            return
        r = merge(raw(s), r, r2)
        if r is None:
            return
    env.reset_order()
    ifs, nodes, dm, lp = construct(s["cls"], r, s)
    cls = B.CLS[s["cls"]]
    what = "network with defect %s at %s" % (case["kind"], case["at"])
    h = case["hist"]
    if h == "grow":
        # a valid model is simulated first, then its sets are replaced by the malformed ones
        m = B.build(s)
        m.update_simulation()
        m.interface_objects, m.node_objects = set(ifs), set(nodes)
        m.demand_objects, m.rsvp_lsp_objects = set(dm), set(lp)
        st.steps += 2
    else:
        m = cls(set(ifs), set(nodes), set(dm), set(lp))
    if h == "failed":
        # the defect must not hide behind a failed element
        for i in m.interface_objects:
            if i.name == ifs[case["at"] % len(ifs)].name or i.circuit_id == ifs[case["at"] % len(ifs)].circuit_id:
                i.failed = True
    if h == "all down":
        for x in list(m.interface_objects) + list(m.node_objects):
            x.failed = True
    if h.endswith(" end"):
        # ... nor behind a circuit of which only one end is marked failed
        for i in m.interface_objects:
            if (i.name == ifs[case["at"] % len(ifs)].name) == (h == "this end") and i.circuit_id == ifs[case["at"] % len(ifs)].circuit_id:
                i.failed = True
    st.execs += 1
    st.steps += 1
    # update_simulation routes first and validates last: on a malformed network any error
    # may surface there; validate_model must say so with a ModelException
    if h != "validate" and not h.endswith(" end"):
        reject(m, what, m.update_simulation, any_error=True)
    reject(m, what, m.validate_model)
    reject(m, what + " (second attempt)", m.validate_model)
    # with the network put right the same model is accepted and simulates as if nothing had been

    def body():
        g = B.build(s)
        m.interface_objects, m.node_objects = g.interface_objects, g.node_objects
        m.demand_objects, m.rsvp_lsp_objects = g.demand_objects, g.rsvp_lsp_objects
        m.validate_model()
        m.update_simulation()
        st.steps += 2
        monitors(Sim(m, Net(s)))
    choice.explore(body, policies=["first"])
    st.saw((case["kind"], len(ifs), len(nodes)))


def merge(base, r1, r2):
    """both defects in one raw network (lists are small): take changed rows"""
    out = {"n": r1["n"] + [n for n in r2["n"] if n not in base["n"]], "i": []}
    for k, i in enumerate(base["i"]):
        a = i in r1["i"]
        b = i in r2["i"]
        if a and b:
            out["i"].append(i)
    for r in (r1, r2):
        out["i"] += [i for i in r["i"] if i not in base["i"]]
    # two rewritten copies of one interface would be a different defect; skip those
    keys = [(i[0], i[3]) for i in out["i"]]
    return out if len(set(keys)) == len(keys) else None


def check_good(case, st):
    from ..simcase import fail_ops
    s = case["s"]
    for o in ("asc", "desc"):
        m = B.build(s, order=o)
        m.validate_model()
        m.update_simulation()
        m.validate_model()
        net = Net(s)
        fail_ops(m, net, s, case.get("x", ()), st)
        m.validate_model()
        m.update_simulation()
        st.execs += 1
        st.steps += 5
        st.saw(B.digest(m))
        sim = Sim(m, net)
        monitors(sim)
        need(m.validate_model() is m, "validate_model() does not return the model")


def check_booked(case, st):
    """capacity or reservation of an interface changed after the simulation: accepted
    exactly when what its LSPs reserve is what it says and fits its capacity; the
    next simulation is always fine"""
    from ..simcase import fail_ops
    s = case["s"]

    def body():
        m = B.build(s)
        net = Net(s)
        m.update_simulation()
        fail_ops(m, net, s, case["x"], st)
        m.update_simulation()
        ifs = [m.get_interface_object(nm, l[k]) for l, names in zip(s["l"], link_names(s)) for k, nm in enumerate(names[:2])]
        res = {B.ikey(i): sum(p.reserved_bandwidth for p in m.rsvp_lsp_objects if "interfaces" in p.path and i in p.path["interfaces"])
               for i in ifs}
        v = case["value"]
        if case["kind"] == "overbooked":
            for i in ifs[2 * case["at"]:2 * case["at"] + 2]:
                i.capacity = v
            good = all(res[B.ikey(i)] <= v for i in ifs[2 * case["at"]:2 * case["at"] + 2])
        else:
            i = ifs[case["at"]]
            i.reserved_bandwidth = v
            good = v == res[B.ikey(i)] and v <= i.capacity
        st.execs += 1
        st.steps += 1
        st.saw((case["kind"], good, B.digest(m)))
        if good:
            need(m.validate_model() is m, "validate_model() does not return the model")
        else:
            reject(m, "interface %s with LSPs reserving %s" % ((case["kind"], case["at"], v), res), m.validate_model)
        m.update_simulation()
        m.validate_model()
    choice.explore(body, policies=["first", "last"])


def check(case, st):
    if case["f"] in ("overbooked", "misbooked"):
        check_booked(case, st)
    elif case["f"] == "well-formed-edit":
        from .c10 import check as c10check
        c10check(case, st)
    elif case["f"] == "well-formed":
        check_good(case, st)
    else:
        check_bad(case, st)
