"""Lock-step execution of failure/SRLG operations on the real model and on the
reference machine, and breadth-first exploration of all operation sequences."""
from . import build as B
from . import env
from .monitors import (Sim, Violation, conservation, demand_paths, interface_traffic, lsp_traffic, need,
                       path_detail, reservations)
from .ref import Net
from .refstate import FailState, Reject


def apply_real(m, op):
    k, a = op[0], op[1:]
    if k == "fail_if":
        m.fail_interface(a[1], a[0])
    elif k == "unfail_if":
        m.unfail_interface(a[1], a[0], *a[2:])
    elif k == "ifail":
        m.get_interface_object(a[1], a[0]).fail_interface(m)
    elif k == "iunfail":
        m.get_interface_object(a[1], a[0]).unfail_interface(m)
    elif k == "fail_node":
        m.fail_node(a[0])
    elif k == "unfail_node":
        m.unfail_node(a[0])
    elif k == "add_srlg":
        m.add_srlg(a[0])
    elif k == "new_srlg":
        env.SRLG(a[0], m)
    elif k == "fail_srlg":
        m.fail_srlg(a[0])
    elif k == "unfail_srlg":
        m.unfail_srlg(a[0])
    elif k == "node_join":
        m.get_node_object(a[0]).add_to_srlg(a[1], m, *([True] if a[2] else []))
    elif k == "if_join":
        m.get_interface_object(a[1], a[0]).add_to_srlg(a[2], m, *([True] if a[3] else []))
    elif k == "node_leave":
        m.get_node_object(a[0]).remove_from_srlg(a[1], m)
    elif k == "if_leave":
        m.get_interface_object(a[1], a[0]).remove_from_srlg(a[2], m)
    elif k == "one_end":        # the other end follows at the next validation
        m.get_interface_object(a[1], a[0]).failed = True
        m.validate_model()
    elif k == "sim":
        m.update_simulation()
    else:
        raise ValueError(op)


def apply_ref(r, op):
    k, a = op[0], op[1:]
    if k in ("fail_if", "ifail", "one_end"):
        r.fail_interface((a[0], a[1]))
    elif k == "unfail_if":
        r.unfail_interface((a[0], a[1]), *a[2:])
    elif k == "iunfail":
        r.unfail_interface((a[0], a[1]), True)
    elif k == "fail_node":
        r.fail_node(a[0])
    elif k == "unfail_node":
        r.unfail_node(a[0])
    elif k in ("add_srlg", "new_srlg"):
        r.add_srlg(a[0])
    elif k == "fail_srlg":
        r.fail_srlg(a[0])
    elif k == "unfail_srlg":
        r.unfail_srlg(a[0])
    elif k == "node_join":
        r.node_join(*a)
    elif k == "if_join":
        r.if_join((a[0], a[1]), a[2], a[3])
    elif k == "node_leave":
        r.node_leave(*a)
    elif k == "if_leave":
        r.if_leave((a[0], a[1]), a[2])


def step(m, r, op):
    want = None
    try:
        apply_ref(r, op)
    except Reject:
        want = True
    try:
        apply_real(m, op)
        got = None
    except (env.ModelException, KeyError) as e:
        got = e
    if want:
        need(got is not None, "%s was accepted; it must be rejected", op)
    else:
        need(got is None, "%s was rejected: %s %s", op, type(got).__name__, got)


def check_flags(m, r, op=None):
    for n in m.node_objects:
        need(n.failed is r.nodes[n.name], "node %s failed=%r, expected %r", n.name, n.failed, r.nodes[n.name])
    for i in m.interface_objects:
        k = B.ikey(i)
        need(i.failed is r.links[r.of[k]], "interface %s failed=%r, expected %r", k, i.failed, r.links[r.of[k]])
    need({s.name: s.failed for s in m.srlg_objects} == r.srlg, "SRLGs %s, expected %s",
         {s.name: s.failed for s in m.srlg_objects}, r.srlg)
    need(len(m.srlg_objects) == len(r.srlg), "SRLG names repeat: %s", sorted(s.name for s in m.srlg_objects))
    need(len(m.node_objects) == len(r.nodes) and len(m.interface_objects) == len(r.of), "elements appeared or vanished")


def check_members(m, r):
    for s in m.srlg_objects:
        need(m.get_srlg_object(s.name) is s, "get_srlg_object(%s) returns another SRLG", s.name)
        got = sorted(n.name for n in s.node_objects)
        need(got == sorted(n for t, n in r.mn if t == s.name), "SRLG %s lists nodes %s", s.name, got)
        got = sorted(B.ikey(i) for i in s.interface_objects)
        want = sorted(k for t, c in r.ml if t == s.name for k in c)
        need(got == want, "SRLG %s lists interfaces %s, expected %s", s.name, got, want)
    for n in m.node_objects:
        got = sorted(s.name for s in n.srlgs)
        need(got == sorted(t for t, x in r.mn if x == n.name), "node %s is in SRLGs %s", n.name, got)
    for i in m.interface_objects:
        k = B.ikey(i)
        got = sorted(s.name for s in i.srlgs)
        need(got == sorted(t for t, c in r.ml if c == r.of[k]), "interface %s is in SRLGs %s", k, got)


def check_queries(m, r):
    need(sorted(B.ikey(i) for i in m.get_failed_interface_objects()) == sorted(k for k in r.of if r.links[r.of[k]]),
         "get_failed_interface_objects")
    need(sorted(B.ikey(i) for i in m.get_unfailed_interface_objects())
         == sorted(k for k in r.of if not r.links[r.of[k]]), "get_unfailed_interface_objects")
    need(sorted(n.name for n in m.get_failed_node_objects()) == sorted(n for n in r.nodes if r.nodes[n]),
         "get_failed_node_objects")
    need(sorted(n.name for n in m.get_non_failed_node_objects()) == sorted(n for n in r.nodes if not r.nodes[n]),
         "get_non_failed_node_objects")
    seen = []
    for c in m.circuit_objects:
        a, b = c.get_circuit_interfaces(m)
        k = tuple(sorted((B.ikey(a), B.ikey(b))))
        need(k in r.links, "circuit %s joins interfaces that are not two ends of one circuit", k)
        need(c.failed(m) is r.links[k], "circuit %s failed() is %r", k, c.failed(m))
        seen.append(k)
    need(sorted(seen) == sorted(r.links), "circuits are %s, expected %s", sorted(seen), sorted(r.links))


def invariants(m):
    """coherence stated without the reference"""
    for i in m.interface_objects:
        if i.node_object.failed or i.remote_node_object.failed or any(s.failed for s in i.srlgs):
            need(i.failed is True, "interface %s is up although its node or SRLG is failed", B.ikey(i))
    for n in m.node_objects:
        if any(s.failed for s in n.srlgs):
            need(n.failed is True, "node %s is up although it is in a failed SRLG", n.name)


def net_of(spec, r):
    net = Net(spec)
    for n, f in r.nodes.items():
        net.node_failed[n] = f
    for k, i in net.ifs.items():
        i.failed = r.links[r.of[k]]
    net.touch()
    return net


def monitors(sim, which="all"):
    demand_paths(sim, "all")
    interface_traffic(sim)
    conservation(sim)
    path_detail(sim)
    reservations(sim)
    lsp_traffic(sim)


def start(case):
    spec = case["s"]
    m = B.build(spec, cls=case.get("cls"), order=case.get("o", "asc"))
    m.update_simulation()
    r = FailState(Net(spec))
    for op in case.get("init", ()):
        step(m, r, tuple(op))
    return m, r


def replay(case, trace):
    m, r = start(case)
    for op in trace:
        step(m, r, op)
    return m, r


def bfs(case, st, ops, depth, on_state, on_sim=None):
    """All sequences of `ops` up to `depth`, merging states that agree in the
    reference and in everything observable of the implementation.  on_state
    checks each new state; on_sim (if given) the state after an extra
    update_simulation (run on a model that is then thrown away)."""
    m, r = start(case)
    on_state(m, r)
    if on_sim:
        m.update_simulation()
        on_sim(m, r)
    m, r = start(case)
    seen = {(r.key(), B.digest(m))}
    frontier = [()]
    for _ in range(depth):
        nxt = []
        for trace in frontier:
            for op in ops:
                m, r = replay(case, trace)
                try:
                    step(m, r, op)
                    st.steps += 1
                    st.execs += 1
                    on_state(m, r)
                    k = (r.key(), B.digest(m))
                    if k not in seen:
                        seen.add(k)
                        nxt.append(trace + (op,))
                        if on_sim:
                            m.update_simulation()
                            on_sim(m, r)
                except Violation as e:
                    raise Violation("after %s: %s" % ([list(o) for o in trace + (op,)], e))
                except Exception as e:
                    raise Violation("after %s: %s: %s" % ([list(o) for o in trace + (op,)], type(e).__name__, e))
        frontier = nxt
        if not nxt:
            break
    for k in seen:
        st.saw(k)
    st.count("states", len(seen))
