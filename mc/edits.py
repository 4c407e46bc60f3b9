"""Edits of a live model in lock step with edits of the reference Net."""
from . import build as B
from .ref import Net


def links_of(net):
    seen = set()
    for k, i in net.ifs.items():
        if i.rkey not in seen:
            seen.add(k)
            yield k, i.rkey


def lsp(m, k):
    return m.get_rsvp_lsp(*k)


def held(net, k):
    """is the interface kept down by a failed group?"""
    return any(g[0] and (k in g[2] or net.ifs[k].rkey in g[2]) for g in getattr(net, "srlg", {}).values())


def restore(net, n):
    net.node_failed[n] = False
    for i in net.ifs.values():
        if n in (i.node, i.remote) and not net.node_failed[i.node] and not net.node_failed[i.remote] and not held(net, i.key):
            i.failed = False


def edit(m, net, op):
    """apply one edit to both sides"""
    k, a = op[0], op[1:]
    t = [tuple(x) if isinstance(x, list) else x for x in a]
    if k == "sim":
        m.update_simulation()
    elif k == "fail":
        m.fail_interface(t[0][1], t[0][0])
        net.fail_if(t[0])
    elif k == "unfail":
        m.unfail_interface(t[0][1], t[0][0])
        i = net.ifs[t[0]]
        if not net.node_failed[i.node] and not net.node_failed[i.remote] and not held(net, i.key):
            i.failed = net.ifs[i.rkey].failed = False
    elif k == "fnode":
        m.fail_node(t[0])
        net.fail_node(t[0])
    elif k == "unode":
        m.unfail_node(t[0])
        restore(net, t[0])
    elif k == "srlg":           # a group of nodes and of circuits, given by one end
        m.add_srlg(t[0])
        for n in t[1]:
            m.get_node_object(n).add_to_srlg(t[0], m)
        for x in t[2]:
            m.get_interface_object(x[1], x[0]).add_to_srlg(t[0], m)
        net.srlg = dict(getattr(net, "srlg", {}), **{t[0]: [False, list(t[1]), [tuple(x) for x in t[2]]]})
    elif k == "fsrlg":
        m.fail_srlg(t[0])
        g = net.srlg[t[0]]
        g[0] = True
        for n in g[1]:
            net.fail_node(n)
        for x in g[2]:
            net.fail_if(x)
    elif k == "usrlg":
        m.unfail_srlg(t[0])
        g = net.srlg[t[0]]
        g[0] = False
        for n in g[1]:
            restore(net, n)
        for x in g[2]:
            i = net.ifs[x]
            if not net.node_failed[i.node] and not net.node_failed[i.remote] and not held(net, x):
                i.failed = net.ifs[i.rkey].failed = False
    elif k == "cost":
        m.get_interface_object(t[0][1], t[0][0]).cost = t[1]
        net.ifs[t[0]].cost = t[1]
    elif k == "cap":
        for key in (t[0], net.ifs[t[0]].rkey):
            m.get_interface_object(key[1], key[0]).capacity = t[1]
            net.ifs[key].cap = t[1]
    elif k == "rsvp":
        m.get_interface_object(t[0][1], t[0][0]).rsvp_enabled = t[1]
        net.ifs[t[0]].rsvp = t[1]
    elif k == "pct":
        m.get_interface_object(t[0][1], t[0][0]).percent_reservable_bandwidth = t[1]
        net.ifs[t[0]].pct = t[1]
    elif k == "dtraffic":
        m.get_demand_object(*t[0]).traffic = t[1]
        net.demands[t[0]] = t[1]
    elif k == "add_d":
        m.add_demand(*t)
        net.demands[(t[0], t[1], t[3])] = t[2]
    elif k == "del_d":
        m.demand_objects.discard(m.get_demand_object(*t[0]))
        del net.demands[t[0]]
    elif k == "add_p":
        m.add_rsvp_lsp(*t)
        net.lsps[(t[0], t[1], t[2])] = (None, None)
    elif k == "del_p":
        m.rsvp_lsp_objects.discard(lsp(m, t[0]))
        del net.lsps[t[0]]
    elif k == "metric":
        lsp(m, t[0]).manual_metric = t[1]
        net.lsps[t[0]] = (net.lsps[t[0]][0], None if t[1] == -1 else t[1])
    elif k == "bw":
        lsp(m, t[0]).configured_setup_bandwidth = t[1]
        net.lsps[t[0]] = (t[1], net.lsps[t[0]][1])
    elif k == "sc":
        m.get_node_object(t[0]).igp_shortcuts_enabled = t[1]
        (net.sc.add if t[1] else net.sc.discard)(t[0])
    elif k == "circuit":
        a0, b0, na, nb, ca, cb, cap = t
        m.add_circuit(m.get_node_object(a0), m.get_node_object(b0), na, nb, ca, cb, cap,
                      circuit_id=None if net.cls == "P" else "%s/%s" % (na, nb))
        net.add_link(a0, b0, ca, cb, cap, na, nb, None)
        for key in ((a0, na), (b0, nb)):
            if net.node_failed[a0] or net.node_failed[b0]:
                net.ifs[key].failed = True
    elif k == "rename":
        m.change_interface_name(t[0][0], t[0][1], t[1])
        i = net.ifs.pop(t[0])
        i.name, i.key = t[1], (t[0][0], t[1])
        net.ifs[i.key] = i
        net.ifs[i.rkey].rkey = i.key
    else:
        raise ValueError(op)
    net.touch()


def applicable(net, op):
    k, a = op[0], op[1:]
    t = tuple(a[0]) if isinstance(a[0] if a else None, (list, tuple)) else None
    if k in ("dtraffic", "del_d"):
        return t in net.demands
    if k in ("del_p", "metric", "bw"):
        return t in net.lsps
    if k == "unfail":
        i = net.ifs.get(t)
        return i is not None and (not held(net, t) or net.node_failed[i.node] or net.node_failed[i.remote])
    if k in ("fail", "cost", "cap", "rsvp", "pct", "rename"):
        return t in net.ifs
    if k == "unode":            # refused while a failed group holds the node
        return not any(g[0] and a[0] in g[1] for g in getattr(net, "srlg", {}).values())
    if k == "fsrlg":
        return not net.srlg[a[0]][0]
    if k == "usrlg":
        return net.srlg[a[0]][0]
    if k == "add_d":
        return (a[0], a[1], a[3]) not in net.demands
    if k == "add_p":
        return (a[0], a[1], a[2]) not in net.lsps
    if k == "circuit":
        return (a[0], a[2]) not in net.ifs and (a[1], a[3]) not in net.ifs
    return True


def start(spec, cls=None, order="asc"):
    return B.build(spec, cls=cls, order=order), Net(spec)
