"""Complete observable state of one model as plain data (for comparing models)."""
from . import build as B
from . import env


def path_detail(d):
    pd = d.path_detail
    if not isinstance(pd, dict):
        return str(pd)
    out = []
    for e in pd.values():
        items = e.get("items", e.get("interfaces"))
        sp = e.get("splits")
        out.append((tuple(B.item(x) for x in items), round(float(e["path_traffic"]), 4),
                    None if sp is None else tuple(sorted((B.item(x), v) for x, v in sp.items()))))
    return sorted(out)


def num(x):
    return x if isinstance(x, (str, bool)) or x is None else round(float(x), 6)


def call(f):
    try:
        return f()
    except env.ModelException as e:
        return "ModelException"
    except KeyError:
        return "KeyError"


def paths(r):
    """result of a path query"""
    if isinstance(r, str):
        return r
    return (num(r["cost"]) if "cost" in r else None, sorted(tuple(B.ikey(i) for i in p) for p in r["path"]))


def attributes(m):
    """what the user set: independent of simulation"""
    return {
        "nodes": sorted((n.name, n.lat, n.lon, n.failed, n.igp_shortcuts_enabled, sorted(s.name for s in n.srlgs)) for n in m.node_objects),
        "ifs": sorted((B.ikey(i), i.remote_node_object.name, i.cost, num(i.capacity), i.failed, i.rsvp_enabled,
                       num(i.percent_reservable_bandwidth), sorted(s.name for s in i.srlgs)) for i in m.interface_objects),
        "demands": sorted((B.dkey(d), num(d.traffic)) for d in m.demand_objects),
        "lsps": sorted((B.lkey(p), str(num(p.configured_setup_bandwidth)), str(p.manual_metric)) for p in m.rsvp_lsp_objects),
        "srlgs": sorted((s.name, s.failed, sorted(n.name for n in s.node_objects), sorted(B.ikey(i) for i in s.interface_objects))
                        for s in m.srlg_objects),
    }


def results(m):
    """what a simulation produced"""
    return {
        "load": sorted((B.ikey(i), num(i.traffic), num(i.utilization), num(i.reserved_bandwidth), num(i.reservable_bandwidth))
                       for i in m.interface_objects),
        "paths": sorted((B.dkey(d), None if B.is_unrouted(d.path) else sorted(tuple(B.item(x) for x in p) for p in d.path),
                         path_detail(d)) for d in m.demand_objects),
        "lsps": sorted((B.lkey(p), str(B.lsp_path(p)), num(p.reserved_bandwidth), str(num(p.setup_bandwidth)),
                        None if B.is_unrouted(p.path) else num(p.path["path_cost"])) for p in m.rsvp_lsp_objects),
    }


def circuits(m):
    return sorted(tuple(sorted(B.ikey(i) for i in (c.interface_a, c.interface_b))) for c in m.circuit_objects)


def queries(m):
    """answers of the query methods after a simulation"""
    ns = sorted(n.name for n in m.node_objects)
    d = m.simulation_diagnostics()
    out = {
        "riding": [(B.lkey(p), num(p.traffic_on_lsp(m)), sorted(B.dkey(x) for x in p.demands_on_lsp(m)), str(call(lambda: p.effective_metric(m))),
                    str(p.topology_metric(m))) for p in sorted(m.rsvp_lsp_objects, key=B.lkey)],
        "crossing": [(B.ikey(i), sorted(B.dkey(x) for x in i.demands(m)), sorted(B.lkey(x) for x in i.lsps(m)), B.ikey(i.get_remote_interface(m)))
                     for i in sorted(m.interface_objects, key=B.ikey)],
        "groups": (sorted((k, sorted(B.lkey(p) for p in v)) for k, v in m.parallel_lsp_groups().items()),
                   sorted((k, sorted(B.dkey(p) for p in v)) for k, v in m.parallel_demand_groups().items())),
        "nodes": [(n, sorted(B.ikey(i) for i in m.get_node_interfaces(n)), sorted(x.name for x in m.get_node_object(n).adjacent_nodes(m)),
                   sorted(B.dkey(x) for x in m.get_demand_objects_source_node(n)), sorted(B.dkey(x) for x in m.get_demand_objects_dest_node(n)))
                  for n in ns],
        "failed": (sorted(B.ikey(i) for i in m.get_failed_interface_objects()), sorted(B.ikey(i) for i in m.get_unfailed_interface_objects()),
                   sorted(n.name for n in m.get_failed_node_objects()), sorted(n.name for n in m.get_non_failed_node_objects()),
                   sorted(n.name for n in m.get_orphan_node_objects()), sorted(B.dkey(x) for x in m.get_unrouted_demand_objects())),
        "diag": sorted((k, v) for k, v in d.items() if isinstance(v, int)),
        "circuits": circuits(m),
    }
    sp = []
    for a in ns:
        for b in ns:
            if a != b:
                for bw in (0, 3):
                    sp.append((a, b, bw, call(lambda: paths(m.get_shortest_path(a, b, bw)))))
    out["shortest"] = sp
    return out


def full(m, simulated):
    s = {"attrs": attributes(m), "results": results(m), "circuits": circuits(m)}
    if simulated:
        s["queries"] = queries(m)
    return s


def diff(a, b, at=""):
    """first difference between two snapshots, as text"""
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s/%s missing" % (at, k)
            r = diff(a[k], b[k], "%s/%s" % (at, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            r = diff(x, y, at)
            if r:
                return r
        return None
    return None if a == b else "%s: %s, expected %s" % (at, a, b)
