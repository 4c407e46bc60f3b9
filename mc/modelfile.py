"""Abstract network descriptions, their model files, and what must be loaded.

A description holds rows per table exactly as written (cells are strings):
  i: interface rows, n: node rows, d: demand rows, p: LSP rows or None (no
  RSVP_LSP_TABLE).  `expected` interprets the rows by the documented format."""
import os
import shutil
import tempfile

from . import build as B
from .monitors import need
from .ref import Net

TRUE = ("", "True", "T", "true")


def text(desc):
    o = desc.get("o", {})
    nl = o.get("nl", "\n")
    lines = ["INTERFACES_TABLE", "node_object_name\tremote_node_object_name\tname\tcost\tcapacity"]
    lines += ["\t".join(r) for r in desc["i"]]
    gap = [""] * o.get("gap", 1)
    nodes = ["NODES_TABLE", "name\tlon\tlat\tigp_shortcuts_enabled(default=False)"] + ["\t".join(r) for r in desc["n"]]
    dem = ["DEMANDS_TABLE", "source\tdest\ttraffic\tname"] + ["\t".join(r) for r in desc["d"]]
    lsp = None
    if desc["p"] is not None:
        lsp = ["RSVP_LSP_TABLE", "source\tdest\tname\tconfigured_setup_bw\tmanual_metric"] + ["\t".join(r) for r in desc["p"]]
    lines += gap + nodes + gap + dem
    if lsp:
        lines += gap + lsp
    return "\ufeff" * o.get("bom", 0) + nl.join(lines) + nl * o.get("end", 1)


def load(cls, desc):
    d = tempfile.mkdtemp(prefix="mcfile_")
    try:
        p = os.path.join(d, "m.csv")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text(desc))
        return B.CLS[cls].load_model_file(p)
    finally:
        shutil.rmtree(d)


def expected(cls, desc):
    """plain description of the network the rows stand for"""
    ifs, nodes, dm, lp = {}, {}, {}, {}
    flex = cls in "FL"
    for r in desc["i"]:
        r = list(r)
        cid = r.pop(5) if flex else None
        rsvp = r[5] in TRUE if len(r) > 5 else True
        pct = float(r[6]) if len(r) > 6 and r[6] != "" else 100.0
        k = (r[0], r[2])
        if k not in ifs:
            ifs[k] = (r[1], int(r[3]), int(r[4]), cid, rsvp, pct)
        for n in r[:2]:
            nodes.setdefault(n, (0, 0, False))
    for r in desc["n"]:
        def num(j):
            return float(r[j]) if len(r) > j and r[j].strip() else 0
        nodes[r[0]] = (num(2), num(1), len(r) > 3 and r[3] == "True")
    for r in desc["d"]:
        dm.setdefault((r[0], r[1], r[3] or "none"), int(r[2]))
    for r in desc["p"] or ():
        bw = float(r[3]) if len(r) > 3 and r[3] else None
        mt = int(r[4]) if len(r) > 4 and r[4] else None
        lp.setdefault(tuple(r[:3]), (bw, mt))
    return {"n": nodes, "i": ifs, "d": dm, "p": lp}


def compare(m, e):
    need(len(m.node_objects) == len(e["n"]), "loaded nodes %s, the file describes %s",
         sorted(n.name for n in m.node_objects), sorted(e["n"]))
    for n in m.node_objects:
        need(n.name in e["n"], "loaded node %s is not in the file", n.name)
        lat, lon, sc = e["n"][n.name]
        need(n.lat == lat and n.lon == lon, "node %s lat/lon %r/%r, the file says %r/%r", n.name, n.lat, n.lon, lat, lon)
        need(n.igp_shortcuts_enabled is sc, "node %s igp_shortcuts_enabled %r, the file says %r", n.name, n.igp_shortcuts_enabled, sc)
        need(n.failed is False, "node %s is failed after loading", n.name)
    need(len(m.interface_objects) == len(e["i"]), "loaded interfaces %s, the file describes %s",
         sorted(B.ikey(i) for i in m.interface_objects), sorted(e["i"]))
    by = {n.name: n for n in m.node_objects}
    for i in m.interface_objects:
        k = B.ikey(i)
        need(k in e["i"], "loaded interface %s is not in the file", k)
        rem, cost, cap, cid, rsvp, pct = e["i"][k]
        got = (i.remote_node_object.name, i.cost, i.capacity, i.rsvp_enabled, i.percent_reservable_bandwidth)
        need(got == (rem, cost, cap, rsvp, pct), "interface %s has (remote, cost, capacity, rsvp, percent) %s, the file says %s",
             k, got, (rem, cost, cap, rsvp, pct))
        if cid is not None:
            need(str(i.circuit_id) == cid, "interface %s circuit_id %r, the file says %r", k, i.circuit_id, cid)
        need(i.failed is False, "interface %s is failed after loading", k)
        need(i.node_object is by[k[0]] and i.remote_node_object is by[rem], "interface %s is not attached to the model's nodes", k)
    got = sorted((B.dkey(d), d.traffic) for d in m.demand_objects)
    need(got == sorted(e["d"].items()), "loaded demands %s, the file describes %s", got, sorted(e["d"].items()))
    got = sorted((B.lkey(p), str((p.configured_setup_bandwidth, p.manual_metric))) for p in m.rsvp_lsp_objects)
    want = sorted((k, str((bw, "not set" if mt is None else mt))) for k, (bw, mt) in e["p"].items())
    need(got == want, "loaded LSPs %s, the file describes %s", got, want)
    for x in list(m.demand_objects) + list(m.rsvp_lsp_objects):
        need(x.source_node_object is by[x.source_node_object.name] and x.dest_node_object is by[x.dest_node_object.name],
             "%s is not attached to the model's nodes", x)


def net_from(cls, e):
    """reference Net of an expected description (interfaces matched into circuits)"""
    net = Net({"cls": "F" if cls in "FL" else "P", "n": sorted(e["n"]), "l": []})
    todo = dict(e["i"])
    while todo:
        (a, na), (b, cost, cap, cid, rsvp, pct) = todo.popitem()
        mate = [k for k, v in todo.items() if k[0] == b and v[0] == a and v[3] == cid]
        need(len(mate) == 1, "harness: description is not well formed at %s", (a, na))
        y = todo.pop(mate[0])
        net.add_link(a, b, cost, y[1], cap, na, mate[0][1], cid, (rsvp, y[4]), (pct, y[5]))
    net.sc = {n for n, v in e["n"].items() if v[2]} if cls in "FL" else set()
    net.demands = dict(e["d"])
    net.lsps = dict(e["p"])
    net.touch()
    return net
