"""Spec -> real model objects, and model -> plain observation."""
from . import env
from .ref import link_names
from .stable import stable

CLS = {
    "P": env.PerformanceModel,
    "F": env.FlexModel,
    "M": env.Model,
    "L": env.Parallel_Link_Model,
}


def build(spec, cls=None, order="asc", lsp_order=None, dmd_order=None):
    """Build the model with the public constructors.  lsp_order/dmd_order: a
    permutation that fixes the iteration order of the LSP / demand sets."""
    env.reset_order(order)
    nodes = {n: env.Node(n) for n in spec["n"]}
    for n in spec.get("sc", ()):
        nodes[n].igp_shortcuts_enabled = True
    ifs = []
    for l, (na, nb, cid) in zip(spec["l"], link_names(spec)):
        a, b, cab, cba, cap = l[:5]
        o = l[5] if len(l) > 5 else {}
        r = o.get("r", (True, True))
        p = o.get("pct", (100, 100))
        capb = o.get("capb", cap)
        ifs.append(env.Interface(na, cab, cap, nodes[a], nodes[b], cid, r[0], p[0]))
        ifs.append(env.Interface(nb, cba, capb, nodes[b], nodes[a], cid, r[1], p[1]))
    dm = [env.Demand(nodes[s], nodes[t], tr, n) for s, t, tr, n in spec.get("d", ())]
    lp = [env.RSVP_LSP(nodes[s], nodes[t], n, bw, m) for s, t, n, bw, m in spec.get("p", ())]
    for objs, perm in ((dm, dmd_order), (lp, lsp_order)):
        if perm is not None:
            for h, i in enumerate(perm if hasattr(objs[0], "__dict__") else ()):
                objs[i].__dict__["_mc_h"] = h + 1
    return CLS[cls or spec["cls"]](set(ifs), set(nodes.values()), set(dm), set(lp))


def ikey(i):
    return (i.node_object.name, i.name)


def lkey(p):
    return (p.source_node_object.name, p.dest_node_object.name, p.lsp_name)


def dkey(d):
    return (d.source_node_object.name, d.dest_node_object.name, d.name)


def item(x):
    return ("L", lkey(x)) if isinstance(x, env.RSVP_LSP) else ("I", ikey(x))


def is_unrouted(path):
    return isinstance(path, str) and path.startswith("Unrouted")


def lsp_path(p):
    """tuple of interface keys, or None"""
    return None if is_unrouted(p.path) else tuple(ikey(i) for i in p.path["interfaces"])


def obs_lsps(m):
    """frozenset of (key, path, reserved bandwidth)"""
    out = []
    for p in m.rsvp_lsp_objects:
        pa = lsp_path(p)
        out.append((lkey(p), pa, None if pa is None else p.reserved_bandwidth))
    return frozenset(out)


def obs_traffic(m):
    return {ikey(i): i.traffic for i in m.interface_objects}


def obs_demand_paths(m):
    out = {}
    for d in m.demand_objects:
        out[dkey(d)] = None if is_unrouted(d.path) else tuple(tuple(item(x) for x in p) for p in d.path)
    return out


def obs_flags(m):
    return (
        tuple(sorted((n.name, n.failed) for n in m.node_objects)),
        tuple(sorted((ikey(i), i.failed) for i in m.interface_objects)),
        tuple(sorted((s.name, s.failed) for s in m.srlg_objects)),
    )


def digest(m):
    """A hashable canonical form of everything a user observes after a
    simulation; used to count distinct states."""
    tr = tuple(sorted((ikey(i), i.failed, str(i.traffic), i.reserved_bandwidth) for i in m.interface_objects))
    dp = tuple(sorted((k, str(None if v is None else sorted(v))) for k, v in obs_demand_paths(m).items()))
    lp = sorted((k, str(p), str(b)) for k, p, b in obs_lsps(m))
    return stable((obs_flags(m), tr, dp, lp))
