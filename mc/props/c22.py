"""C22: between simulations an edit shows at once in what follows from it, and nowhere else."""
from itertools import product

from .. import build as B
from .. import choice, edits
from ..monitors import need
from . import c10

PROP = "C22"
KINDS = (("P", "square"), ("F", "square"), ("P", "chain"), ("F", "parallel"))


def cases(tier):
    big = tier == "thorough"
    for depth in (1, 2, 3):
        for cls, kind in KINDS:
            s = c10.base(cls, kind)
            ops = c10.alphabet(s, kind, True) + [("sim",)]
            if depth == 3 and not big:
                if kind == "square":
                    continue
                ops = [o for o in ops if o[0] not in ("del_d", "pct") and o[-1] != 0.5]
            for seq in product(range(len(ops)), repeat=depth):
                if len(set(seq)) < depth or ops[seq[-1]][0] == "sim":
                    continue
                # an LSP that is taken out of the set still holds its reservations until the next simulation
                if any(ops[a][0] == "del_p" and ops[b][0] != "sim" for a, b in zip(seq, seq[1:])):
                    continue
                # so do those of an LSP on an interface whose capacity drops below them
                if any(ops[a][0] == "cap" and ops[a][2] < 10 for a in seq[:-1]):
                    continue
                yield {"f": "%s-%d" % (kind, depth), "s": s, "ops": [ops[i] for i in seq]}
        for cls, kind in (("P", "square"), ("F", "parallel")):
            s, pre, ops = c10.srlg_alphabet(cls, kind)
            ops.append(("sim",))
            for seq in product(range(len(ops)), repeat=depth):
                if len(set(seq)) == depth and any(ops[i][0] in ("fsrlg", "usrlg") for i in seq) and ops[seq[-1]][0] != "sim":
                    yield {"f": "srlg-%d" % depth, "s": s, "ops": [("srlg", "g", pre[0], pre[1])] + [ops[i] for i in seq]}


class Seen:
    """what the last simulation left behind"""

    def __init__(self, m):
        self.load = {B.ikey(i): (i.traffic, i.reserved_bandwidth) for i in m.interface_objects}
        self.dpath = B.obs_demand_paths(m)
        self.lpath = {B.lkey(p): (B.lsp_path(p), p.reserved_bandwidth, p.setup_bandwidth) for p in m.rsvp_lsp_objects}

    def rename(self, old, new):
        self.load[new] = self.load.pop(old)
        self.dpath = {k: v and tuple(tuple(("I", new) if x == ("I", old) else x for x in p) for p in v) for k, v in self.dpath.items()}
        self.lpath = {k: (v[0] and tuple(new if x == old else x for x in v[0]),) + v[1:] for k, v in self.lpath.items()}

    def zero(self, net, keys):
        for k in keys:
            for x in (k, net.ifs[k].rkey):
                self.load[x] = (self.load[x][0], 0)


def step(m, net, seen, op):
    was = {k: i.failed for k, i in net.ifs.items()}
    edits.edit(m, net, op)
    k, t = op[0], [tuple(x) if isinstance(x, list) else x for x in op[1:]]
    if k == "sim":
        seen.__init__(m)
        return
    if k == "rename":
        seen.rename(t[0], (t[0][0], t[1]))
    elif k == "del_d":
        del seen.dpath[t[0]]
    elif k == "del_p":
        del seen.lpath[t[0]]
    elif k == "add_d":
        seen.dpath[t[0], t[1], t[3]] = None
    elif k == "add_p":
        seen.lpath[tuple(t)] = (None, None, None)
    elif k == "circuit":
        for x in ((t[0], t[2]), (t[1], t[3])):
            seen.load[x] = (0, 0)
    elif k in ("fsrlg", "usrlg"):
        seen.zero(net, [x for x in net.ifs if was[x] or net.ifs[x].failed])
    elif k in ("fail", "unfail", "fnode", "unode"):
        # an interface that changes hands holds nothing
        mine = [t[0]] if k in ("fail", "unfail") else [x for x, i in net.ifs.items() if t[0] in (i.node, i.remote)]
        seen.zero(net, [x for x in mine if net.ifs[x].failed or was[x] or k in ("unfail", "unode")])


def close(a, b, eps):
    return isinstance(a, (int, float)) and abs(a - b) <= eps + 1e-9 * abs(b)


def judge(m, net, seen):
    need({B.ikey(i) for i in m.interface_objects} == set(net.ifs), "interfaces are %s", sorted(B.ikey(i) for i in m.interface_objects))
    need({n.name for n in m.node_objects} == set(net.nodes), "nodes are %s", sorted(n.name for n in m.node_objects))
    for i in m.interface_objects:
        k = B.ikey(i)
        r = net.ifs[k]
        traffic, held = seen.load[k]
        need((i.cost, i.capacity, i.rsvp_enabled, i.percent_reservable_bandwidth, i.failed, i.remote_node_object.name) ==
             (r.cost, r.cap, r.rsvp, r.pct, r.failed, r.remote), "interface %s has cost, capacity, ... %s", k,
             (i.cost, i.capacity, i.rsvp_enabled, i.percent_reservable_bandwidth, i.failed, i.remote_node_object.name))
        need(i.traffic == traffic, "interface %s carries %r, %r at the last simulation", k, i.traffic, traffic)
        need(i.reserved_bandwidth == held, "interface %s has %r reserved, expected %r", k, i.reserved_bandwidth, held)
        if isinstance(traffic, str):
            need(isinstance(i.utilization, str), "interface %s with traffic %r has utilization %r", k, traffic, i.utilization)
        else:
            need(close(i.utilization, traffic / r.cap * 100, 0.00501), "interface %s carrying %r of %r has utilization %r", k, traffic, r.cap,
                 i.utilization)
        need(close(i.reservable_bandwidth, r.cap * r.pct / 100 - held if r.rsvp else -1, 0.0501),
             "interface %s has %r reservable, capacity %r, %s %%, reserved %r, RSVP %r", k, i.reservable_bandwidth, r.cap, r.pct, held, r.rsvp)
    for n in m.node_objects:
        need((n.failed, n.igp_shortcuts_enabled) == (net.node_failed[n.name], n.name in net.sc), "node %s: failed %r, shortcuts %r", n.name,
             n.failed, n.igp_shortcuts_enabled)
    need(B.obs_demand_paths(m) == seen.dpath, "demand paths %s, %s expected", B.obs_demand_paths(m), seen.dpath)
    for d in m.demand_objects:
        need(d.traffic == net.demands[B.dkey(d)], "demand %s has traffic %r", B.dkey(d), d.traffic)
    need({B.lkey(p) for p in m.rsvp_lsp_objects} == set(net.lsps), "LSPs are %s", sorted(B.lkey(p) for p in m.rsvp_lsp_objects))
    for p in m.rsvp_lsp_objects:
        k = B.lkey(p)
        path, held, setup = seen.lpath[k]
        bw, metric = net.lsps[k]
        need(B.lsp_path(p) == path, "LSP %s is on %s, %s at the last simulation", k, B.lsp_path(p), path)
        need((p.configured_setup_bandwidth, p.manual_metric) == (bw, "not set" if metric is None else metric),
             "LSP %s: configured bandwidth %r, metric %r", k, p.configured_setup_bandwidth, p.manual_metric)
        if path is not None:
            need((p.reserved_bandwidth, p.setup_bandwidth) == (held, setup), "LSP %s: reserves %r, sets up %r; %r and %r at the last simulation", k,
                 p.reserved_bandwidth, p.setup_bandwidth, held, setup)
        want = metric if metric is not None else "Unrouted" if path is None else net.igp_dist(k[0], k[1])
        need(p.effective_metric(m) == want, "LSP %s: effective_metric %r, expected %r", k, p.effective_metric(m), want)
        want = "Unrouted" if path is None else sum(net.ifs[x].cost for x in path)
        need(p.topology_metric(m) == want, "LSP %s: topology_metric %r, expected %r", k, p.topology_metric(m), want)
    for c in m.circuit_objects:
        x = [B.ikey(i) for i in c.get_circuit_interfaces(m)]
        need(c.failed(m) is any(net.ifs[k].failed for k in x), "circuit %s: failed() %r", x, c.failed(m))


def check(case, st):
    def body():
        m, net = edits.start(case["s"])
        m.update_simulation()
        seen = Seen(m)
        for op in case["ops"]:
            if not edits.applicable(net, op):
                return
            step(m, net, seen, op)
            judge(m, net, seen)
            st.steps += 1
        st.execs += 1
        st.saw(B.digest(m))
    choice.explore(body, policies=["first"])
