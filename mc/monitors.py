"""Monitors: compare one simulated model with the reference Net.

Each monitor raises Violation(text) when the implementation's observable state
is not the one (or not one of those) the reference admits."""
from fractions import Fraction as Fr

from . import build as B

TOL = 1e-6
FINE = 1e-9


class Violation(Exception):
    pass


def close(a, b, tol=FINE):
    b = float(b)
    return abs(float(a) - b) <= tol * max(1e-6, abs(b))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sim:
    """One simulated model plus the reference evaluated on the LSP placement
    the implementation chose."""

    def __init__(self, model, net):
        self.m, self.net = model, net
        self.lsps = B.obs_lsps(model)
        self.routed = {k: p for k, p, _ in self.lsps}
        need(set(self.routed) == set(net.lsps), "the model's LSPs are %s, expected %s",
             sorted(self.routed), sorted(net.lsps))
        self.dm, self.it, self.lt = net.simulate(self.routed)
        self.paths = B.obs_demand_paths(model)
        need(set(self.paths) == set(net.demands), "the model's demands are %s, expected %s",
             sorted(self.paths), sorted(net.demands))


# ---------------------------------------------------------------- C01, C06, C07
def rides_lsp(sim, key):
    return bool(sim.net.best_lsps(key[0], key[1], sim.routed))


def uses_lsp(ref):
    return ref is not None and any(c == "L" for q, _ in ref for c, _ in q)


def demand_paths(sim, which):
    """which: 'igp' plain IGP demands, 'e2e' demands on end-to-end LSPs,
    'sc' demands with LSPs inside their path, 'all'"""
    n = 0
    for key, ref in sim.dm.items():
        kind = "e2e" if rides_lsp(sim, key) else "sc" if uses_lsp(ref) else "igp"
        if which != "all" and kind != which:
            continue
        n += 1
        got = sim.paths[key]
        if ref is None:
            need(got is None, "demand %s has no live path but path is %s", key, got)
            continue
        need(got is not None, "demand %s is Unrouted; expected paths %s", key, [q for q, _ in ref])
        want = sorted(q for q, _ in ref)
        need(sorted(got) == want, "demand %s takes %s, expected %s", key, sorted(got), want)
    return n


# ---------------------------------------------------------------- C02, C20
def interface_traffic(sim):
    for i in sim.m.interface_objects:
        k = B.ikey(i)
        r = sim.net.ifs[k]
        if r.failed:
            need(i.failed is True, "interface %s should be failed", k)
            need(i.traffic == "Down", "failed interface %s shows traffic %r", k, i.traffic)
            need(i.utilization == "Int is down", "failed interface %s utilization %r", k, i.utilization)
            continue
        need(i.failed is False, "interface %s should be up", k)
        need(not isinstance(i.traffic, str) and close(i.traffic, sim.it[k]),
             "interface %s carries %r, expected %s", k, i.traffic, float(sim.it[k]))
        u = float(sim.it[k] / Fr(str(r.cap)) * 100)
        need(isinstance(i.utilization, (int, float)) and abs(i.utilization - u) <= 0.00501 + 1e-9 * abs(u),
             "interface %s utilization %r, expected %.4f", k, i.utilization, u)


def conservation(sim):
    """at every node: in + sourced == out + sunk, over routed demands"""
    net = {n: Fr(0) for n in sim.net.nodes}
    for (s, t, n), tr in sim.net.demands.items():
        if sim.paths[(s, t, n)] is not None:
            net[s] += Fr(str(tr))
            net[t] -= Fr(str(tr))
    got = {n: 0.0 for n in sim.net.nodes}
    scale = 1.0
    for i in sim.m.interface_objects:
        if i.failed:
            continue
        got[i.node_object.name] += i.traffic
        got[i.remote_node_object.name] -= i.traffic
        scale += abs(i.traffic)
    for n in got:
        need(abs(got[n] - float(net[n])) <= TOL * scale,
             "node %s: traffic out minus in is %r, demands there amount to %s", n, got[n], float(net[n]))


# ---------------------------------------------------------------- C03
def path_detail(sim):
    for d in sim.m.demand_objects:
        tol = 6e-5
        k = B.dkey(d)
        ref = sim.dm[k]
        pd = d.path_detail
        if sim.paths[k] is None:
            need(not isinstance(pd, dict) or not pd, "unrouted demand %s still has path_detail %s", k, pd)
            continue
        need(isinstance(pd, dict), "routed demand %s has path_detail %r", k, pd)
        seen = {}
        total = 0.0
        for name, e in pd.items():
            items = e.get("items", e.get("interfaces"))
            need(items is not None, "path_detail of %s entry %s lists no items: %s", k, name, e)
            q = tuple(B.item(x) for x in items)
            need(q not in seen, "path_detail of %s lists path %s twice", k, q)
            seen[q] = e
            total += e["path_traffic"]
        need(sorted(seen) == sorted(sim.paths[k]), "path_detail of %s lists %s but its path is %s",
             k, sorted(seen), sorted(sim.paths[k]))
        tr = float(sim.net.demands[k])
        if not rides_lsp(sim, k):   # only the shares of LSPs are rounded, to four decimals
            tol = 0
        need(abs(total - tr) <= tol * max(1, len(seen)) + FINE * tr, "path_detail of %s accounts for %r of %r",
             k, total, tr)
        if ref is None:
            continue
        for q, share in ref:
            need(q in seen, "path_detail of %s misses %s", k, q)
            e = seen[q]
            need(abs(e["path_traffic"] - float(share)) <= tol + FINE * float(share),
                 "path_detail of %s gives %r to %s, expected %s", k, e["path_traffic"], q, float(share))
            if "splits" in e and tr:
                sp = {B.item(x): v for x, v in e["splits"].items()}
                need(set(sp) == set(q), "path_detail of %s: splits name %s, path is %s", k, sorted(sp), q)
                want = splits_along(q, [r for r, _ in ref])
                for x in q:
                    need(sp[x] == want[x], "path_detail of %s: %s has %r splits, expected %s on path %s",
                         k, x, sp[x], want[x], q)


def splits_along(q, alts):
    out, n = {}, 1
    for h in range(len(q)):
        n *= len({r[h] for r in alts if len(r) > h and r[:h] == q[:h]})
        out[q[h]] = n
    return out


# ---------------------------------------------------------------- C04
def reservations(sim, tol=0.1):
    total = {k: 0.0 for k in sim.net.ifs}
    for p in sim.m.rsvp_lsp_objects:
        k = B.lkey(p)
        pa = sim.routed[k]
        if pa is None:
            need(B.is_unrouted(p.reserved_bandwidth), "unrouted LSP %s reserves %r", k, p.reserved_bandwidth)
            continue
        need(len(pa) > 0, "LSP %s has an empty path", k)
        at = k[0]
        seen = [at]
        for x in pa:
            need(x in sim.net.ifs, "LSP %s crosses unknown interface %s", k, x)
            i = sim.net.ifs[x]
            need(i.node == at, "LSP %s: hop %s does not start at %s (path %s)", k, x, at, pa)
            need(not i.failed, "LSP %s crosses failed interface %s", k, x)
            need(i.rsvp, "LSP %s crosses interface %s which is not rsvp_enabled", k, x)
            at = i.remote
            need(at not in seen, "LSP %s visits %s twice (path %s)", k, at, pa)
            seen.append(at)
            total[x] += p.reserved_bandwidth
        need(at == k[1], "LSP %s ends at %s (path %s)", k, at, pa)
        need(p.reserved_bandwidth >= 0, "LSP %s reserves %r", k, p.reserved_bandwidth)
        need(abs(p.reserved_bandwidth - p.setup_bandwidth) < 1e-9,
             "LSP %s reserves %r but signalled for %r", k, p.reserved_bandwidth, p.setup_bandwidth)
        bw = sim.net.lsps[k][0]
        if bw is not None:
            need(abs(p.reserved_bandwidth - float(bw)) < 1e-9,
                 "LSP %s reserves %r, its configured setup bandwidth is %r", k, p.reserved_bandwidth, bw)
        need(p.path["path_cost"] == sim.net.path_cost(pa), "LSP %s path_cost %r, its hops cost %s",
             k, p.path["path_cost"], sim.net.path_cost(pa))
    for i in sim.m.interface_objects:
        k = B.ikey(i)
        r = sim.net.ifs[k]
        lim = float(sim.net.limit(r))
        need(abs(i.reserved_bandwidth - total[k]) <= tol / 2 + 1e-6,
             "interface %s reserved_bandwidth %r, its LSPs reserve %r", k, i.reserved_bandwidth, total[k])
        if total[k]:
            need(total[k] <= lim + TOL * max(1e-3, lim), "interface %s: %r reserved, only %r may be", k, total[k], lim)
        if r.rsvp:
            need(abs(i.reservable_bandwidth - (lim - total[k])) <= tol + 1e-6,
                 "interface %s reservable_bandwidth %r, expected %r", k, i.reservable_bandwidth, lim - total[k])
        else:
            need(i.reservable_bandwidth < 0, "interface %s is not rsvp_enabled, reservable_bandwidth %r",
                 k, i.reservable_bandwidth)


# ---------------------------------------------------------------- C05
def placement(sim, outcomes, tol=1e-6):
    """the observed placement is one of the admissible ones (exact paths,
    reserved bandwidth up to float error)"""
    def order(x):
        return (repr(x[0]), x[1] is not None, x[1] or (), x[2] or 0) + x[3:]

    room = len(next(iter(next(iter(outcomes), ())), ())) == 4
    obj = {B.lkey(p): p for p in sim.m.rsvp_lsp_objects} if room else {}
    got = sorted([(sim.net.lsp_class(k), p, b) + ((None if p is None else obj[k].path["baseline_path_reservable_bw"],) if room else ())
                  for k, p, b in sim.lsps], key=order)
    alts = [sorted([(x[0], x[1]) + tuple(None if b is None else float(b) for b in x[2:]) for x in o], key=order) for o in outcomes]
    for want in alts:
        # bandwidth that was reservable is shown rounded to 0.1
        if all(g[:2] == w[:2] and (g[1] is None or abs(w[2] - g[2]) <= tol * max(1.0, abs(g[2])))
               and (not room or g[1] is None or abs(w[3] - g[3]) <= 0.11 + 1e-9 * abs(w[3]))
               for g, w in zip(got, want)):
            return
    raise Violation("LSP placement %s is not one of the %d admissible ones, e.g. %s" % (got, len(outcomes), alts[:4]))


# ---------------------------------------------------------------- C06
def lsp_traffic(sim):
    for p in sim.m.rsvp_lsp_objects:
        k = B.lkey(p)
        t = p.traffic_on_lsp(sim.m)
        need(isinstance(t, (int, float)) and close(t, sim.lt[k]),
             "traffic_on_lsp(%s) is %r, expected %s", k, t, float(sim.lt[k]))
        want = sorted(dk for dk, ref in sim.dm.items()
                      if ref is not None and any(("L", k) in q for q, _ in ref))
        got = sorted(B.dkey(d) for d in p.demands_on_lsp(sim.m))
        need(got == want, "demands_on_lsp(%s) is %s, expected %s", k, got, want)
        if sim.routed[k] is not None:
            e = p.effective_metric(sim.m)
            need(e == sim.net.metric(k), "effective_metric(%s) is %r, expected %r", k, e, sim.net.metric(k))
            tm = p.topology_metric(sim.m)
            need(tm == sim.net.path_cost(sim.routed[k]), "topology_metric(%s) is %r, expected %r",
                 k, tm, sim.net.path_cost(sim.routed[k]))
        else:
            need(B.is_unrouted(p.topology_metric(sim.m)), "topology_metric of unrouted %s is %r",
                 k, p.topology_metric(sim.m))
