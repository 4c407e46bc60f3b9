"""C14: path queries return exactly the qualifying paths."""
from itertools import combinations_with_replacement, product

from .. import build as B
from .. import choice, edits
from .. import topo as T
from ..families import lsp_cases, parallels, rsvp_patterns, scen
from ..monitors import need
from ..simcase import run
from . import c10

PROP = "C14"

CAPS = [10, 4, 20]


def capped(s):
    return dict(s, l=[l[:4] + [CAPS[i % 3]] + l[5:] for i, l in enumerate(s["l"])])


def cases(tier):
    big = tier == "thorough"

    def c(f, s, x=(), **kw):
        return dict({"f": f, "s": s, "x": list(x), "rc": ["first", "last"]}, **kw)

    for cls in "PF":
        for s in T.labelled(3, (1, 2), asym=True, cls=cls):
            s = capped(s)
            s = dict(s, d=[["A", "C", 4, "d"]], p=[["A", "C", "l", None, None]])
            for x in scen(s, 1 if not big else 2):
                yield c("tri", s, x)
        for s in T.labelled(4, (1, 2), cls=cls, min_links=3 if big else 4):
            s = dict(capped(s), d=[["A", "D", 4, "d"]], p=[["A", "D", "l", None, None], ["B", "A", "m", 3.5, None]])
            for x in scen(s, 1, nodes=False) if big else ([],):
                yield c("quad", s, x)
    for s in T.multi(3, (1, 2), 2):
        s = dict(capped(s), d=[["A", "C", 4, "d"]], p=[["A", "C", "l", None, None]])
        for x in scen(s, 1):
            yield c("multi", s, x)
    for s in parallels(big):
        s = capped(s)
        for x in scen(s, 1):
            yield c("bundles", dict(s, d=[["A", "C", 6, "d"]], p=[["A", "C", "l", None, None], ["A", "B", "m", 3, None]]), x)
    # caps and costs of parallel circuits, all combinations
    for caps in product((4, 10), repeat=3):
        for costs in combinations_with_replacement((1, 2, 3), 3):
            s = {"cls": "F", "n": ["A", "B", "C"], "l": [["A", "B", k, k, v] for k, v in zip(costs, caps)] +
                 [["B", "C", 1, 1, 10], ["A", "C", 3, 3, 10]]}
            for bw in (None, 4, 8):
                for x in scen(s, 1) if big else ([], [["link", 1]], [["node", "C"]]):
                    yield c("parallel-room", dict(s, d=[["A", "B", 5, "d"]], p=[["A", "B", "l", bw, None], ["A", "C", "m", 3, None]]), x)
    for cls in "PF":
        for base in (T.ring(3, cap=10, cls=cls), T.fan(2, cap=10, cls=cls)):
            for s in rsvp_patterns(base):
                n = s["n"]
                for x in scen(s, 1):
                    yield c("rsvp-off", dict(s, d=[[n[0], n[-1], 4, "d"]], p=[[n[0], n[-1], "l", None, None]]), x)
    for k in lsp_cases("quick"):
        if k["f"] == "groups" or (k["f"] == "parallel-lsp" and (big or not k["x"])) or (
                k["f"] == "tri-lsp-fail" and len(k["s"]["p"]) == 2 and (k["x"] if big else not k["x"])):
            yield dict(k, rc=["first"])
        if k["f"] == "same-names" or k["f"] == "many-lsps" and len(k["s"]["p"]) < 10:
            yield dict(k, rc=["first"])
        if k["f"] == "wide-lsp" and len(k["s"]["p"]) == 2 and len(k["s"]["l"]) < 26 and not k["x"]:
            n = k["s"]["n"]
            yield dict(k, rc=["first"], pairs=[[n[0], n[-1]], [n[-1], n[0]], [n[0], n[1]]])
    # long paths: the hop cutoff counts
    for cls in "PF":
        for base in (T.ring(6, cap=10, cls=cls), T.chain(13, cap=10, cls=cls), T.grid(3, 3, cap=10, cls=cls), T.ladder(2, cap=10, cls=cls)):
            n = base["n"]
            s = dict(base, d=[[n[0], n[-1], 4, "d"]], p=[[n[0], n[-1], "l", None, None], [n[1], n[-1], "m", 6.5, None]])
            for x in scen(s, 1):
                yield c("long", s, x, pairs=[[n[0], n[-1]], [n[-1], n[0]], [n[1], n[-2]]])


    # between an edit and the next simulation
    for k in c10.cases("quick"):
        if not k["eager"] and ("-1-" in k["f"] or "-2-" in k["f"]) and not any(o[0] == "del_p" for o in k["ops"]) and (
                big or len(k["ops"]) == 1 or k["f"][:5] in ("chain", "paral")):
            yield dict(k, f="unsimulated")
    for cls in "PF":
        for k in (12, 13, 14, 17, 23) if not big else range(11, 31):
            base = T.chain(k, cap=10, cls=cls)
            n = base["n"]
            yield c("cutoff", dict(base, d=[[n[0], n[-1], 4, "d"]], p=[[n[0], n[-1], "l", None, None]]), pairs=[[n[0], n[-1]]],
                    cuts=[9, 10, 11, 12, 13, 15, 16, 17, 21, 22, 29, 30, 31])


def paths_of(got, what):
    need(isinstance(got, dict) and isinstance(got.get("path"), list), "%s returns %r", what, got)
    out = [tuple(B.ikey(i) for i in p) for p in got["path"]]
    need(len(set(out)) == len(out), "%s lists a path twice: %s", what, out)
    return sorted(out)


def rooms(m):
    """bandwidth left for reservations, unrounded"""
    used = {}
    for p in m.rsvp_lsp_objects:
        if "interfaces" in p.path:
            for i in p.path["interfaces"]:
                used[B.ikey(i)] = used.get(B.ikey(i), 0) + p.reserved_bandwidth
    return {B.ikey(i): i.capacity * i.percent_reservable_bandwidth / 100 - used.get(B.ikey(i), 0) if i.rsvp_enabled else -1
            for i in m.interface_objects}


def bandwidths(limits):
    """0, something tiny, every boundary and a step beyond it"""
    out = {0, 0.25}   # between two boundaries every value behaves alike
    for v in limits:
        if v > 0:
            out |= {v + 0.25}
            if float(v * 4).is_integer():
                out.add(v)
    # not within rounding error of a boundary that is no short decimal
    return sorted(b for b in out if not any(0 < abs(v - b) < 1e-6 for v in limits))


class Ref:
    """the reference answers, computed once per set of eligible interfaces"""

    def __init__(self, net, most=10):
        self.net, self.memo, self.most = net, {}, most

    def least(self, s, t, ok):
        e = frozenset(k for k, i in self.net.ifs.items() if ok(i))
        if (s, t, e) not in self.memo:
            self.memo[s, t, e] = self.net.least_paths_nomemo(s, t, lambda i: i.key in e)
        return self.memo[s, t, e]

    def simple(self, s, t, ok, cut):
        e = frozenset(k for k, i in self.net.ifs.items() if ok(i))
        if (s, t, e, "all") not in self.memo:
            self.memo[s, t, e, "all"] = sorted(self.net.simple_paths(s, t, lambda i: i.key in e, self.most))
        return [p for p in self.memo[s, t, e, "all"] if len(p) <= cut]


def queries(m, net, routed, pairs=None, cuts=(1, 2, 3, 10), move=False, room=None):
    by = {B.ikey(i): i for i in m.interface_objects}
    room = room or rooms(m)
    for k, i in by.items():
        need(abs(i.reservable_bandwidth - room[k]) <= 0.0501, "%s has reservable_bandwidth %r, %r is left", k, i.reservable_bandwidth, room[k])
    bws = bandwidths(set(room.values()))
    n = 0
    ref = Ref(net, max(10, *cuts))
    for s, t in pairs or [(s, t) for s in net.nodes for t in net.nodes if s != t]:
        for bw in bws:
            def ok(i):
                return not i.failed and (bw == 0 or room[i.key] >= bw)
            what = "get_shortest_path(%s, %s, needed_bw=%s)" % (s, t, bw)
            got = m.get_shortest_path(s, t, bw) if bw else m.get_shortest_path(s, t)
            cost, want = ref.least(s, t, ok)
            need(paths_of(got, what) == sorted(want), "%s returns %s, expected %s", what, paths_of(got, what), sorted(want))
            need(got["cost"] == cost, "%s has cost %r, expected %r", what, got["cost"], cost)
            need(all(i is by[B.ikey(i)] for p in got["path"] for i in p), "%s returns foreign interfaces", what)
            n += 1
        for failed in (True, False):
            for cut in cuts:
                for bw in (bws if cut == 10 else bws[:2]):
                    if len(net.nodes) > 5 and bw not in (0, 3.75, 6, 10):
                        continue

                    def ok(i):
                        return (failed or not i.failed) and (bw == 0 or room[i.key] >= bw)
                    what = "get_all_paths_reservable_bw(%s, %s, include_failed_circuits=%s, cutoff=%s, needed_bw=%s)" % (s, t, failed, cut, bw)
                    got = m.get_all_paths_reservable_bw(s, t, include_failed_circuits=failed, cutoff=cut, needed_bw=bw)
                    want = ref.simple(s, t, ok, cut)
                    need(paths_of(got, what) == want, "%s returns %s, expected %s", what, paths_of(got, what), want)
                    n += 1
        what = "get_all_paths_reservable_bw(%s, %s)" % (s, t)
        need(paths_of(m.get_all_paths_reservable_bw(s, t), what) == ref.simple(s, t, lambda i: True, 10), "%s", what)
    for p in m.rsvp_lsp_objects:
        k = B.lkey(p)
        path = routed[k]
        if path is None:
            continue
        res = p.reserved_bandwidth
        for s, t in [k[:2], (k[1], k[0])]:
            for bw in bandwidths(set(room.values()) | {res} | {room[x] + res for x in path}):
                def ok(i):
                    return not i.failed and i.rsvp and room[i.key] + (res if i.key in path else 0) >= bw
                what = "get_shortest_path_for_routed_lsp(%s, %s, %s, %s)" % (s, t, k, bw)
                got = m.get_shortest_path_for_routed_lsp(s, t, p, bw)
                cost, want = ref.least(s, t, ok)
                need(paths_of(got, what) == sorted(want), "%s returns %s, expected %s", what, paths_of(got, what), sorted(want))
                need(got["cost"] == cost, "%s has cost %r, expected %r", what, got["cost"], cost)
                n += 1
                if move and s == k[0]:
                    moved(m, p, bw, want, room, path, res)
    return n


def moved(m, p, bw, want, room, path, res):
    """an LSP that signals again takes one of the paths with room, or stays"""
    was = p.path, p.reserved_bandwidth, p.setup_bandwidth
    others = [(q, q.path, q.reserved_bandwidth) for q in m.rsvp_lsp_objects if q is not p]
    what = "find_rsvp_path_w_bw(%s) of %s" % (bw, B.lkey(p))
    need(p.find_rsvp_path_w_bw(bw, m) is p, "%s does not return the LSP", what)
    if not want:
        need(p.path is was[0] and (p.reserved_bandwidth, p.setup_bandwidth) == was[1:], "%s changed the LSP, but no path has room", what)
    else:
        now = tuple(B.ikey(i) for i in p.path["interfaces"])
        cost = sum(i.cost for i in p.path["interfaces"])
        left = min(room[i] + (res if i in path else 0) for i in now)
        need(now in want, "%s took %s, expected one of %s", what, now, want)
        need(p.path["path_cost"] == cost, "%s: path_cost %r, expected %r", what, p.path["path_cost"], cost)
        need(abs(p.path["baseline_path_reservable_bw"] - left) <= 0.0501, "%s: reservable %r, expected %r", what,
             p.path["baseline_path_reservable_bw"], left)
        need(p.reserved_bandwidth == bw and p.setup_bandwidth == (p.configured_setup_bandwidth or bw), "%s: reserves %r, sets up %r", what,
             p.reserved_bandwidth, p.setup_bandwidth)
    need(all(q.path is a and q.reserved_bandwidth == b for q, a, b in others), "%s changed another LSP", what)
    p.path, p.reserved_bandwidth, p.setup_bandwidth = was


def check(case, st):
    if case["f"] == "unsimulated":
        def unsim():
            m, net = edits.start(case["s"])
            m.update_simulation()
            for op in [None] + case["ops"]:
                if op:
                    if not edits.applicable(net, op):
                        return
                    edits.edit(m, net, op)
                before = B.digest(m)
                st.steps += queries(m, net, {B.lkey(p): B.lsp_path(p) for p in m.rsvp_lsp_objects}, None, (2, 10), True, {B.ikey(i): i.reservable_bandwidth for i in m.interface_objects})
                need(B.digest(m) == before, "a path query changed the model")
            st.execs += 1
            st.saw(B.digest(m))
        choice.explore(unsim, policies=["first"])
        return

    def judge(sim):
        before = B.digest(sim.m)
        st.steps += queries(sim.m, sim.net, sim.routed, case.get("pairs"), case.get("cuts", (1, 2, 3, 10)), case.get("rc") == ["first"])
        need(B.digest(sim.m) == before, "a path query changed the model")
    run(case, st, judge)
