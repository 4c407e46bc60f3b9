"""The reference model: a small, boring, independent description of what the
library documents.  Plain data, exact arithmetic (Fractions), no networkx and
no code shared with the library.

A network state (`Net`) is built from a JSON spec
    {"cls": "P"|"F", "n": [node...], "sc": [nodes with IGP shortcuts],
     "l": [[a, b, cost_ab, cost_ba, capacity, {opts}]...],
     "d": [[src, dst, traffic, name]...],
     "p": [[src, dst, lsp name, configured bw|None, metric|None]...]}
opts of a link: r=[bool,bool] rsvp_enabled of both ends, pct=[x,y] percent
reservable, cid=circuit id, na/nb=interface names at a and b.
"""
from fractions import Fraction as Fr


def frac(x):
    """Exact value of a number as written in decimal."""
    return x if isinstance(x, Fr) else Fr(str(x)) if isinstance(x, float) else Fr(x)


def multiset(items):
    return tuple(sorted(items, key=repr))


def orders(members):
    """the distinct orders of a multiset"""
    if not members:
        yield ()
        return
    for k in sorted(set(members), key=repr):
        rest = list(members)
        rest.remove(k)
        for o in orders(rest):
            yield (k,) + o


class RIf:
    __slots__ = ("name", "node", "remote", "cost", "cap", "cid", "rsvp", "pct", "key", "rkey", "failed")

    def __init__(self, name, node, remote, cost, cap, cid, rsvp, pct):
        self.name, self.node, self.remote = name, node, remote
        self.cost, self.cap, self.cid = cost, cap, cid
        self.rsvp, self.pct = rsvp, pct
        self.key = (node, name)
        self.rkey = None
        self.failed = False


def link_names(spec):
    """[(name at a, name at b, cid)] for every link of the spec."""
    seen = {}
    out = []
    for i, l in enumerate(spec["l"]):
        a, b = l[0], l[1]
        o = l[5] if len(l) > 5 else {}
        pair = (min(a, b), max(a, b))
        seen[pair] = seen.get(pair, 0) + 1
        suf = "" if seen[pair] == 1 else "_%d" % seen[pair]
        out.append((o.get("na", "%s-%s%s" % (a, b, suf)),
                    o.get("nb", "%s-%s%s" % (b, a, suf)),
                    o.get("cid", str(i + 1))))
    return out


class Net:
    def __init__(self, spec):
        self.cls = spec["cls"]
        self.nodes = list(spec["n"])
        self.node_failed = {n: False for n in self.nodes}
        self.sc = set(spec.get("sc", ()))
        self.ifs = {}
        for l, (na, nb, cid) in zip(spec["l"], link_names(spec)):
            o = l[5] if len(l) > 5 else {}
            r = o.get("r", (True, True))
            p = o.get("pct", (100, 100))
            self.add_link(l[0], l[1], l[2], l[3], l[4], na, nb, cid, r, p)
        self.demands = {(s, t, n): tr for s, t, tr, n in spec.get("d", ())}
        self.lsps = {(s, t, n): (bw, m) for s, t, n, bw, m in spec.get("p", ())}
        self._dag = {}

    def add_link(self, a, b, cab, cba, cap, na, nb, cid, r=(True, True), p=(100, 100)):
        x = RIf(na, a, b, cab, cap, cid, r[0], p[0])
        y = RIf(nb, b, a, cba, cap, cid, r[1], p[1])
        x.rkey, y.rkey = y.key, x.key
        self.ifs[x.key] = x
        self.ifs[y.key] = y
        self._dag = {}
        return x, y

    # ------------------------------------------------------------ failures
    def touch(self):
        self._dag = {}

    def fail_if(self, key):
        i = self.ifs[key]
        i.failed = True
        self.ifs[i.rkey].failed = True
        self._dag = {}

    def fail_link(self, idx, spec):
        na, _, _ = link_names(spec)[idx]
        self.fail_if((spec["l"][idx][0], na))

    def fail_node(self, n):
        self.node_failed[n] = True
        for i in list(self.ifs.values()):
            if i.node == n:
                self.fail_if(i.key)
        self._dag = {}

    def live(self, i):
        return not i.failed

    # ------------------------------------------------------------ routing
    def dag(self, dst, eligible=None, memo_key=None):
        """distance to dst and per node the interfaces on least cost paths"""
        if eligible is None:
            memo_key = dst
            eligible = self.live
        if memo_key is not None and memo_key in self._dag:
            return self._dag[memo_key]
        ifs = [i for i in self.ifs.values() if eligible(i)]
        dist = {dst: 0}
        changed = True
        while changed:  # Bellman-Ford
            changed = False
            for i in ifs:
                d = dist.get(i.remote)
                if d is not None and (i.node not in dist or d + i.cost < dist[i.node]):
                    dist[i.node] = d + i.cost
                    changed = True
        nxt = {}
        for i in ifs:
            if i.node != dst and i.node in dist and i.remote in dist and dist[i.node] == dist[i.remote] + i.cost:
                nxt.setdefault(i.node, []).append(i)
        res = (dist, nxt)
        if memo_key is not None:
            self._dag[memo_key] = res
        return res

    def least_paths(self, src, dst, eligible=None):
        """(cost, [path]) with path = tuple of interface keys; (None, []) when cut off"""
        dist, nxt = self.dag(dst, eligible)
        if src not in dist or src == dst:
            return (None, [])
        out = []

        def walk(node, acc):
            if node == dst:
                out.append(tuple(acc))
                return
            for i in nxt.get(node, ()):
                walk(i.remote, acc + [i.key])

        walk(src, [])
        return dist[src], out

    def igp_dist(self, src, dst):
        return self.dag(dst)[0].get(src)

    def simple_paths(self, src, dst, eligible, cutoff):
        """all paths that repeat no node, at most cutoff hops"""
        out = []

        def walk(node, seen, acc):
            if node == dst:
                out.append(tuple(acc))
                return
            if len(acc) >= cutoff:
                return
            for i in self.ifs.values():
                if i.node == node and i.remote not in seen and eligible(i):
                    walk(i.remote, seen | {i.remote}, acc + [i.key])

        walk(src, {src}, [])
        return out

    def path_cost(self, path):
        return sum(self.ifs[k].cost for k in path)

    # ------------------------------------------------------------ RSVP
    def limit(self, i):
        return frac(i.cap) * frac(i.pct) / 100

    def group_traffic(self, s, t):
        return sum((frac(tr) for (a, b, _), tr in self.demands.items() if (a, b) == (s, t)), Fr(0))

    def lsp_class(self, k):
        """LSPs of one group with the same configured bandwidth are
        interchangeable for signalling"""
        return k[:2] + (self.lsps[k][0],)

    def lsp_outcomes(self, cap=200000, headroom=False):
        """The admissible results of signalling, over every order of groups
        and of LSPs in a group and every permitted tie break.  A result is a
        sorted tuple of (lsp class, path or None, reserved bandwidth or None),
        with headroom also what was reservable along the path when the LSP
        signalled: interchangeable LSPs may swap their places."""
        groups = {}
        for k in self.lsps:
            groups.setdefault(k[:2], []).append(self.lsp_class(k))
        res0 = tuple(sorted((k, Fr(0)) for k in self.ifs))
        outs = set()
        budget = [cap]
        memo = set()

        def usable(res):
            r = dict(res)

            def room(i):
                return self.limit(i) - r[i.key]
            return room

        def reserve(res, path, bw):
            r = dict(res)
            for k in path:
                r[k] += bw
            return tuple(sorted(r.items()))

        def cheapest(s, t, bw, room, fewest):
            def ok(i):
                return (not i.failed) and i.rsvp and room(i) >= bw
            _, ps = self.least_paths_nomemo(s, t, ok)
            if fewest and ps:
                m = min(map(len, ps))
                ps = [p for p in ps if len(p) == m]
            return ps

        def entry(k, path, bw, res):
            if not headroom:
                return (k, path, bw)
            return (k, path, bw, None if path is None else min(map(usable(res), (self.ifs[x] for x in path))))

        def spend():
            budget[0] -= 1
            if budget[0] < 0:
                raise OverflowError("too many admissible signalling outcomes")

        def signal_group(g, members, res):
            """yield (assignment items, res)"""
            total = self.group_traffic(*g)
            share = total / len(members)
            for order in orders(members):
                stack = [(0, res, ())]
                while stack:
                    idx, rs, asg = stack.pop()
                    spend()
                    if idx == len(order):
                        for fin in optimise(g, rs, asg, total):
                            yield fin
                        continue
                    k = order[idx]
                    bw = share if k[2] is None else frac(k[2])
                    ps = cheapest(g[0], g[1], bw, usable(rs), True)
                    if not ps:
                        stack.append((idx + 1, rs, asg + (entry(k, None, None, None),)))
                    for p in ps:
                        stack.append((idx + 1, reserve(rs, p, bw), asg + (entry(k, p, bw, rs),)))

        def optimise(g, rs, asg, total):
            routed = [i for i, a in enumerate(asg) if a[1] is not None]
            if not routed or len(routed) == len(asg):
                yield asg, rs
                return
            new_bw = total / len(routed)
            auto = [i for i in routed if asg[i][0][2] is None]
            stack = [(0, rs, asg)]
            while stack:
                idx, r0, b0 = stack.pop()
                spend()
                if idx == len(auto):
                    yield b0, r0
                    continue
                at = auto[idx]
                k, path, bw = b0[at][:3]
                r1 = reserve(r0, path, -bw)
                ps = cheapest(g[0], g[1], new_bw, usable(r1), False)
                if not ps:
                    stack.append((idx + 1, r0, b0))
                for p in ps:
                    stack.append((idx + 1, reserve(r1, p, new_bw), b0[:at] + (entry(k, p, new_bw, r1),) + b0[at + 1:]))

        def rec(todo, res, asg):
            st = (todo, res, asg)
            if st in memo:
                return
            memo.add(st)
            if not todo:
                outs.add(asg)
                return
            for g in todo:
                for a, r in {(multiset(a), r) for a, r in signal_group(g, groups[g], res)}:
                    rec(todo - {g}, r, multiset(asg + a))

        rec(frozenset(groups), res0, ())
        return outs

    def least_paths_nomemo(self, s, t, ok):
        dist, nxt = self.dag(t, ok, None)
        if s not in dist:
            return None, []
        out = []

        def walk(node, acc):
            if node == t:
                out.append(tuple(acc))
                return
            for i in nxt.get(node, ()):
                walk(i.remote, acc + (i.key,))
        walk(s, ())
        return dist[s], out

    # ------------------------------------------------------------ demands
    def metric(self, k):
        m = self.lsps[k][1]
        if m is not None:
            return m
        return self.igp_dist(k[0], k[1])

    def best_lsps(self, s, t, routed):
        """routed LSPs from s to t with the lowest effective metric"""
        ks = [k for k in self.lsps if k[:2] == (s, t) and routed.get(k) is not None]
        if not ks:
            return []
        m = min(self.metric(k) for k in ks)
        return [k for k in ks if self.metric(k) == m]

    def route_demand(self, s, t, routed):
        """[(items, share)] for a demand of size 1, or None when unrouted.
        items: tuple of ('I', interface key) / ('L', lsp key)."""
        best = self.best_lsps(s, t, routed)
        if best:
            return [((("L", k),), Fr(1, len(best))) for k in best]
        _, paths = self.least_paths(s, t)
        if not paths:
            return None
        if self.cls != "F" or not self.sc:
            alts = [tuple(("I", k) for k in p) for p in paths]
        else:
            alts = []
            for p in paths:
                for q in self.shortcut(p, routed):
                    if q not in alts:
                        alts.append(q)
            if len(alts) > 1:
                cost = {q: sum(self.ifs[k].cost if c == "I" else self.metric(k) for c, k in q) for q in alts}
                m = min(cost.values())
                alts = [q for q in alts if cost[q] == m]
        return self.split(alts)

    def shortcut(self, path, routed):
        """all ways the LSPs of shortcut nodes replace stretches of one IGP path"""
        nodes = [self.ifs[path[0]].node] + [self.ifs[k].remote for k in path]
        outs = [()]
        i = 0
        while i < len(path):
            hop = None
            if nodes[i] in self.sc:
                for j in range(len(nodes) - 1, i, -1):
                    best = self.best_lsps(nodes[i], nodes[j], routed)
                    if best:
                        hop = (best, j)
                        break
            if hop:
                outs = [o + (("L", k),) for o in outs for k in hop[0]]
                i = hop[1]
            else:
                outs = [o + (("I", path[i]),) for o in outs]
                i += 1
        return outs

    @staticmethod
    def split(alts):
        """hop by hop even split: at every branching point the traffic that
        came the same way divides evenly over the distinct next items"""
        nxt = {}
        for q in alts:
            for h in range(len(q)):
                nxt.setdefault(q[:h], set()).add(q[h])
        out = []
        for q in alts:
            f = Fr(1)
            for h in range(len(q)):
                f /= len(nxt[q[:h]])
            out.append((q, f))
        return out

    def simulate(self, routed):
        """Everything that follows from an LSP placement: routed maps lsp key
        -> path or None.  Returns (demand -> [(items, traffic)]|None,
        interface -> traffic, lsp -> traffic)."""
        dm, it = {}, {k: Fr(0) for k in self.ifs}
        lt = {k: Fr(0) for k in self.lsps}
        for (s, t, n), tr in self.demands.items():
            r = self.route_demand(s, t, routed)
            if r is None:
                dm[(s, t, n)] = None
                continue
            tr = frac(tr)
            dm[(s, t, n)] = [(q, f * tr) for q, f in r]
            for q, f in r:
                for c, k in q:
                    if c == "I":
                        it[k] += f * tr
                    else:
                        lt[k] += f * tr
                        for kk in routed[k]:
                            it[kk] += f * tr
        return dm, it, lt
