"""Reference machine for failures and SRLGs (plain data, no library code).

State: nodes up/failed, circuits up/failed (one flag per circuit: both ends
always agree), SRLGs (failed flag, member nodes, member circuits)."""


class Reject(Exception):
    """the operation must raise"""


class FailState:
    def __init__(self, net):
        self.nodes = {n: False for n in net.nodes}
        # circuit id -> (key of one end, key of the other end); id = sorted pair of keys
        self.ends = {}
        self.of = {}
        for i in net.ifs.values():
            c = tuple(sorted((i.key, i.rkey)))
            self.ends[c] = c
            self.of[i.key] = c
        self.links = {c: False for c in self.ends}
        self.srlg = {}      # name -> failed
        self.mn = set()     # (srlg, node)
        self.ml = set()     # (srlg, circuit)

    def key(self):
        return (tuple(sorted(self.nodes.items())), tuple(sorted(self.links.items())),
                tuple(sorted(self.srlg.items())), tuple(sorted(self.mn)), tuple(sorted(self.ml)))

    # ---- helpers
    def nodes_up(self, c):
        return not any(self.nodes[k[0]] for k in c)

    def held(self, c):
        """is the circuit a member of a failed SRLG?"""
        return any(self.srlg[s] for s, x in self.ml if x == c)

    def node_held(self, n):
        return any(self.srlg[s] for s, x in self.mn if x == n)

    def links_of(self, n):
        return [c for c in self.links if any(k[0] == n for k in c)]

    # ---- operations
    def fail_interface(self, k):
        self.links[self.of[k]] = True

    def unfail_interface(self, k, strict=False):
        c = self.of[k]
        if self.nodes_up(c):
            if self.held(c):
                raise Reject
            self.links[c] = False
        elif strict:
            raise Reject

    def fail_node(self, n):
        self.nodes[n] = True
        for c in self.links_of(n):
            self.links[c] = True

    def unfail_node(self, n):
        if self.node_held(n):
            raise Reject
        self.nodes[n] = False
        for c in self.links_of(n):
            if self.nodes_up(c) and not self.held(c):
                self.links[c] = False

    def add_srlg(self, s):
        if s in self.srlg:
            raise Reject
        self.srlg[s] = False

    def fail_srlg(self, s):
        if s not in self.srlg:
            raise Reject
        for t, n in self.mn:
            if t == s:
                self.fail_node(n)
        for t, c in self.ml:
            if t == s:
                self.links[c] = True
        self.srlg[s] = True

    def unfail_srlg(self, s):
        if s not in self.srlg:
            raise Reject
        self.srlg[s] = False
        for t, n in sorted(self.mn):
            if t == s and not self.node_held(n):
                self.unfail_node(n)
        for t, c in sorted(self.ml):
            if t == s and self.nodes_up(c) and not self.held(c):
                self.links[c] = False

    def node_join(self, n, s, create):
        if s not in self.srlg:
            if not create:
                raise Reject
            self.srlg[s] = False
        self.mn.add((s, n))
        if self.srlg[s]:
            self.fail_node(n)

    def if_join(self, k, s, create):
        if s not in self.srlg:
            if not create:
                raise Reject
            self.srlg[s] = False
        self.ml.add((s, self.of[k]))
        if self.srlg[s]:
            self.links[self.of[k]] = True

    def node_leave(self, n, s):
        if s not in self.srlg or (s, n) not in self.mn:
            raise Reject
        self.mn.discard((s, n))
        if self.node_held(n):
            raise Reject
        self.nodes[n] = False

    def if_leave(self, k, s):
        c = self.of[k]
        if s not in self.srlg or (s, c) not in self.ml:
            raise Reject
        self.ml.discard((s, c))
        if self.held(c):
            raise Reject
        if self.nodes_up(c):
            self.links[c] = False
