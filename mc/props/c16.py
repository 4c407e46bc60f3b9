"""C16: models in one process are independent."""
import copy
import os
import shutil
import tempfile
from itertools import combinations

from .. import build as B
from .. import choice, edits, env, failops, modelfile, snap
from ..monitors import Violation, need
from ..ref import link_names

PROP = "C16"

SQ = {"n": ["A", "B", "C", "D"], "l": [["A", "B", 1, 1, 10], ["B", "D", 1, 1, 10], ["A", "C", 1, 1, 20], ["C", "D", 1, 1, 20]],
      "d": [["A", "D", 6, "d1"], ["B", "C", 2, "d2"]], "p": [["A", "D", "l1", None, None], ["B", "D", "l2", 3, 4]]}
CH = {"n": ["A", "B", "C", "D"], "l": [["A", "B", 5, 6, 40], ["B", "C", 2, 2, 40], ["C", "D", 1, 1, 4]],
      "d": [["A", "D", 9, "d1"], ["A", "C", 1, "d2"]], "p": [["A", "D", "l1", 3, None], ["A", "C", "l1", None, None]]}
PAR = {"n": ["A", "B", "D"], "l": [["A", "B", 1, 1, 10], ["A", "B", 1, 1, 10], ["B", "D", 1, 1, 10], ["A", "D", 3, 3, 10]],
       "d": [["A", "D", 6, "d1"]], "p": [["A", "B", "l1", None, None]], "sc": ["A"]}

ROWS = [{"name": "r1", "cost": 2, "capacity": 30, "node": "A", "remote_node": "Z", "circuit_id": "z1", "failed": False},
        {"name": "r2", "cost": 3, "capacity": 30, "node": "Z", "remote_node": "A", "circuit_id": "z1", "failed": False}]

FILES = {"P": {"i": [["A", "B", "A-B", "1", "10"], ["B", "A", "B-A", "1", "10"], ["B", "D", "B-D", "2", "20"], ["D", "B", "D-B", "2", "20"]],
               "n": [["A", "1", "2"], ["Y"]], "d": [["A", "D", "5", "d1"]], "p": [["A", "D", "l1"], ["A", "D", "l2", "3", "7"]]},
         "F": {"i": [["A", "B", "A-B", "1", "10", "1"], ["B", "A", "B-A", "1", "10", "1"], ["A", "B", "A-B_2", "1", "10", "x"],
                     ["B", "A", "B-A_2", "1", "10", "x"], ["B", "D", "B-D", "2", "20", "3"], ["D", "B", "D-B", "2", "20", "3"]],
               "n": [["A", "1", "2", "True"], ["Y"]], "d": [["A", "D", "5", "d1"]], "p": [["A", "B", "l1"]]}}

K0, K1 = ("A", "A-B"), ("B", "B-A")
LIFE = {
    "fail": [("fail", K0), ("sim",), ("unfail", K1), ("sim",)],
    "node": [("fnode", "B"), ("sim",), ("unode", "B"), ("sim",)],
    "edit": [("cost", K0, 7), ("dtraffic", ("A", "D", "d1"), 3), ("sim",), ("add_d", "B", "D", 1, "n")],
    "lsp": [("metric", ("A", "D", "l1"), 2), ("add_p", "A", "D", "l9"), ("sim",), ("bw", ("A", "D", "l1"), 1)],
    "srlg": [("srlg", "s"), ("join", "s", K0), ("njoin", "s", "B"), ("fsrlg", "s")],
    "srlg2": [("srlg", "s"), ("njoin", "s", "A"), ("fsrlg", "s"), ("sim",)],
    "attrs": [("rsvp", K0, False), ("pct", K1, 10), ("rename", K0, "zz"), ("sim",)],
    "rows": [("rows",), ("fail", ("A", "r1")), ("sim",)],
    "short": [("sc", "B", True), ("sim",), ("sc", "B", False), ("sim",)],
}
EMPTY = {
    "grow": [("node", "A"), ("node", "B"), ("add_d", "A", "B", 4, "d1"), ("circ", "A", "B", "A-B", "B-A", 3)],
    "grow2": [("rows",), ("add_p", "A", "Z", "l1"), ("add_d", "Z", "A", 2, "d1"), ("sim",)],
    "grow3": [("node", "A"), ("node", "D"), ("circ", "A", "D", "A-B", "D-A", 8), ("srlg", "s")],
}


def scripts():
    """(how it is built, what is then done)"""
    out = []
    for cls in "PFML":
        for name, spec in (("square", SQ), ("chain", CH)):
            for k in LIFE:
                if k == "short" and cls in "PM":
                    continue
                out.append((cls, name, k))
        if cls in "FL":
            out += [(cls, "parallel", k) for k in ("fail", "node", "srlg", "edit")]
        out += [(cls, "empty", k) for k in EMPTY]
        out += [(cls, "file", k) for k in ("fail", "edit", "srlg", "rows")]
        out.append((cls, "nolsps", "fail"))
    return out


def ops_of(sc):
    return [("new",)] + (EMPTY[sc[2]] if sc[1] == "empty" else LIFE[sc[2]])


# different scripts that are paired in the quick tier
CONTRAST = [tuple(sorted(x)) for x in (("fail", "srlg"), ("edit", "node"), ("lsp", "attrs"), ("srlg", "srlg2"), ("short", "lsp"), ("rows", "grow2"),
                                       ("grow", "grow3"))]


def cases(tier):
    big = tier == "thorough"
    sc = scripts()
    for a in sc:
        for b in sc:
            short = a[0] in "ML" or b[0] in "ML"
            if a > b:
                continue
            if short and not ((a[1] == b[1] or a[2] == b[2]) and a[0] != b[0] or a == b):
                continue
            kinds = tuple(sorted((a[2], b[2])))
            if not big:
                if a[2] != b[2] and kinds not in CONTRAST:
                    continue
                if short and a[1:] != b[1:]:
                    continue
            yield {"f": "%s-%s" % (a[1], b[1]), "a": list(a), "b": list(b), "sw": 9 if big else 3}


class Side:
    """one model together with its own counter of identity hashes, so that
    which model runs first does not change the set orders of the other"""

    def __init__(self, sc, rows, path):
        self.sc, self.rows, self.path = sc, rows, path
        self.m, self.count, self.sim = None, 0, False

    def do(self, op):
        env._counter[0] = self.count
        env._order[0] = "asc"
        try:
            self._do(op)
        finally:
            self.count = env._counter[0]

    def _do(self, op):
        cls, way, _ = self.sc
        k, a = op[0], op[1:]
        if k == "new":
            self.m = self.new(cls, way)
            return
        m = self.m
        self.sim = k == "sim"
        flex = cls in "FL"
        if k == "rows":
            m.add_network_interfaces_from_list(self.rows)
        elif k == "node":
            m.add_node(env.Node(*a))
        elif k == "circ":
            x, y, na, nb, c = a
            m.add_circuit(m.get_node_object(x), m.get_node_object(y), na, nb, c, c, 12, **({"circuit_id": "q"} if flex else {}))
        elif k == "srlg":
            failops.apply_real(m, ("add_srlg", a[0]))
        elif k == "join":
            failops.apply_real(m, ("if_join", a[1][0], a[1][1], a[0], False))
        elif k == "njoin":
            failops.apply_real(m, ("node_join", a[1], a[0], False))
        elif k == "fsrlg":
            m.fail_srlg(a[0])
        else:
            edits.edit(m, Blind(), op)

    def new(self, cls, way):
        C = B.CLS[cls]
        if way == "empty":
            return C()
        if way == "file":
            return C.load_model_file(self.path["F" if cls in "FL" else "P"])
        spec = dict({"square": SQ, "nolsps": SQ, "chain": CH, "parallel": PAR}[way], cls="F" if cls in "FL" else "P")
        if cls in "PM":
            spec.pop("sc", None)
        c0 = env._counter[0]
        if way == "nolsps":      # constructed with two arguments, demands added later
            nodes = {n: env.Node(n) for n in spec["n"]}
            ifs = set()
            for (a, b, x, y, cap), (na, nb, cid) in zip(spec["l"], link_names(spec)):
                ifs |= {env.Interface(na, x, cap, nodes[a], nodes[b], cid), env.Interface(nb, y, cap, nodes[b], nodes[a], cid)}
            m = C(ifs, set(nodes.values()))
            m.add_demand("A", "D", 6, "d1")
            m.add_rsvp_lsp("A", "D", "l1")
            return m
        env._counter[0] = c0
        return B.build(spec, cls=cls)


class _Any:
    """stands in for the reference where edits.edit keeps one in step"""
    node_failed = {}
    sc = set()

    def __getattr__(self, _):
        return {}


class Blind(_Any):
    cls = "P"

    def fail_if(self, k):
        pass

    def fail_node(self, n):
        pass

    def touch(self):
        pass

    class _D(dict):
        def __missing__(self, k):
            return _Row()

        def pop(self, *a):
            return _Row()

    @property
    def ifs(self):
        return Blind._D()

    @property
    def lsps(self):
        return Blind._D()


class _Row:
    node = remote = name = key = rkey = None
    failed = False

    def __getitem__(self, i):
        return None


def solo(sc, path):
    """snapshot (or rejection) after each operation of a script run alone"""
    s = Side(sc, copy.deepcopy(ROWS), path)
    out = []
    for op in ops_of(sc):
        out.append(step(s, op))
    return out


def step(s, op):
    try:
        s.do(op)
        r = None
    except (env.ModelException, KeyError, ValueError) as e:
        r = type(e).__name__
    return r, snap.full(s.m, s.sim)


def check(case, st):
    a, b = tuple(case["a"]), tuple(case["b"])
    d = tempfile.mkdtemp(prefix="mc16_")
    try:
        path = {}
        for c in "PF":
            path[c] = os.path.join(d, c + ".csv")
            with open(path[c], "w") as f:
                f.write(modelfile.text(FILES[c]))
        choice.explore(lambda: interleavings(a, b, path, st, case["sw"]), policies=["first"])
    finally:
        shutil.rmtree(d)


def interleavings(a, b, path, st, switches):
    sa, sb = solo(a, path), solo(b, path)
    na, nb = len(sa), len(sb)
    for pos in combinations(range(na + nb), na):
        who = [t in pos for t in range(na + nb)]
        if sum(p != q for p, q in zip(who, who[1:])) > switches:
            continue
        rows = copy.deepcopy(ROWS)
        x, y = Side(a, rows, path), Side(b, rows, path)
        ia = ib = 0
        trace = []
        for t in range(na + nb):
            if t in pos:
                me, op, want, other, ow = x, ops_of(a)[ia], sa[ia], y, sb[ib - 1] if ib else None
                ia += 1
            else:
                me, op, want, other, ow = y, ops_of(b)[ib], sb[ib], x, sa[ia - 1] if ia else None
                ib += 1
            trace.append(("1" if me is x else "2", list(op)))
            r, got = step(me, op)
            st.steps += 1
            if r != want[0] or got != want[1]:
                raise Violation("models %s and %s after %s: model %s differs from running alone: %s" % (
                    a, b, trace, trace[-1][0], "%s instead of %s" % (r, want[0]) if r != want[0] else snap.diff(got, want[1])))
            if ow is not None:
                again = snap.full(other.m, other.sim and t == na + nb - 1)
                if any(again[k] != ow[1][k] for k in again):
                    raise Violation("models %s and %s after %s: the other model changed: %s" % (a, b, trace, snap.diff(again, {k: ow[1][k] for k in again})))
        need(rows == ROWS, "add_network_interfaces_from_list changed the caller's list")
        st.execs += 1
        st.saw((a, b, pos))
    st.count("pairs")
