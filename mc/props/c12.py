"""C12: a model file loads to exactly the network it describes."""
from itertools import permutations, product

from .. import build as B
from .. import env
from ..failops import monitors
from ..modelfile import compare, expected, load, net_from
from ..monitors import Sim, Violation, placement

PROP = "C12"

IFOPT = [[], [""], ["True"], ["T"], ["true"], ["False"], ["F"], ["false"], ["", ""], ["False", ""], ["", "80"], ["True", "0"],
         ["False", "50.5"], ["True", "100"]]
NODEOPT = [None, [], [""], ["", ""], ["50", "-30"], ["-5.25", "30.75"], ["0.5"], ["", "7"], ["0", "0", "True"], ["1", "2", "False"],
           ["1", "2", ""], ["", "", "True"]]
LSPOPT = [[], ["4"], ["4.5"], [""], ["", ""], ["", "10"], ["4", "15"], ["4", ""], ["1000", "1"]]
NAMES = [["A", "B", "C"], ["node 1", "node-2", "node-2-x"], ["1", "01", "1.0"], ["a.b.c", "Ä", "東京"], ["a,b", "\"q\"", "#x"],
         ["A", "a", "Aa"], ["A", " A", "A "], ["  ", "node  1", "node 1"]]
# cells no attribute takes (table, column, written), columns counted as in a PerformanceModel file
BADCELL = [("i", 3, ["0", "-1", "1.5", "ten", "", "0x5"]), ("i", 4, ["0", "-5", "ten", ""]), ("i", 6, ["all", "50%"]),
           ("n", 3, ["maybe", "yes", "1", "true", "2"]), ("d", 2, ["-1", "-80", "ten", ""])]


def ifrows(cls, links, opts=()):
    """links: [(a, b, cost, cost back, cap)]"""
    out = []
    for j, (a, b, x, y, cap) in enumerate(links):
        for k, (s, t, c) in enumerate(((a, b, x), (b, a, y))):
            r = [s, t, "%s-to-%s%s" % (s, t, "" if j < 3 else "_%d" % j), str(c), str(cap)]
            if cls == "F":
                r.append("c%d" % j)
            n = 2 * j + k
            out.append(r + (opts[n] if n < len(opts) else []))
    return out


def base(cls, names=("A", "B", "C"), opts=()):
    a, b, c = names
    links = [(a, b, 1, 2, 100), (b, c, 3, 4, 125), (a, c, 10, 10, 10)]
    if cls == "F":
        links.append((a, b, 1, 1, 50))
    return {"i": ifrows(cls, links, opts), "n": [[a, "50", "0"], [c, "0", "-50"]],
            "d": [[a, c, "80", "d1"], [c, b, "7", ""]],
            "p": [[a, c, "l1"], [a, c, "l2", "4", "15"], [b, c, "l1", "", "3"]]}


OBJNAMES = ["d1", " d1", "d1 ", "D1", "d 1", "d  1", "none", "None", "", "0", "1.50", "d1-d1", "'d1'", "é", "Unrouted"]


def bigfile(cls, n, lay):
    """a ring of n nodes with rows for every n-th demand and LSP; lay: reversed
    tables, long names, orphan nodes, optional columns"""
    rev, long_, orphan, cols = lay
    names = ["%s%d" % ("router-with-a-rather-long-name." * 3 if long_ else "n", j) for j in range(n)]
    links = [(names[j], names[(j + 1) % n], 1 + j % 3, 1 + j % 2, 100 * (j + 1)) for j in range(n)]
    d = {"i": ifrows(cls, links, [["True", str(j % 100 + 1)] if cols else [] for j in range(2 * n)])}
    d["n"] = [[m, str(j), str(-j)] for j, m in enumerate(names) if j % 2 or not cols]
    if orphan:
        d["n"] += [["orphan%d" % j, "1", str(j)] for j in range(n)]
    d["d"] = [[names[j], names[(j + 2) % n], str(j), "d%d" % k] for j in range(n) for k in range(2)]
    d["p"] = [[names[j], names[(j + 3) % n], "l%d" % j] + (["%d" % (j + 1), "%d" % (j + 2)] if cols else []) for j in range(0, n, 5)]
    return {k: v[::-1] if rev else v for k, v in d.items()}


def cases(tier):
    big = tier == "thorough"

    def c(f, cls, desc, **kw):
        return dict({"f": f, "cls": cls, "desc": desc}, **kw)

    for cls in "PF":
        # optional interface columns: every pair of forms on the two ends of a
        # circuit and on interfaces of different circuits
        for x, y in product(IFOPT, repeat=2):
            yield c("if-columns", cls, base(cls, opts=[x, y]))
            yield c("if-columns", cls, base(cls, opts=[x, [], y, ["", ""]]))
            if big:
                for z in IFOPT:
                    yield c("if-columns", cls, base(cls, opts=[x, y, z, x]))
        for cost, back, cap in product((1, 9, 65535, 1000000), (1, 30), (1, 10, 100000, 10 ** 12)):
            d = base(cls)
            d["i"] = ifrows(cls, [("A", "B", cost, back, cap), ("C", "B", back, cost, cap)])
            yield c("if-values", cls, d)
        # node rows: every combination on two attached nodes and an orphan
        for combo in product(NODEOPT, NODEOPT, NODEOPT if big else NODEOPT[:6] + NODEOPT[8:9]):
            d = base(cls)
            d["n"] = [[n] + o for n, o in zip(("A", "C", "orphan"), combo) if o is not None]
            yield c("node-columns", cls, d)
        for extra in ([["B"]], [["Z"], ["Y", "1", "2"]], [["B", "1.5", "2.5"], ["A", "-1", "-2"]]):
            for pos in (0, 1, 2):
                d = base(cls)
                d["n"] = d["n"][:pos] + extra + d["n"][pos:]
                yield c("node-rows", cls, {**d, "n": list({r[0]: r for r in d["n"]}.values())})
        # demand rows
        rows = [["A", "C", "80", "d1"], ["A", "C", "0", "d2"], ["C", "A", "5", "d1"], ["A", "B", "100000", ""],
                ["A", "B", "3", "none"], ["B", "C", "1", "É 1"]]
        for k in range(4):
            for pick in permutations(rows, k):
                d = base(cls)
                d["d"] = list(pick)
                yield c("demand-rows", cls, d)
        # LSP rows: every pair of column forms in one parallel group, plus another LSP
        for x, y in product(LSPOPT, repeat=2):
            for z in LSPOPT if big else LSPOPT[:1]:
                d = base(cls)
                d["p"] = [["A", "C", "l1"] + x, ["A", "C", "l2"] + y, ["B", "C", "l1"] + z]
                yield c("lsp-columns", cls, d)
        # layouts
        for nl, bom, end, gap, lsp in product(("\n", "\r\n", "\r"), (0, 1), (0, 1, 2, 4), (1, 2), ("none", "empty", "rows")):
            for dem in ("rows", "empty"):
                for nod in ("rows", "empty"):
                    d = base(cls)
                    if lsp != "rows":
                        d["p"] = None if lsp == "none" else []
                    if dem == "empty":
                        d["d"] = []
                    if nod == "empty":
                        d["n"] = []
                    d["o"] = {"nl": nl, "bom": bom, "end": end, "gap": gap}
                    yield c("layout", cls, d)
        for names in NAMES:
            for perm in permutations(names):
                yield c("names", cls, base(cls, perm))
        for x, y in product(OBJNAMES, repeat=2):
            d = base(cls)
            d["d"][0][3], d["d"][1][3] = x, y
            d["d"].append([d["d"][0][0], d["d"][0][1], "9", y])
            d["p"][0][2], d["p"][1][2] = x, y
            d["i"][0][2], d["i"][2][2] = x, y
            if x and y and x != y:
                yield c("object-names", cls, d)
            else:
                d = base(cls)
                d["d"][0][3], d["d"][1][3] = x, y
                yield c("object-names", cls, d)
        for n in (12, 60) if big else (12, 40):
            for lay in product((0, 1), repeat=4):
                yield c("big-file", cls, bigfile(cls, n, lay))
        yield c("empty", cls, {"i": [], "n": [], "d": [], "p": None})
        yield c("empty", cls, {"i": [], "n": [["A", "1", "2"]], "d": [], "p": []})
        # order of rows
        d = base(cls)
        n = len(d["i"])
        for p in permutations(range(6)):
            d = base(cls)
            if not big and p[0] > 2 and p[1] > 2:
                continue
            d["i"] = [d["i"][j] for j in p] + d["i"][6:n]
            d["d"] = d["d"][::-1 if p[0] > p[1] else 1]
            d["p"] = d["p"][::-1 if p[1] > p[2] else 1]
            d["n"] = d["n"][::-1 if p[2] > p[3] else 1]
            yield c("row-order", cls, d)
        # a repeated row is disregarded: the first one counts
        for t, cell, new in (("i", 3, "77"), ("i", 4, "100"), ("d", 2, "999"), ("p", 3, "9")):
            if t == "i" and cls == "F":
                continue    # a third row with the circuit_id is rejected, see below
            d = base(cls)
            for j in range(len(d[t])):
                for at in range(j + 1, len(d[t]) + 1):
                    d = base(cls)
                    r = list(d[t][j])
                    if cell < len(r):
                        r[cell] = new
                    else:
                        r.append(new)
                    d[t].insert(at, r)
                    yield c("duplicate", cls, d)
        # malformed rows
        d = base(cls)
        need = 6 if cls == "F" else 5
        for j in range(len(d["i"])):
            for k in range(1, need):
                d = base(cls)
                d["i"][j] = d["i"][j][:k]
                yield c("bad-interface", cls, d, bad=True)
            if cls == "F":
                d = base(cls)
                d["i"][j][5] = "lonely"
                yield c("bad-circuit", cls, d, bad=True)
                d = base(cls)
                d["i"].append(list(d["i"][j][:2]) + ["extra"] + d["i"][j][3:])
                yield c("bad-circuit", cls, d, bad=True)
                d = base(cls)
                d["i"].insert(j, list(d["i"][j]))
                yield c("bad-circuit", cls, d, bad=True)
        for t, cell, values in BADCELL:
            for j in range(len(base(cls)[t])):
                for v in values:
                    d = base(cls)
                    r = d[t][j] = list(d[t][j])
                    at = cell + (t == "i" and cell > 4 and cls == "F")
                    r += [""] * (at + 1 - len(r))
                    r[at] = v
                    yield c("bad-cell", cls, d, bad="cell")
        for t in "dp":
            for j in range(len(base(cls)[t])):
                for cell in (0, 1):
                    for name in ("X", "", "a", "A ", "AB"):
                        d = base(cls)
                        d[t][j][cell] = name
                        yield c("bad-node", cls, d, bad=True)
    # the alias classes load the same
    for alias, cls in (("M", "P"), ("L", "F")):
        for x in IFOPT:
            yield c("alias", alias, base(cls, opts=[x]))


def check(case, st):
    env.reset_order()
    cls, desc = case["cls"], case["desc"]
    if case.get("bad"):
        st.execs += 1
        try:
            load(cls, desc)
        except env.ModelException:
            return
        except Exception as e:
            if case["bad"] == "cell" and isinstance(e, (ValueError, TypeError)):
                return
            raise Violation("malformed file: expected a ModelException, got %s: %s" % (type(e).__name__, e))
        raise Violation("malformed file was loaded: %s" % desc)
    e = expected(cls, desc)
    m = load(cls, desc)
    if type(m) is not B.CLS[cls]:
        raise Violation("load_model_file of %s returned a %s" % (B.CLS[cls].__name__, type(m).__name__))
    compare(m, e)
    if cls in "PM" and any(v[2] for v in e["n"].values()):
        # igp_shortcuts_enabled is loaded, and rejected by validation (C11)
        try:
            m.validate_model()
        except env.ModelException:
            return
        raise Violation("a PerformanceModel with igp_shortcuts_enabled was accepted")
    net = net_from(cls, e)
    m.update_simulation()
    st.execs += 1
    st.steps += 2
    st.saw(B.digest(m))
    compare(m, e)
    sim = Sim(m, net)
    monitors(sim)
    if case["f"] != "big-file":
        placement(sim, net.lsp_outcomes())
