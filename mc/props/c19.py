"""C19: the weathermap shows the network as it was simulated."""
import json
import re
from itertools import product

from .. import build as B
from .. import env, modelfile  # noqa: F401
from .. import topo as T
from ..families import igp_cases, lsp_cases, scen, stretched
from ..monitors import Violation, need
from ..simcase import run
from . import c07, c13

PROP = "C19"

import dash  # noqa: E402
from dash._callback_context import context_value  # noqa: E402
from dash._utils import AttributeDict  # noqa: E402
from dash.exceptions import PreventUpdate  # noqa: E402
from pyNTM.weathermap import WeatherMap  # noqa: E402

# utilizations in percent at and around every boundary of the bands
UTILS = [0, 0.01, 1, 23.99, 24, 24.01, 24.5, 24.99, 25, 25.01, 49, 49.5, 49.99, 50, 50.01, 74, 74.5, 74.99, 75, 89, 89.5, 89.99, 90, 98.99,
         99, 99.5, 99.99, 100, 100.01, 101, 150, 250, 1000]


def cases(tier):
    big = tier == "thorough"
    for cls in "PF":
        for u in UTILS:
            for dead in (0, 1):
                s = {"cls": cls, "n": ["A", "B", "C"], "l": [["A", "B", 1, 2, 10000], ["B", "C", 3, 4, 10000]],
                     "d": [["A", "B", u * 100, "d1"], ["B", "C", 1, "d2"]]}
                yield {"f": "bands", "s": s, "x": [["link", 1]] if dead else []}
    for cls in "PF":
        for s in T.labelled(3, (1, 2), cls=cls, min_links=1, cap=20):
            s = dict(s, d=T.all_demands(s, [12, 3]), p=[["A", "B", "l1", None, None], ["A", "C", "l2", 3, 1]])
            for x in scen(s, 1):
                yield {"f": "triangles", "s": s, "x": x}
    for c in lsp_cases("quick"):
        if c["f"] in ("groups", "parallel-lsp") and (big or c["f"] == "groups" or len(c["x"]) == 0 and len(c["s"]["p"]) == 2):
            yield dict(c, rc=["first", "last"])
    for c in c07.cases("quick"):
        if c["f"] in ("parallel", "two-diamonds") and (big or len(c["s"]["p"]) > 1 or len(c["s"]["sc"]) > 1 and len(c["x"]) == 0):
            yield dict(c, rc=["first"])
    for i, c in enumerate(c13.cases("quick")):
        if c["f"] == "look-alike" and (big or not c["x"] or c["x"][0] == ["link", 0]):
            yield dict(c, rc=["first"])
    for s in stretched():
        if big or s["n"][0] != "A" and len(s["n"][0]) in (2, 12, 13, 25, 33, 65, 129, 257) or s["n"][0] == "A" and len(s["n"]) == 3:
            yield {"f": "stretched", "s": s, "x": [], "rc": ["first"]}
    for c in igp_cases("quick", [12, 0, 3]):
        if c["f"] == "bundles" and (big or len(c["x"]) == 0) or c["f"] == "quad" and len(c["s"]["l"]) == 4 and (big or not c["x"]):
            yield c


class Screen:
    """a WeatherMap whose callbacks are kept by the outputs they feed; nothing
    is served"""

    def __init__(self, m):
        self.cb = {}
        self.rules = {}
        self.started = 0
        saved = {k: dash.Dash.__dict__.get(k) for k in ("callback", "run", "run_server")}

        def callback(app, *args, **kw):
            outs, ins, starts = [], [], []
            for a in list(args) + list(kw.values()):
                for x in a if isinstance(a, (list, tuple)) else [a]:
                    if isinstance(x, dash.Output):
                        outs.append((x.component_id, x.component_property))
                    elif isinstance(x, (dash.Input, dash.State)):
                        ins.append((x.component_id, x.component_property))
                        if isinstance(x, dash.Input):
                            starts.append(ins[-1])

            def keep(f):
                self.rules[tuple(outs)] = f, ins, starts
                for o in outs:
                    self.cb[o] = (f, outs.index(o), len(outs))
                return f
            return keep

        def start(app, *a, **k):
            self.started += 1

        dash.Dash.callback = callback
        dash.Dash.run = dash.Dash.run_server = start
        try:
            self.wm = WeatherMap(m)
            self.wm.create_weathermap()
        finally:
            for k, v in saved.items():
                if v is None:
                    delattr(dash.Dash, k)
                else:
                    setattr(dash.Dash, k, v)
        self.layout = self.wm.app.layout

    def get(self, component, prop, *args, inputs=None, triggered=None):
        """what one output becomes, None when it stays as it is"""
        f, i, n = self.cb[component, prop]
        try:
            r = self.run(f, args, inputs, triggered)
        except PreventUpdate:
            return None
        return r[i] if n > 1 else r

    @staticmethod
    def run(f, args, inputs, triggered):
        ctx = AttributeDict(input_values=inputs or {}, triggered_inputs=triggered or [], inputs_list=[], states_list=[], outputs_list=[],
                            args_grouping=[], using_args_grouping=False, outputs_grouping=[], using_outputs_grouping=False,
                            response=None, state_values={})
        tok = context_value.set(ctx)
        try:
            return f(*args)
        finally:
            context_value.reset(tok)


def band(u):
    if isinstance(u, str):
        return "failed"
    for lo, hi in ((0, 25), (25, 50), (50, 75), (75, 90), (90, 100)):
        if lo <= u < hi:
            return "%d-%d" % (lo, hi - 1)
    return "100+"


def judge(sim):
    m = sim.m
    for k, n in enumerate(sorted(m.node_objects, key=lambda n: n.name)):
        n.lat, n.lon = 10 * k + 1, 7.5 - 3 * k * k
    sc = Screen(m)
    need(sc.started == 1, "create_weathermap did not start the display")
    elements(sim, sc)
    lists(sim, sc)
    selections(sim, sc)


def close(a, b):
    return abs(a - b) < 1e-6


def elements(sim, sc):
    m, net, wm = sim.m, sim.net, sc.wm
    els = wm.create_elements()
    shown = [c for c in sc.layout.children if getattr(c, "id", None) == "cytoscape-prototypes"]
    need(len(shown) == 1 and sorted(map(str, shown[0].elements)) == sorted(map(str, els)), "the display does not show the elements of the model")
    nodes, edges = {}, []
    mids = []
    by = {n.name: n for n in m.node_objects}
    for e in els:
        d = e["data"]
        if "source" in d:
            edges.append(d)
        elif d.get("group") == "midpoint":
            mids.append(e)
        else:
            nodes.setdefault(d["id"], []).append(e)
    want = sorted({i.node for i in net.ifs.values()})
    need(sorted(nodes) == want, "nodes shown are %s, expected %s", sorted(nodes), want)
    f = wm.spacing_factor
    for n, es in nodes.items():
        for e in es:
            need(e["data"]["label"] == n, "node %s is labelled %r", n, e["data"]["label"])
            need(e["data"]["failed"] == str(net.node_failed[n]), "node %s is shown with failed=%r", n, e["data"]["failed"])
            need(close(e["position"]["x"], by[n].lon * f) and close(e["position"]["y"], -by[n].lat * f),
                 "node %s (lat %r, lon %r) is shown at %s", n, by[n].lat, by[n].lon, e["position"])
    got = []
    for d in edges:
        k = (d["source"], d["interface-name"])
        need(k in net.ifs, "an edge is shown for %s, which is not an interface of the model", k)
        got.append(k)
        r = net.ifs[k]
        i = m.get_interface_object(k[1], k[0])
        need(d["capacity"] == r.cap and d["cost"] == r.cost, "edge %s shows capacity %r and cost %r, expected %r and %r",
             k, d["capacity"], d["cost"], r.cap, r.cost)
        need(d["circuit_id"] == str(i.circuit_id), "edge %s shows circuit_id %r, the interface has %r", k, d["circuit_id"], i.circuit_id)
        if r.failed:
            need(isinstance(d["utilization"], str), "edge %s of a failed interface shows utilization %r", k, d["utilization"])
        else:
            u = float(sim.it[k]) / float(r.cap) * 100
            need(not isinstance(d["utilization"], str) and abs(d["utilization"] - u) <= 0.0051 + 1e-9 * u,
                 "edge %s shows utilization %r, expected %r", k, d["utilization"], u)
        # the colour of the utilization that is shown
        need(d["group"] == wm.util_ranges[band("down" if r.failed else d["utilization"])], "edge %s with utilization %r has colour %r, expected %r",
             k, d["utilization"], d["group"], wm.util_ranges[band("down" if r.failed else d["utilization"])])
        ok = [e for e in mids if e["data"]["id"] == d["target"] and set(e["data"]["neighbors"]) == {r.node, r.remote}
              and close(e["position"]["x"], (by[r.node].lon + by[r.remote].lon) * f / 2)
              and close(e["position"]["y"], -(by[r.node].lat + by[r.remote].lat) * f / 2)]
        need(ok, "edge %s leads to %r, which is not a midpoint halfway between %s and %s", k, d["target"], r.node, r.remote)
    # circuits between the same two nodes, and no others, share a midpoint
    ends = {}
    for e in mids:
        ends.setdefault(e["data"]["id"], set()).add(tuple(sorted(e["data"]["neighbors"])))
    for k, v in ends.items():
        need(len(v) == 1 and k not in nodes, "%r is the midpoint of the circuits between %s%s", k, sorted(v), " and the name of a node" if k in nodes else "")
    need(len(ends) == len(set.union(set(), *ends.values())), "circuits between the same nodes have different midpoints: %s", sorted(ends.items()))
    need(sorted(got) == sorted(net.ifs), "edges shown are %s, expected %s", sorted(got), sorted(net.ifs))
    # both directions of a circuit meet
    tg = {(d["source"], d["interface-name"]): (d["target"], d["circuit_id"]) for d in edges}
    for k, i in net.ifs.items():
        need(tg[k] == tg[i.rkey], "the two directions of circuit %s/%s do not meet: %s, %s", k, i.rkey, tg[k], tg[i.rkey])
    ids = {tg[k][1] for k in tg}
    need(len(ids) * 2 == len(tg), "circuit_ids shown repeat: %s", sorted(tg.values()))
    need([o["label"] for o in wm.utilization_display_info()] == list(wm.util_ranges) and
         all(wm.util_ranges[o["label"]] == o["value"] for o in wm.utilization_display_info()), "utilization_display_info")
    need(wm.util_display_options == wm.utilization_display_info(), "util_display_options")


def lists(sim, sc):
    net, wm = sim.net, sc.wm
    need([(o["label"], o["value"]) for o in wm.make_node_list()] == [(n, n) for n in sorted(net.nodes)], "make_node_list %s", wm.make_node_list())
    for what, keys, both in (("demand", net.demands, wm.demand_sources_and_destinations()), ("lsp", net.lsps, wm.lsp_sources_and_destinations())):
        srcs, dsts = sorted({k[0] for k in keys}), sorted({k[1] for k in keys})
        need([list(both[0]), list(both[1])] == [srcs, dsts], "%s_sources_and_destinations %s, expected %s", what, both, (srcs, dsts))
        find = ("find-%ss-callback" % what, "options")
        ids = ("%s-source-callback" % what, "%s-destination-callback" % what)
        pairs = {k[:2] for k in keys}
        for n in net.nodes:
            want = sorted(s for s, t in pairs if t == n)
            need(sorted(wm.get_sources(n, what)) == want, "get_sources(%s, %s) %s, expected %s", n, what, wm.get_sources(n, what), want)
            want = sorted(t for s, t in pairs if s == n)
            need(sorted(wm.get_destinations(n, what)) == want, "get_destinations(%s, %s) %s, expected %s", n, what, wm.get_destinations(n, what), want)
        for s, t in [(None, None)] + [(s, None) for s in srcs] + [(None, t) for t in dsts] + sorted(pairs):
            ctx = {ids[0] + ".value": s, ids[1] + ".value": t}
            got = [[o["value"] for o in sc.get(c, "options", s, t, inputs=ctx)] for c in ids]
            want = [[s] if s else sorted({a for a, b in pairs if t in (None, b)}), [t] if t else sorted({b for a, b in pairs if s in (None, a)})]
            need(got == want, "%s selectors offer %s after choosing %s, expected %s", what, got, (s, t), want)
            opts = sc.get(*find, s, t, inputs=ctx)
            want = sorted(k for k in keys if s in (None, k[0]) and t in (None, k[1])) if s or t else []
            chosen(opts, want, "%ss from %s to %s" % (what, s, t))


def chosen(opts, want, what):
    """the options offered stand for exactly the wanted demands or LSPs"""
    got = []
    for o in opts:
        try:
            v = json.loads(o["value"])
        except ValueError:
            continue
        if isinstance(v, dict) and v.get("source"):
            got.append((v["source"], v["dest"], v["name"]))
            for x in got[-1]:
                need(x in o["label"], "%s: option %s is labelled %r", what, got[-1], o["label"])
    need(sorted(got) == sorted(want), "%s: offered %s, expected %s", what, sorted(got), sorted(want))


def chosen_ifs(opts, want, what):
    got = []
    for o in opts:
        try:
            v = json.loads(o["value"])
        except ValueError:
            continue
        if isinstance(v, dict) and v.get("source"):
            got.append((v["source"], v["interface-name"]))
    need(sorted(got) == sorted(want), "%s: interfaces %s, expected %s", what, sorted(got), sorted(want))
    return {(v["source"], v["interface-name"]): o["value"] for o in opts for v in [parse(o["value"])] if isinstance(v, dict) and v.get("source")}


def parse(s):
    try:
        return json.loads(s)
    except ValueError:
        return None


def trig(pid, value):
    return [{"prop_id": pid, "value": value}]


def selections(sim, sc):
    m, net, wm = sim.m, sim.net, sc.wm
    d_on, p_on = c13.crossing(sim)
    # a demand is selected
    keys = sorted(sim.dm)
    for ds in [[a, b] for a in keys for b in keys if a != b] + [keys]:
        got = wm.find_demand_interfaces_and_lsps([m.get_demand_object(*dk) for dk in ds])
        ifs = {k for k in d_on if d_on[k].intersection(ds)}
        lsps = {k for dk in ds for q, _ in sim.dm[dk] or () for c, k in q if c == "L"}
        need({B.ikey(i) for i in got[0]} == ifs and {B.lkey(p) for p in got[1]} == lsps,
             "demands %s are shown on interfaces %s and LSPs %s, expected %s and %s", ds, sorted(B.ikey(i) for i in got[0]),
             sorted(B.lkey(p) for p in got[1]), sorted(ifs), sorted(lsps))
    dsel = {None: None}
    for dk, ref in sim.dm.items():
        ifs = {k for k in d_on if dk in d_on[k]}
        lsps = {k for q, _ in ref or () for c, k in q if c == "L"}
        got = wm.find_demand_interfaces_and_lsps([m.get_demand_object(*dk)])
        need(sorted(B.ikey(i) for i in got[0]) == sorted(ifs) and sorted(B.lkey(p) for p in got[1]) == sorted(lsps),
             "demand %s is shown on interfaces %s and LSPs %s, expected %s and %s", dk, sorted(B.ikey(i) for i in got[0]),
             sorted(B.lkey(p) for p in got[1]), sorted(ifs), sorted(lsps))
        val = json.dumps({"source": dk[0], "dest": dk[1], "name": dk[2]})
        for pid in ("interface-demand-callback.value", "find-demands-callback.value", "lsp-demand-callback.value"):
            out = sc.get("selected-demand-output", "children", val, val, val, 0, triggered=trig(pid, val))
            need(json.loads(out) == {"source": dk[0], "dest": dk[1], "name": dk[2], "routed": ref is not None}, "selecting demand %s shows %s", dk, out)
        dsel[dk] = out
        if ref is not None:
            chosen_ifs(sc.get("demand-path-interfaces", "options", out), ifs, "path of demand %s" % (dk,))
            chosen(sc.get("demand-path-lsps", "options", out), lsps, "LSPs of demand %s" % (dk,))
    # an LSP is selected
    psel = {None: None}
    for lk, path in sim.routed.items():
        val = json.dumps({"source": lk[0], "dest": lk[1], "name": lk[2]})
        for pid in ("demand-path-lsps.value", "find-lsps-callback.value", "interface-lsp-callback.value"):
            out = sc.get("selected-lsp-output", "children", val, val, val, 0, triggered=trig(pid, val))
            need(json.loads(out) == {"source": lk[0], "dest": lk[1], "name": lk[2], "routed": path is not None}, "selecting LSP %s shows %s", lk, out)
        psel[lk] = out
        if path is not None:
            chosen_ifs(sc.get("lsp-interface-callback", "options", out), set(path), "path of LSP %s" % (lk,))
            chosen(sc.get("lsp-demand-callback", "options", out),
                   [dk for dk, ref in sim.dm.items() if any(("L", lk) in q for q, _ in ref or ())], "demands on LSP %s" % (lk,))
    # an interface is selected, on the map or in a list
    isel = {None: None}
    edges = {(e["data"]["source"], e["data"]["interface-name"]): e["data"] for e in wm.create_elements() if "source" in e["data"]}
    for n in net.nodes:
        opts = sc.get("interfaces-on-node", "options", n)
        vals = chosen_ifs(opts, [k for k in net.ifs if k[0] == n], "interfaces on node %s" % n)
        for k, v in vals.items():
            i = m.get_interface_object(k[1], k[0])
            r = net.ifs[k]
            want = {"source": k[0], "interface-name": k[1], "dest": r.remote, "utilization %": i.utilization, "cost": r.cost}
            for pid, tv in (("interfaces-on-node.value", v), ("demand-path-interfaces.value", v), ("lsp-interface-callback.value", v),
                            ("cytoscape-prototypes.selectedEdgeData", [dict(edges[k])])):
                out = json.loads(sc.get("selected-interface-output", "children", tv, v, v, v, 0, triggered=trig(pid, tv)))
                need(str(out.pop("circuit_id")) == str(i.circuit_id) and out == want, "selecting interface %s by %s shows %s, expected %s", k, pid, out, want)
            isel[k] = sc.get("selected-interface-output", "children", v, v, v, v, 0, triggered=trig("interfaces-on-node.value", v))
            chosen(sc.get("interface-demand-callback", "options", isel[k]), d_on[k], "demands on interface %s" % (k,))
            chosen(sc.get("interface-lsp-callback", "options", isel[k]), p_on[k], "LSPs on interface %s" % (k,))
    # clearing a selection
    for comp, button, n in (("selected-demand-output", "clear-dmd-button", 3), ("selected-lsp-output", "clear-lsp-button", 3),
                            ("selected-interface-output", "clear-int-button", 4)):
        out = sc.get(comp, "children", *[None] * n, 1, triggered=trig(button + ".n_clicks", 1))
        need(not json.loads(out).get("value") and "source" not in json.loads(out), "%s shows %s after clearing", comp, out)
        {"d": dsel, "l": psel, "i": isel}[comp[9]][""] = out
    # what is highlighted, for selections of each kind and combinations of them
    colors = list(wm.util_ranges.values())
    dk0, pk0, ik0 = (([k for k in x if k] + [None])[0] for x in (dsel, psel, isel))
    combos = [(d, None, None) for d in dsel] + [(None, p, None) for p in psel] + [(None, None, i) for i in isel]
    combos += [(d, pk0, ik0) for d in dsel] + [(dk0, p, None) for p in psel] + [("", "", "")]
    for d, p, i in combos:
        sheet = sc.get("cytoscape-prototypes", "stylesheet", [], colors, dsel[d], isel[i], psel[p])
        highlight(sim, wm, sheet, d, p, i, d_on)
    # the utilization colours ticked: their edges are emphasised, the others are not
    ticks = [[]] + [[c] for c in colors] + [colors[:k] for k in range(2, len(colors) + 1)]
    for d, p, i in ((None, None, None), (dk0, pk0, ik0)):
        for t in ticks:
            sheet = sc.get("cytoscape-prototypes", "stylesheet", [], t, dsel[d], isel[i], psel[p])
            for k, e in edges.items():
                base, now = opacity(wm.default_stylesheet, e), opacity(sheet, e)
                need(now == (1.0 if e["group"] in t else base), "edge of interface %s, of colour %s: opacity %s with the colours %s ticked",
                     k, e["group"], now, t)


EDGE = re.compile(r'\[(\w+)="([^"]*)"\]')


def opacity(sheet, e):
    """The opacity of an edge under a style sheet: the last entry that selects it and says one."""
    got = None
    for r in sheet:
        sel = r["selector"]
        if sel.startswith("edge") and ":" not in sel and all(str(e.get(a)) == v for a, v in EDGE.findall(sel)):
            got = r["style"].get("opacity", got)
    return got


def highlight(sim, wm, sheet, d, p, i, d_on):
    m, net = sim.m, sim.net
    got = {"d": set(), "p": set(), "i": set(), "dn": set(), "pn": set()}
    for e in sheet[len(wm.default_stylesheet):]:
        a = dict(EDGE.findall(e["selector"]))
        st = e["style"]
        kind = "d" if wm.demand_color in st.values() else "p" if wm.lsp_color in st.values() else "i" if st.get("line-style") == "dotted" else None
        if kind is None:
            continue
        if e["selector"].startswith("edge"):
            got[kind].add((a["circuit_id"], a["source"]))
        else:
            got[kind + "n"].add(a["id"])
    cid = {B.ikey(x): str(x.circuit_id) for x in m.interface_objects}

    def ends(ks):
        return {(cid[k], n) for k in ks for n in (net.ifs[k].node, net.ifs[k].remote)}

    def nodes(ks):
        return {n for k in ks for n in (net.ifs[k].node, net.ifs[k].remote)}

    ifs = [k for k in d_on if d in d_on[k]] if d else []
    path = (sim.routed[p] or ()) if p else ()
    want = {"d": ends(ifs), "dn": nodes(ifs), "p": ends(path), "pn": nodes(path), "i": {(cid[i], i[0])} if i else set()}
    for k in want:
        need(got[k] == want[k], "selecting demand %s, LSP %s, interface %s highlights %s %s, expected %s", d, p, i,
             {"d": "demand edges", "dn": "demand nodes", "p": "LSP edges", "pn": "LSP nodes", "i": "interface"}[k], sorted(got[k]), sorted(want[k]))


def check(case, st):
    def one(sim):
        judge(sim)
        st.count("displays")
    run(case, st, one)
