"""C23: whatever is chosen on the weathermap, in whatever order, what it shows fits."""
import json

from ..monitors import Violation, need
from ..simcase import run
from ..stable import stable
from . import c13
from .c19 import PreventUpdate, Screen, highlight, parse, trig

PROP = "C23"
CASE_TIMEOUT = 600
MOST = 40   # no page offers more choices at the start


def nets():
    for cls in "PF":
        yield {"cls": cls, "n": ["A", "B", "C"], "l": [["A", "B", 1, 1, 10], ["B", "C", 1, 2, 10]],
               "d": [["A", "C", 12, "d1"], ["B", "C", 3, "d2"]], "p": [["A", "C", "l1", None, None], ["A", "C", "l2", 50, None]]}
        yield {"cls": cls, "n": ["A", "AA"], "l": [["A", "AA", 1, 1, 10]] * (2 if cls == "F" else 1),
               "d": [["A", "AA", 12, "x"], ["A", "AA", 3, "xx"]], "p": [["A", "AA", "x", None, 9], ["AA", "A", "x", None, None]]}
        yield {"cls": cls, "n": ["A", "B", "C"], "l": [["A", "C", 1, 1, 10], ["A", "B", 1, 2, 10], ["B", "C", 1, 3, 10]],
               "d": [["A", "C", 2, "d1"]], "p": [["A", "C", "l1", 8, None], ["A", "C", "l2", 7, None]]}


def cases(tier):
    big = tier == "thorough"
    for s in nets():
        for x in ([], [["link", 0]]):
            if not big:
                yield {"f": "journey", "s": s, "x": x, "rc": ["first"], "depth": 4}
            for k in range(MOST if big else 0):
                yield {"f": "journey", "s": s, "x": x, "rc": ["first"], "depth": 5, "first": k}


class Browser(Screen):
    """The display as a browser runs it: every property of every component, the
    callbacks fed by their inputs, and one change setting off those that follow."""
    RADIO = ("find-demands-callback", "demand-path-interfaces", "demand-path-lsps", "interfaces-on-node", "interface-demand-callback",
             "interface-lsp-callback", "find-lsps-callback", "lsp-demand-callback", "lsp-interface-callback")
    DROP = ("find-node", "demand-source-callback", "demand-destination-callback", "lsp-source-callback", "lsp-destination-callback")
    SHOWN = ("selected-demand-output", "selected-lsp-output", "selected-interface-output")
    BUTTON = ("clear-dmd-button", "clear-lsp-button", "clear-int-button")

    def __init__(self, m):
        super().__init__(m)
        self.props = {}
        self.walk(self.layout)
        self.edges = [e["data"] for e in self.props["cytoscape-prototypes", "elements"] if "source" in e["data"]]
        for outs in self.rules:
            self.call(outs, ".", None)
        self.first = dict(self.props)

    def walk(self, c):
        for k in getattr(c, "_prop_names", ()):
            v = getattr(c, k, None)
            if k == "children":
                for x in v if isinstance(v, (list, tuple)) else [v]:
                    if hasattr(x, "_prop_names"):
                        self.walk(x)
            elif getattr(c, "id", None) is not None:
                self.props[c.id, k] = v

    def call(self, outs, prop, value):
        f, ins, starts = self.rules[outs]
        vals = [self.props.get(i) for i in ins]
        try:
            r = self.run(f, vals, {"%s.%s" % i: v for i, v in zip(ins, vals) if i in starts}, trig(prop, value))
        except PreventUpdate:
            return
        for o, v in zip(outs, r if len(outs) > 1 else [r]):
            self.put(o, v)

    def put(self, o, v):
        if self.props.get(o) == v:
            return
        self.props[o] = v
        for outs, (f, ins, starts) in self.rules.items():
            if o in starts:
                self.call(outs, "%s.%s" % o, v)

    def actions(self):
        for c in self.RADIO + self.DROP:
            for o in self.props.get((c, "options")) or ():
                v = o["value"] if isinstance(o, dict) else o
                if v != self.props.get((c, "value")):
                    yield (c, "value", v)
            if c in self.DROP and self.props.get((c, "value")) is not None:
                yield (c, "value", None)
        for x in [[e] for e in self.edges] + [[]]:
            if x != self.props.get(("cytoscape-prototypes", "selectedEdgeData")):
                yield ("cytoscape-prototypes", "selectedEdgeData", x)
        for c in self.BUTTON:
            yield (c, "n_clicks", (self.props.get((c, "n_clicks")) or 0) + 1)

    def state(self):
        return stable(json.dumps(sorted((k, v) for k, v in self.props.items() if k[1] in ("value", "options", "stylesheet", "selectedEdgeData") or k[0] in self.SHOWN),
                          sort_keys=True, default=str))


def objects(opts):
    out = []
    for o in opts or ():
        v = parse(o["value"])
        if isinstance(v, dict) and v.get("source"):
            out.append((v["source"], v["dest"], v["name"]) if "name" in v else (v["source"], v["interface-name"]))
    return sorted(out)


def picked(text):
    v = json.loads(text) if text else {}
    if not v.get("source"):
        return None
    return (v["source"], v["dest"], v["name"]) if "name" in v else (v["source"], v["interface-name"])


TARGET = {"find-demands-callback": 0, "interface-demand-callback": 0, "lsp-demand-callback": 0, "clear-dmd-button": 0,
          "demand-path-lsps": 1, "find-lsps-callback": 1, "interface-lsp-callback": 1, "clear-lsp-button": 1,
          "cytoscape-prototypes": 2, "demand-path-interfaces": 2, "interfaces-on-node": 2, "lsp-interface-callback": 2, "clear-int-button": 2}


def journeys(sim, depth, st, first=None):
    """every sequence of choices up to a depth; first: only those that begin with this choice"""
    b = Browser(sim.m)
    d_on, p_on = c13.crossing(sim)

    def page(trace):
        d, p, i = now = [picked(b.props.get((c, "children"))) for c in b.SHOWN]
        ifs = sorted(k for k in d_on if d in d_on[k]) if d else []
        lsps = sorted({k for q, _ in (sim.dm[d] or ()) for c, k in q if c == "L"}) if d else []
        lists = {"demand-path-interfaces": ifs, "demand-path-lsps": lsps, "lsp-interface-callback": sorted(sim.routed[p] or ()) if p else [],
                 "lsp-demand-callback": sorted(dk for dk, ref in sim.dm.items() if any(("L", p) in q for q, _ in ref or ())) if p else [],
                 "interface-demand-callback": sorted(d_on[i]) if i else [], "interface-lsp-callback": sorted(p_on[i]) if i else []}
        n = b.props.get(("find-node", "value"))
        if n:
            lists["interfaces-on-node"] = sorted(k for k in sim.net.ifs if k[0] == n)
        for what, keys in (("demand", sim.dm), ("lsp", sim.routed)):
            a, z = (b.props.get(("%s-%s-callback" % (what, e), "value")) for e in ("source", "destination"))
            lists["find-%ss-callback" % what] = sorted(k for k in keys if a in (None, k[0]) and z in (None, k[1])) if a or z else []
        for c, want in lists.items():
            opts = b.props.get((c, "options"))
            got = objects(opts)
            need(got == want, "after %s: %s offers %s, expected %s with %s selected", trace, c, got, want, now)
            need(not want or any(o["value"] == "" for o in opts), "after %s: %s offers %s and no way to clear the choice", trace, c, got)
        highlight(sim, b.wm, b.props["cytoscape-prototypes", "stylesheet"], d, p, i, d_on)
        return now

    page([])
    seen = {b.state()}
    frontier = [(b.props, [])]
    for level in range(depth):
        nxt = []
        for props, trace in frontier:
            b.props = props
            before = [picked(b.props.get((c, "children"))) for c in b.SHOWN]
            acts = list(b.actions())
            if not trace and first is not None:
                need(len(acts) <= MOST, "%d choices", len(acts))
                acts = acts[first:first + 1]
            for c, k, v in acts:
                b.props = dict(props)
                here = trace + [(c, v)]
                try:
                    b.put((c, k), v)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("after %s: %s: %s" % (here, type(e).__name__, e))
                st.steps += 1
                now = page(here)
                want = list(before)
                if c in TARGET:
                    o = v[0] if isinstance(v, list) and v else parse(v) if isinstance(v, str) else None
                    if v != [] and not (isinstance(v, str) and isinstance(parse(v), list)):
                        want[TARGET[c]] = None if not isinstance(o, dict) else \
                            (o["source"], o["dest"], o["name"]) if "name" in o else (o["source"], o["interface-name"])
                need(now == want, "after %s: selected are %s, expected %s", here, now, want)
                s = b.state()
                if s not in seen:
                    seen.add(s)
                    if level + 1 < depth:
                        nxt.append((b.props, here))
        frontier = nxt
        if not nxt:
            break
    for s in seen:
        st.saw(s)


def check(case, st):
    run(case, st, lambda sim: journeys(sim, case["depth"], st, case.get("first")))
