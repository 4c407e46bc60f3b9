"""C05: LSP signalling picks the cheapest path with room."""
from ..families import lsp_cases
from ..monitors import placement, reservations
from ..ref import Net
from ..simcase import run

PROP = "C05"


def cases(tier):
    return lsp_cases(tier)


def check(case, st):
    box = {}
    many = case["f"].startswith("many")

    def judge(sim):
        if "o" not in box:
            try:
                box["o"] = sim.net.lsp_outcomes(6000 if many else 200000, headroom=len(sim.net.lsps) <= 4 and not many)
                st.count("admissible outcomes", len(box["o"]))
            except OverflowError:
                if not many:
                    raise
                box["o"] = None
        if box["o"] is None:
            st.count("placements left to the reservation monitor")
            reservations(sim)
        else:
            placement(sim, box["o"])

    run(case, st, judge)
