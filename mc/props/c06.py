"""C06: demands ride end-to-end LSPs with the lowest effective metric."""
from ..families import lsp_cases
from ..monitors import demand_paths, interface_traffic, lsp_traffic
from ..simcase import run

PROP = "C06"


def cases(tier):
    return lsp_cases(tier)


def check(case, st):
    def judge(sim):
        st.count("demands on LSPs", demand_paths(sim, "e2e"))
        lsp_traffic(sim)
        interface_traffic(sim)
    run(case, st, judge)
