"""C07: IGP shortcuts substitute LSPs into IGP paths without losing traffic."""
from ..monitors import conservation, demand_paths, interface_traffic, lsp_traffic, path_detail
from ..scfam import sc_cases
from ..simcase import run

PROP = "C07"


def cases(tier):
    return sc_cases(tier)


def check(case, st):
    def judge(sim):
        st.count("demands with shortcuts", demand_paths(sim, "sc"))
        demand_paths(sim, "all")
        interface_traffic(sim)
        conservation(sim)
        lsp_traffic(sim)
        path_detail(sim)
    run(case, st, judge)
