"""C01: IGP demands follow exactly all least-cost live paths."""
from ..monitors import demand_paths
from ..simcase import run
from .. import topo as T
from ..families import igp_cases

PROP = "C01"


def cases(tier):
    return igp_cases(tier)


def check(case, st):
    run(case, st, lambda sim: st.count("demands", demand_paths(sim, "igp")))
